// R02: port/Load sends exactly the requested bytes and returns exactly the answer
#include "msys.h"
#include "rpcenv.h"

namespace
{
    using namespace msys;
    using namespace sim;

    enum EAnswer
    {
        FULL, SHORT, LONG, SILENT, GAPPED, SPLIT, EXCEPTION, DAMAGED, LATE
    };
    const char* AnswerName(EAnswer a)
    {
        static const char* n[] = {"full", "short", "long", "silent", "gapped", "split", "exception", "damaged", "late"};
        return n[a];
    }

    struct TExchange
    {
        int Id = 0;
        Json::Value Request;
        rpcenv::PReply Reply;
        bool Valid = true;   // the request can be executed
        bool Raw = false, Hex = true, ById = false;
        TBytes Expect;       // the frame (Modbus TCP: without the transaction id)
        uint8_t Slave = 0;
        TBytes Pdu;
        size_t ResponseSize = 0;
        EAnswer Answer = FULL;
        milliseconds ResponseTimeout{500}, FrameTimeout{20}, TotalTimeout{10000};
        TSerialPortConnectionSettings Line;
        int Sent = 0;
        bool Noisy = false;  // bytes of another answer were on the line
        TBytes Got;          // what has to be returned
        uint8_t Code = 0;
        bool PortFailed = false;
        std::string Str() const
        {
            std::ostringstream o;
            Json::FastWriter w;
            auto s = w.write(Request);
            o << "#" << Id << " " << s.substr(0, std::min<size_t>(s.size() - 1, 400)) << ", sent " << Sent << " times, answer " << AnswerName(Answer)
              << ", to be returned " << mon::Hex(Got).substr(0, 100) << ", reply: " << (Reply ? Reply->Str() : "none");
            return o.str();
        }
    };

    std::string HexText(Rng& r, const TBytes& b)
    {
        static const char* up = "0123456789ABCDEF";
        static const char* lo = "0123456789abcdef";
        auto d = r.Chance(50) ? up : lo;
        std::string s;
        for (auto x: b) {
            s += d[x >> 4];
            s += d[x & 15];
        }
        return s;
    }

    std::string HexLower(const TBytes& b)
    {
        std::string s;
        char t[3];
        for (auto x: b) {
            snprintf(t, sizeof(t), "%02x", x);
            s += t;
        }
        return s;
    }

    bool SameLine(const TSerialPortConnectionSettings& a, const TSerialPortConnectionSettings& b)
    {
        return a.BaudRate == b.BaudRate && a.Parity == b.Parity && a.DataBits == b.DataBits && a.StopBits == b.StopBits;
    }

    void Case(Rng& r, uint64_t)
    {
        sim::Reset();
        TWorld w(r);
        TProfile p;
        p.WriteAddr = p.Singles = p.Strings = false;
        p.MaxDevs = 2;
        p.MaxClusters = 2;
        p.MaxPerCluster = 4;
        w.Tcp = r.Chance(25);
        w.Baud = r.Of({9600, 19200, 115200});
        w.MakeDevs(p);
        for (auto& d: w.Devs) {
            d.HexSlave = r.Chance(40);
            d.DeviceTimeout = 100000000;
            d.FailCycles = 1000000;
        }
        int portTimeout = r.Of({0, 20, 100, 700});
        if (portTimeout) {
            w.PortExtra["response_timeout_ms"] = portTimeout;
        }
        w.PortExtra["connection_timeout_ms"] = -1;
        w.FillMemory();
        std::deque<TExchange> all;
        bool portFaults = r.Chance(15), faultsNow = false;
        TTime noise{}; // late or superfluous bytes were sent: they may spoil the next answers
        std::map<int, PModbusSlave> extra; // devices that are not configured
        w.OnPub = [&](const std::string& dev, const std::string& ctl, bool error, const std::string& text) {
            if (error) {
                MON_EXPECT(text.find_first_of("rw") == std::string::npos || portFaults || Now() < noise + 3s, "polling-disturbed", dev << "/" << ctl << " error " << text);
                return;
            }
            w.CheckPublished(dev, ctl, text, "value");
        };
        w.Start();
        for (auto& d: w.Devs) {
            w.Slaves[d.Slave]->Fault = [&](const TModbusRequest&) {
                TAnswer a;
                a.Delay = milliseconds(r.Below(8));
                return a;
            };
        }
        auto slave = [&](int id) {
            auto it = w.Slaves.find(id);
            if (it != w.Slaves.end()) {
                return it->second;
            }
            auto& e = extra[id];
            if (!e) {
                e = std::make_shared<TModbusSlave>(uint8_t(id));
            }
            return e;
        };
        TExchange* current = nullptr;
        w.Bus->OnOther = [&](TSimPort& port, const TBytes& d) {
            if (getenv("VLOG")) {
                fprintf(stderr, "%10.6f sent %s; noise until %.6f\n", double((Now() - TTime{}).count()) / 1e9, mon::Hex(d).substr(0, 60).c_str(), double((noise - TTime{}).count()) / 1e9);
            }
            TBytes key = w.Tcp && d.size() > 2 ? TBytes(d.begin() + 2, d.end()) : d;
            for (auto& x: all) {
                bool m = x.Valid && (x.Raw ? x.Expect == d : x.Expect == key);
                if (!m) {
                    continue;
                }
                ++x.Sent;
                current = &x;
                mon::Count("exchanges");
                MON_EXPECT(x.Sent == 1, "sent-twice", x.Str());
                MON_EXPECT(!x.Reply || !x.Reply->Count(), "sent-after-reply", x.Str());
                MON_EXPECT(Now() - x.Reply->Called < x.TotalTimeout + 300ms + port.GetSendTimeBytes(d.size()), "sent-after-expiry", (Now() - x.Reply->Called) / 1ms << " ms: " << x.Str());
                if (!w.Tcp) {
                    MON_EXPECT(SameLine(port.Current, x.ById ? port.Configured : x.Line), "line-settings",
                               port.Current.BaudRate << port.Current.Parity << port.Current.DataBits << port.Current.StopBits << ": " << x.Str());
                }
                x.Noisy = Now() < noise;
                if (x.Noisy && !w.Tcp) {
                    return true;
                }
                // the answer
                struct TNoise
                {
                    TExchange& X;
                    TSimPort& P;
                    TTime& T;
                    ~TNoise()
                    {
                        if (X.Answer == LATE || X.Answer == LONG || X.Answer == SPLIT || X.Answer == DAMAGED) {
                            T = std::max(T, P.LastRx + 200ms); // bytes come between clearing of the line and the next request, too
                        }
                    }
                } setNoise{x, port, noise};
                auto eff = std::max<microseconds>(x.ResponseTimeout, milliseconds(portTimeout));
                auto delay = microseconds(r.Below(std::max<int64_t>(1, eff.count() * 8 / 10)));
                TBytes a;
                if (x.Raw) {
                    size_t n = x.ResponseSize;
                    if (x.Answer == SHORT && n > 1) {
                        n = 1 + r.Below(n - 1);
                    } else if (x.Answer == LONG) {
                        n += 1 + r.Below(10);
                    }
                    a = r.Bytes(n);
                    if (!x.Hex) {
                        for (auto& b: a) {
                            b = r.Of({int(b & 0x7f), int(r.Range(32, 126))});
                        }
                    }
                } else {
                    auto s = slave(x.Slave);
                    auto q = ParsePdu(x.Slave, x.Pdu);
                    TBytes pdu;
                    if (x.Answer == EXCEPTION) {
                        x.Code = r.Of({1, 2, 3, 4, 5, 6, 8, 10, 11});
                        pdu = {uint8_t(x.Pdu[0] | 0x80), x.Code};
                    } else if (x.Pdu[0] == 23) {
                        auto u = [&](int i) { return x.Pdu[i] << 8 | x.Pdu[i + 1]; };
                        for (int i = 0; i < u(7); ++i) {
                            s->Set(EType::HOLDING, u(5) + i, u(10 + 2 * i));
                        }
                        pdu = {23, uint8_t(u(3) * 2)};
                        for (int i = 0; i < u(3); ++i) {
                            auto v = s->Get(EType::HOLDING, u(1) + i);
                            pdu.push_back(v >> 8);
                            pdu.push_back(v);
                        }
                    } else {
                        pdu = s->Execute(q);
                    }
                    if (x.Answer == FULL && pdu[0] < 5 || pdu[0] == 23) {
                        x.Got.assign(pdu.begin() + 2, pdu.end());
                    }
                    a = w.Tcp ? TcpFrame(d[0] << 8 | d[1], x.Slave, pdu) : RtuFrame(x.Slave, pdu);
                    if (x.Answer == DAMAGED) {
                        if (w.Tcp) {
                            a[r.Of({6, 7})] ^= 1 << r.Below(7);
                        } else {
                            a[r.Below(a.size())] ^= 1 << r.Below(8);
                        }
                    }
                }
                if (x.Raw) {
                    x.Got.assign(a.begin(), a.begin() + std::min(a.size(), x.ResponseSize));
                }
                switch (x.Answer) {
                    case SILENT:
                        x.Got.clear();
                        break;
                    case LATE:
                        port.Push(a, eff + milliseconds(100));
                        x.Got.clear();
                        break;
                    case GAPPED:
                    case SPLIT: {
                        size_t at = 1 + r.Below(std::max<size_t>(1, a.size() - 1));
                        at = std::min(at, a.size());
                        auto gap = x.Answer == GAPPED ? microseconds(x.FrameTimeout) / 2 : microseconds(x.FrameTimeout) * 2 + 20ms;
                        port.Push(TBytes(a.begin(), a.begin() + at), delay);
                        port.Push(TBytes(a.begin() + at, a.end()), delay + port.GetSendTimeBytes(at) + gap);
                        if (x.Answer == SPLIT && x.Got.size() > at) {
                            x.Got.resize(at);
                        }
                        break;
                    }
                    default:
                        port.Push(a, delay);
                }
                return true;
            }
            // nothing else but polling
            if (!w.Tcp) {
                MON_EXPECT(SameLine(port.Current, port.Configured), "settings-not-restored", mon::Hex(d));
            }
            auto q = w.Tcp ? d.size() > 8 ? ParsePdu(d[6], TBytes(d.begin() + 7, d.end())) : TModbusRequest()
                     : d.size() > 4       ? ParsePdu(d[0], TBytes(d.begin() + 1, d.end() - 2))
                                          : TModbusRequest();
            bool poll = q.Fn && !q.Malformed && q.Addr + q.Count <= 62000;
            MON_EXPECT(poll, "unexpected-frame", mon::Hex(d) << " (last exchange " << (current ? current->Str() : "none") << ")");
            mon::Count("poll-requests");
            return !poll || !w.Tcp && Now() < noise; // nothing gets through a busy line
        };
        w.Port->FailWrite = w.Port->FailRead = [&] {
            if (portFaults && faultsNow && r.Chance(10)) {
                Advance(2ms);
                w.Port->DropRx(); // the answer being received is lost
                for (auto& x: all) {
                    x.PortFailed = x.PortFailed || !x.Reply || !x.Reply->Count();
                }
                return true;
            }
            return false;
        };
        w.Port->FailSettings = [&] {
            if (portFaults && faultsNow && r.Chance(20)) {
                for (auto& x: all) {
                    x.PortFailed = x.PortFailed || !x.Reply || !x.Reply->Count();
                }
                return true;
            }
            return false;
        };
        w.Port->CloseOnFail = r.Chance(50);
        auto templates = sys::EmptyTemplates();
        rpcenv::TRpc rpc(*w.Svc, templates);

        auto make = [&]() {
            all.emplace_back();
            auto& x = all.back();
            x.Id = all.size();
            auto& q = x.Request;
            q = Json::Value(Json::objectValue);
            x.Raw = !w.Tcp && r.Chance(40);
            x.ById = !x.Raw && r.Chance(35);
            auto& dev = r.Pick(w.Devs);
            bool known = r.Chance(60);
            x.Slave = x.ById || known ? dev.Slave : r.Of({0, 90, 200, 247, 255});
            while (!x.ById && !known && w.Slaves.count(x.Slave)) {
                ++x.Slave;
            }
            if (x.ById) {
                q["device_id"] = dev.Id;
            } else if (w.Tcp) {
                q["ip"] = "sim";
                q["port"] = 502;
            } else {
                q["path"] = "/dev/ttySIM";
                x.Line.BaudRate = r.Of({1200, 9600, 19200, 115200});
                x.Line.Parity = r.Of({'N', 'E', 'O'});
                x.Line.DataBits = r.Of({7, 8, 8});
                x.Line.StopBits = r.Of({1, 2});
                q["baud_rate"] = x.Line.BaudRate;
                q["parity"] = std::string(1, x.Line.Parity);
                q["data_bits"] = x.Line.DataBits;
                q["stop_bits"] = x.Line.StopBits;
            }
            x.Hex = r.Chance(70);
            if (x.Hex || r.Chance(50)) {
                q["format"] = x.Hex ? "HEX" : "STR";
            }
            if (r.Chance(60)) {
                x.ResponseTimeout = milliseconds(r.Of({1, 20, 50, 300, 1500}));
                q["response_timeout"] = int(x.ResponseTimeout / 1ms);
            }
            if (r.Chance(60)) {
                x.FrameTimeout = milliseconds(r.Of({10, 20, 60}));
                q["frame_timeout"] = int(x.FrameTimeout / 1ms);
            }
            if (r.Chance(25)) {
                x.TotalTimeout = milliseconds(r.Of({1, 20, 100, 30000}));
                q["total_timeout"] = int(x.TotalTimeout / 1ms);
            }
            auto text = [&](const TBytes& b) { return x.Hex ? HexText(r, b) : std::string(b.begin(), b.end()); };
            auto payload = [&](size_t n) {
                auto b = r.Bytes(n);
                if (!x.Hex) {
                    for (auto& c: b) {
                        c = r.Range(1, 127);
                    }
                }
                return b;
            };
            if (x.Raw) {
                if (r.Chance(50)) {
                    q["protocol"] = "raw";
                }
                // does not look like a Modbus request
                x.Expect = payload(r.Range(5, 60));
                std::string mark = "RAW" + std::to_string(x.Id) + ".";
                x.Expect.insert(x.Expect.begin(), mark.begin(), mark.end());
                q["msg"] = text(x.Expect);
                x.ResponseSize = r.Chance(20) ? r.Below(3) : r.Range(1, 300);
                q["response_size"] = Json::UInt(x.ResponseSize);
                x.Answer = r.Of({FULL, FULL, SHORT, LONG, SILENT, GAPPED, SPLIT, LATE});
                if (!x.ResponseSize) {
                    x.Answer = SILENT;
                }
                if (r.Chance(12)) {
                    // refused: not hexadecimal
                    x.Valid = false;
                    q["format"] = "HEX";
                    auto t = HexText(r, x.Expect);
                    if (r.Chance(50)) {
                        t += r.Of({"a", "0", "F"});
                    } else {
                        t[r.Below(t.size())] = r.Of({'g', 'z', ' ', '-', 'x', '+', '.'});
                    }
                    q["msg"] = t;
                    mon::Count("not-hexadecimal");
                }
                return;
            }
            if (!x.ById) {
                q["protocol"] = w.Tcp ? "modbus-tcp" : "modbus";
                q["slave_id"] = x.Slave;
            }
            int fn = r.Of({1, 2, 3, 4, 5, 6, 15, 16, 23});
            q["function"] = fn;
            // the address is unique, the requests can be told from each other and from polling
            uint32_t addr = 62100 + x.Id * 40 % 3300;
            uint32_t count = fn < 5 || fn == 15 || fn == 16 || fn == 23 ? r.Range(1, fn == 1 || fn == 2 || fn == 15 ? 39 : 30) : 1;
            bool giveCount = count > 1 || r.Chance(50);
            TBytes data;
            uint32_t waddr = 62100 + r.Below(3000), wcount = r.Range(1, 20);
            auto be = [](TBytes& b, uint32_t v) {
                b.push_back(v >> 8);
                b.push_back(v);
            };
            x.Pdu = {uint8_t(fn)};
            be(x.Pdu, addr);
            switch (fn) {
                case 5:
                    data = x.Hex ? r.Of<TBytes>({{0xff, 0}, {0, 0}}) : TBytes{0, 0};
                    break;
                case 6:
                    data = payload(2);
                    break;
                case 15:
                    data = payload((count + 7) / 8);
                    be(x.Pdu, count);
                    x.Pdu.push_back(data.size());
                    break;
                case 16:
                    data = payload(count * 2);
                    be(x.Pdu, count);
                    x.Pdu.push_back(data.size());
                    break;
                case 23:
                    data = payload(wcount * 2);
                    be(x.Pdu, count);
                    be(x.Pdu, waddr);
                    be(x.Pdu, wcount);
                    x.Pdu.push_back(data.size());
                    q["write_address"] = waddr;
                    q["write_count"] = wcount;
                    break;
                default:
                    be(x.Pdu, count);
            }
            x.Pdu.insert(x.Pdu.end(), data.begin(), data.end());
            q["address"] = addr;
            if (giveCount) {
                q["count"] = count;
            }
            if (!data.empty()) {
                q["msg"] = text(data);
            }
            for (uint32_t i = 0; i < 60; ++i) {
                for (auto t: {EType::COIL, EType::DISCRETE, EType::HOLDING, EType::INPUT}) {
                    slave(x.Slave)->Set(t, addr + i, t == EType::COIL || t == EType::DISCRETE ? r.Below(2) : r.Below(x.Hex ? 65536 : 0x8000) & (x.Hex ? 0xffff : 0x7f7f));
                }
            }
            x.Answer = r.Of({FULL, FULL, FULL, EXCEPTION, SILENT, DAMAGED, LATE});
            if (x.Answer == LATE && !w.Tcp && (fn < 5 || fn == 23)) {
                x.Answer = SILENT; // RTU can't tell whose answer it is
            }
            if (r.Chance(15)) {
                // refused: out of the protocol's range
                x.Valid = false;
                int bad = r.Below(5);
                int big = r.Of({65536, 131072, 1 << 24});
                if (bad == 0 || x.ById && bad == 1) {
                    q["address"] = addr + big;
                } else if (bad == 1) {
                    q["slave_id"] = x.Slave + r.Of({256, 65536});
                } else if (bad == 2 && fn < 5) {
                    q["count"] = count + big;
                } else if (fn >= 5) {
                    data.resize(r.Chance(50) && data.size() > 1 ? data.size() - 1 : data.size() + 1);
                    q["msg"] = text(data);
                } else {
                    q["count"] = 0;
                }
                mon::Count("out-of-range");
            }
            auto f = w.Tcp ? TcpFrame(0, x.Slave, x.Pdu) : RtuFrame(x.Slave, x.Pdu);
            x.Expect = w.Tcp ? TBytes(f.begin() + 2, f.end()) : f;
        };

        auto judge = [&](TExchange& x) {
            auto& y = *x.Reply;
            MON_EXPECT(y.Count() == 1, y.Count() ? "several-replies" : "no-reply", x.Str());
            if (y.Count() != 1) {
                return;
            }
            if (!x.Valid) {
                MON_EXPECT(y.Errors, "not-refused", x.Str());
                mon::Count("refused");
                return;
            }
            if (y.At - y.Called > x.TotalTimeout + 300ms && !x.Sent) {
                MON_EXPECT(y.Errors && y.Code == WBMQTT::E_RPC_REQUEST_TIMEOUT || x.PortFailed, "expired", x.Str());
                mon::Count("expired");
                return;
            }
            if (!x.Sent) {
                // expired in the queue or the port failed
                bool may = x.PortFailed || x.TotalTimeout < 1s;
                MON_EXPECT(y.Errors && may, y.Errors ? "refused-without-reason" : "result-without-exchange", x.Str());
                return;
            }
            if (x.PortFailed && y.Errors) {
                mon::Count("failed-by-port");
                return;
            }
            if (x.Noisy && (!w.Tcp || y.Errors || x.Answer == LATE)) {
                mon::Count("noisy-line");
                return;
            }
            std::string want = x.Hex ? HexLower(x.Got) : std::string(x.Got.begin(), x.Got.end());
            bool ok = x.Answer == FULL || x.Answer == GAPPED || x.Raw && (!x.ResponseSize || x.Answer == SHORT || x.Answer == LONG || x.Answer == SPLIT);
            if (x.Answer == EXCEPTION) {
                MON_EXPECT(y.Results && y.Result["exception"]["code"].isInt() && y.Result["exception"]["code"].asInt() == x.Code && !y.Result["exception"]["msg"].asString().empty() && !y.Result.isMember("response"),
                           "exception", int(x.Code) << " " << x.Str());
                mon::Count("exceptions-returned");
            } else if (ok) {
                MON_EXPECT(y.Results, "answer-not-returned", x.Str());
                if (y.Results) {
                    MON_EXPECT(y.Result["response"].isString() && y.Result["response"].asString() == want, x.Raw ? "raw-response" : "modbus-response", "want " << mon::Quote(want) << " " << x.Str());
                    mon::Count(x.Raw ? "raw-responses" : "modbus-responses");
                    mon::Distinct(x.Str());
                    mon::Sample(x.Str());
                }
            } else {
                MON_EXPECT(y.Errors, "invented-answer", x.Str());
                mon::Count("errors-returned");
                if (!x.Raw && (x.Answer == SILENT || x.Answer == LATE)) {
                    MON_EXPECT(y.Code == WBMQTT::E_RPC_REQUEST_TIMEOUT, "not-a-timeout-error", x.Str());
                }
            }
        };

        w.Svc->RunFor(milliseconds(r.Range(0, 1500)));
        int steps = r.Range(3, 10);
        for (int i = 0; i < steps; ++i) {
            faultsNow = portFaults && r.Chance(50);
            int n = r.Range(1, 4);
            size_t first = all.size();
            for (int k = 0; k < n; ++k) {
                make();
            }
            auto from = first;
            for (int k = 0; k < n; ++k) {
                auto call = [&, idx = from + k] {
                    auto& x = all[idx];
                    x.Reply = std::make_shared<rpcenv::TReply>();
                    x.Reply->Called = Now();
                    x.Reply = rpc.Call("port", "Load", x.Request);
                };
                if (r.Chance(50)) {
                    call();
                } else {
                    sim::At(Now() + milliseconds(r.Below(400)), call);
                }
            }
            w.Svc->RunFor(1s);
            auto limit = Now() + 40s;
            for (auto k = first; k < all.size(); ++k) {
                while ((!all[k].Reply || !all[k].Reply->Count()) && Now() < limit) {
                    w.Svc->Cycle();
                }
            }
            faultsNow = false;
            w.Svc->RunFor(milliseconds(r.Range(50, 1500)));
            for (auto k = first; k < all.size(); ++k) {
                judge(all[k]);
                all[k].Valid = false; // a frame of it may not appear again
            }
            w.Mutate(r.Below(4));
        }
        mon::Count("histories");
    }
    MON_CHECK("R02", Case);
}
