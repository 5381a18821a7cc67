// M06: events of fast Modbus
#include "modbus_ext_common.h"
#include "modbus_base.h"
#include "serial_exc.h"
#include "msys.h"

namespace
{
    using namespace msys;
    using namespace sim;
    using TKey = std::pair<int, int>; // type of event, id

    const int REBOOT = 15;

    struct TEvent
    {
        int Type = 0, Id = 0;
        TBytes Data;
        bool operator==(const TEvent& o) const
        {
            return Type == o.Type && Id == o.Id && Data == o.Data;
        }
        std::string Str() const
        {
            return std::to_string(Type) + ":" + std::to_string(Id) + "=" + mon::Hex(Data);
        }
    };

    void Append(TBytes& b, const TEvent& e)
    {
        b.push_back(e.Data.size());
        b.push_back(e.Type);
        b.push_back(e.Id >> 8);
        b.push_back(e.Id & 0xff);
        b.insert(b.end(), e.Data.begin(), e.Data.end());
    }

    std::string Str(const std::vector<TEvent>& l)
    {
        std::string s;
        for (auto& e: l) {
            s += " " + e.Str();
        }
        return s;
    }

    // ---------------------------------------------------------------- single exchanges
    class TScript: public TWire
    {
    public:
        std::function<void(TSimPort&, const TBytes&)> F;
        void OnWrite(TSimPort& p, const TBytes& d) override
        {
            F(p, d);
        }
    };

    struct TRequest
    {
        bool Good = false;
        int Slave = 0, Tid = 0;
        TBytes Pdu;
    };

    TRequest Unwrap(const TBytes& b, bool tcp)
    {
        TRequest q;
        if (tcp) {
            if (b.size() < 8 || b[2] || b[3] || 256 * b[4] + b[5] + 6 != int(b.size())) {
                return q;
            }
            q.Slave = b[6];
            q.Tid = 256 * b[0] + b[1];
            q.Pdu.assign(b.begin() + 7, b.end());
        } else {
            if (b.size() < 4 || Crc16(b.data(), b.size() - 2) != b[b.size() - 2] + 256 * b[b.size() - 1]) {
                return q;
            }
            q.Slave = b[0];
            q.Pdu.assign(b.begin() + 1, b.end() - 2);
        }
        q.Good = true;
        return q;
    }

    TBytes Wrap(const TRequest& q, int slave, const TBytes& pdu, bool tcp)
    {
        return tcp ? TcpFrame(q.Tid, slave, pdu) : RtuFrame(slave, pdu);
    }

    struct TCollector: ModbusExt::IEventsVisitor
    {
        std::vector<TEvent> Got;
        std::vector<int> Slaves;
        void Event(uint8_t slave, uint8_t type, uint16_t id, const uint8_t* data, size_t size) override
        {
            TEvent e;
            e.Type = type;
            e.Id = id;
            e.Data.assign(data, data + size);
            Got.push_back(e);
            Slaves.push_back(slave);
        }
    };

    std::unique_ptr<Modbus::IModbusTraits> Traits(bool tcp, bool arbitration)
    {
        if (tcp) {
            return std::make_unique<Modbus::TModbusTCPTraits>();
        }
        if (arbitration) {
            return std::make_unique<ModbusExt::TModbusRTUWithArbitrationTraits>();
        }
        return std::make_unique<Modbus::TModbusRTUTraits>();
    }

    // The exception must be one of those the callers expect
    std::string Guarded(const std::function<void()>& f)
    {
        try {
            f();
            return "";
        } catch (const Modbus::TErrorBase& e) {
            return std::string("modbus: ") + e.what();
        } catch (const TSerialDeviceException& e) {
            return std::string("device: ") + e.what();
        } catch (const std::exception& e) {
            mon::Violation("exception", e.what());
            return e.what();
        }
    }

    void ReadOne(Rng& r)
    {
        sim::Reset();
        bool tcp = r.Chance(30);
        auto wire = std::make_shared<TScript>();
        TSimPort port("sim", r.Of({9600, 19200, 115200}));
        port.Wire = wire;
        port.Opened = true;
        auto traits = Traits(tcp, true);
        ModbusExt::TEventConfirmationState state;
        int confirmSlave = 0, confirmFlag = 0;
        for (int k = 0; k < 8; ++k) {
            std::vector<TEvent> events;
            TBytes data;
            for (int n = r.Of({0, 1, 1, 2, 5, 40}); n > 0; --n) {
                TEvent e;
                e.Type = r.Of({1, 2, 3, 4, 15, 0, 200, 255});
                e.Id = r.Of<int>({0, 1, 255, 256, 65535, int(r.Below(65536))});
                e.Data = r.Bytes(r.Of({0, 1, 2, 2, 4, 8, 9, 40}));
                if (data.size() + 4 + e.Data.size() > 240) {
                    break;
                }
                events.push_back(e);
                Append(data, e);
            }
            int slave = r.Range(1, 254), flag = r.Byte();
            int start = r.Byte();
            int limit = r.Of({-5, 0, 1, 5, 20, 100, 1000});
            int kind = r.Below(11);
            bool expectEvents = false, expectNone = false, strict = true;
            wire->F = [&](TSimPort& p, const TBytes& b) {
                auto q = Unwrap(b, tcp);
                MON_EXPECT(q.Good && q.Slave == 0xfd && q.Pdu.size() == 6 && q.Pdu[0] == 0x46 && q.Pdu[1] == 0x10 && q.Pdu[2] == start &&
                               q.Pdu[3] >= 6 && q.Pdu[3] <= 248 && q.Pdu[4] == confirmSlave && q.Pdu[5] == confirmFlag,
                           "event-request", mon::Hex(b) << " confirming " << confirmSlave << " " << confirmFlag << " from " << start);
                if (q.Pdu.size() < 6) {
                    return;
                }
                TBytes pdu{0x46, 0x11, uint8_t(flag), uint8_t(events.size()), uint8_t(data.size())};
                pdu.insert(pdu.end(), data.begin(), data.end());
                TBytes f;
                switch (kind) {
                    case 0: // nothing
                        return;
                    case 1:
                        pdu = {0x46, 0x12};
                        f = Wrap(q, r.Of({0xfd, slave}), pdu, tcp);
                        expectNone = true;
                        break;
                    case 2: // sizes of events that do not fit
                        if (data.empty()) {
                            data = {0, 3, 0, 1};
                            pdu[4] = 4;
                            pdu.insert(pdu.end(), data.begin(), data.end());
                        }
                        {
                            size_t at = 5;
                            while (r.Chance(50) && at + 4 + pdu[at] < pdu.size()) {
                                at += 4 + pdu[at];
                            }
                            pdu[at] += r.Range(1, 255);
                        }
                        f = Wrap(q, slave, pdu, tcp);
                        strict = false;
                        break;
                    case 3: // the size of all data does not match
                        pdu[4] += r.Range(1, 255);
                        f = Wrap(q, slave, pdu, tcp);
                        break;
                    case 4:
                        pdu.resize(r.Below(pdu.size() + 1));
                        f = Wrap(q, slave, pdu, tcp);
                        if (pdu.size() == 5 + data.size()) {
                            expectEvents = true;
                        }
                        break;
                    case 5:
                        f = Wrap(q, slave, pdu, tcp);
                        f.resize(r.Below(f.size()));
                        break;
                    case 6:
                        f = Wrap(q, slave, pdu, tcp);
                        if (tcp) {
                            f[r.Of({0, 1, 4, 5})] ^= 1 << r.Below(8);
                        } else {
                            f[r.Below(f.size())] ^= 1 << r.Below(8);
                        }
                        break;
                    case 7:
                        pdu[1] = r.Of({0, 3, 4, 8, 9, 0x10, 0x13, 0x18, 0x91});
                        f = Wrap(q, slave, pdu, tcp);
                        break;
                    case 8:
                        f = r.Bytes(r.Of({1, 2, 5, 100, 288, 600}));
                        break;
                    default:
                        f = Wrap(q, slave, pdu, tcp);
                        expectEvents = true;
                }
                if (!tcp && r.Chance(50) && kind != 5) {
                    f.insert(f.begin(), r.Below(33), 0xff);
                }
                p.Push(f, milliseconds(r.Below(8)), tcp);
            };
            TCollector got;
            bool more = false;
            auto err = Guarded([&] { more = ModbusExt::ReadEvents(port, *traits, milliseconds(limit), start, state, got); });
            mon::Count("exchanges");
            auto what = [&] {
                return std::string(tcp ? "tcp" : "rtu") + " kind " + std::to_string(kind) + " sent" + Str(events) + " got" + Str(got.Got) + " error " + err;
            };
            if (expectEvents) {
                MON_EXPECT(err.empty() && more && got.Got == events, "events-read", what());
                for (auto s: got.Slaves) {
                    MON_EXPECT(s == slave, "event-slave", s << " instead of " << slave);
                }
                confirmSlave = slave;
                confirmFlag = flag;
                MON_EXPECT(state.SlaveId == slave && state.Flag == flag, "confirmation", int(state.SlaveId) << " " << int(state.Flag) << " instead of " << slave << " " << flag);
                mon::Count("events-read", events.size());
            } else if (expectNone) {
                MON_EXPECT(err.empty() && !more && got.Got.empty(), "no-events", what());
                mon::Count("no-events");
            } else if (strict) {
                MON_EXPECT(!err.empty() && got.Got.empty(), "damaged-accepted", what());
                mon::Count("damaged-refused");
            } else {
                // a sound prefix may be reported
                MON_EXPECT(got.Got.size() <= 240, "damaged-accepted", what());
                size_t at = 0;
                (void)at;
                mon::Count("damaged-inside");
            }
            if (!strict || !expectEvents && !expectNone) {
                // what is confirmed after a bad frame is up to the implementation for a well framed one
                confirmSlave = state.SlaveId;
                confirmFlag = state.Flag;
            }
            mon::Distinct(what());
            port.DropRx();
            sim::Advance(50ms);
        }
    }

    void EnableOne(Rng& r)
    {
        sim::Reset();
        bool tcp = r.Chance(30);
        auto wire = std::make_shared<TScript>();
        TSimPort port("sim", r.Of({9600, 19200, 115200}));
        port.Wire = wire;
        port.Opened = true;
        auto traits = Traits(tcp, false);
        int slave = r.Range(1, 247);
        bool holes = r.Chance(60);
        std::map<TKey, int> want;
        std::map<TKey, int> got, bits, seen;
        std::map<TKey, int> seenTimes;
        bool hostile = r.Chance(50), damaged = false;
        ModbusExt::TEventsEnabler enabler(
            slave, port, *traits,
            [&](uint8_t type, uint16_t addr, bool on) {
                seen[{type, addr}] = on;
                ++seenTimes[{type, addr}];
            },
            holes ? ModbusExt::TEventsEnabler::DISABLE_EVENTS_IN_HOLES : ModbusExt::TEventsEnabler::NO_HOLES);
        int clusters = r.Of({1, 2, 5, 30});
        for (int c = 0; c < clusters; ++c) {
            int type = r.Range(1, 4), addr = r.Below(65500);
            for (int n = r.Of({1, 2, 8, 40}); n > 0 && addr < 65536; --n) {
                int prio = r.Below(3);
                if (!want.count({type, addr})) {
                    want[{type, addr}] = prio;
                    enabler.AddRegister(addr, ModbusExt::TEventType(type), ModbusExt::TEventPriority(prio));
                    if (r.Chance(10)) {
                        enabler.AddRegister(addr, ModbusExt::TEventType(type), ModbusExt::TEventPriority(prio));
                    }
                }
                addr += r.Of({1, 1, 1, 2, 3, 5, 6, 9});
            }
        }
        if (r.Chance(70)) {
            want[{REBOOT, 0}] = 0;
            enabler.AddRegister(0, ModbusExt::TEventType::REBOOT, ModbusExt::TEventPriority::DISABLE);
        }
        int requests = 0;
        std::string log;
        wire->F = [&](TSimPort& p, const TBytes& b) {
            ++requests;
            auto q = Unwrap(b, tcp);
            auto& d = q.Pdu;
            bool ok = q.Good && q.Slave == slave && d.size() >= 3 && d.size() <= 253 && d[0] == 0x46 && d[1] == 0x18 && size_t(3 + d[2]) == d.size();
            MON_EXPECT(ok, "enable-request", mon::Hex(b));
            if (!ok) {
                return;
            }
            TBytes answer{0x46, 0x18, 0};
            std::vector<std::pair<TKey, int>> order;
            for (size_t i = 3; i < d.size();) {
                if (i + 4 > d.size() || i + 4 + d[i + 3] > d.size()) {
                    mon::Violation("enable-request-records", mon::Hex(b));
                    return;
                }
                int type = d[i], addr = 256 * d[i + 1] + d[i + 2], n = d[i + 3];
                TBytes m((n + 7) / 8);
                for (int k = 0; k < n; ++k) {
                    int prio = d[i + 4 + k];
                    TKey key{type, addr + k};
                    MON_EXPECT(!got.count(key), "enabled-twice", type << ":" << addr + k);
                    got[key] = prio;
                    auto w = want.find(key);
                    if (w == want.end()) {
                        MON_EXPECT(holes && prio == 0, "enable-foreign", type << ":" << addr + k << " priority " << prio);
                        mon::Count("holes");
                    } else {
                        MON_EXPECT(w->second == prio, "enable-priority", type << ":" << addr + k << " priority " << prio << " instead of " << w->second);
                    }
                    bool on = prio && r.Chance(80);
                    bits[key] = on;
                    m[k / 8] |= on << (k % 8);
                }
                answer.insert(answer.end(), m.begin(), m.end());
                i += 4 + n;
            }
            answer[2] = answer.size() - 3;
            int kind = hostile ? r.Below(9) : 20;
            damaged = damaged || kind < 9;
            TBytes f;
            switch (kind) {
                case 0:
                    return;
                case 1:
                    f = Wrap(q, slave, {uint8_t(0xc6), uint8_t(r.Range(1, 11))}, tcp);
                    break;
                case 2: // fewer bytes than the size says
                    answer.resize(r.Range(0, answer.size() - 1));
                    f = Wrap(q, slave, answer, tcp);
                    break;
                case 3: // size says less or more
                    answer[2] = r.Byte();
                    f = Wrap(q, slave, answer, tcp);
                    break;
                case 4:
                    f = Wrap(q, slave, {0x46, 0x18, uint8_t(r.Byte())}, tcp);
                    break;
                case 5:
                    answer[1] = r.Byte();
                    f = Wrap(q, slave, answer, tcp);
                    break;
                case 6:
                    f = r.Bytes(r.Of({1, 3, 8, 300}));
                    break;
                case 7:
                    answer.insert(answer.end(), r.Range(1, 20), 0xff);
                    f = Wrap(q, slave, answer, tcp);
                    break;
                case 8:
                    f = Wrap(q, slave, answer, tcp);
                    f.resize(r.Below(f.size()));
                    break;
                default:
                    f = Wrap(q, slave, answer, tcp);
            }
            p.Push(f, milliseconds(r.Below(6)), tcp);
        };
        auto err = Guarded([&] { enabler.SendRequests(); });
        mon::Count("enablings");
        if (!damaged) {
            MON_EXPECT(err.empty(), "enable-failed", err);
            for (auto& w: want) {
                MON_EXPECT(got.count(w.first), "not-enabled", w.first.first << ":" << w.first.second << " priority " << w.second);
                MON_EXPECT(seen.count(w.first) && seen[w.first] == bits[w.first] && seenTimes[w.first] == 1, "enable-result",
                           w.first.first << ":" << w.first.second << " reported " << (seen.count(w.first) ? seen[w.first] : -1) << " instead of " << bits[w.first] << " times " << seenTimes[w.first]);
            }
            mon::Count("registers-enabled", want.size());
        } else {
            mon::Count("enablings-damaged");
            for (auto& s: seen) {
                MON_EXPECT(got.count(s.first), "result-not-asked", s.first.first << ":" << s.first.second);
            }
        }
        mon::Max("enable-requests", requests);
        mon::Distinct(std::to_string(want.size()) + " " + std::to_string(requests) + err);
    }

    // ---------------------------------------------------------------- the whole program
    struct TFast
    {
        int Slave = 0, Di = -1;
        bool Supports = true;
        std::set<TKey> Refused;
        std::map<TKey, int> Enabled;
        std::map<TKey, TBytes> Known; // contents the master got with events or had at the moment of enabling
        bool Reboot = false;
        bool RebootItem = false; // the event of a restart was acknowledged by the enabling
        bool Lost = false; // an answer to the enabling request was lost: the device is polled as if it has no events
        std::vector<TEvent> Sent; // wait for confirmation
        std::map<TKey, std::vector<uint16_t>> SentWords;
        int Flag = 0;
        uint64_t Enablings = 0, Reboots = 0, RebootsSeen = 0, EnablingsAtReboot = 0;
        std::set<TKey> Accepted; // the master knows they are enabled
        std::set<TKey> Told; // unwanted events the master has got
    };

    void System(Rng& r)
    {
        sim::Reset();
        TWorld w(r);
        TProfile p;
        p.MaxDevs = 3;
        p.MaxClusters = 3;
        p.MaxPerCluster = 6;
        p.Overlap = p.WriteAddr = false;
        p.OnOff = r.Chance(50);
        p.ReadPeriods = r.Of({0, 20});
        w.Baud = r.Of({9600, 19200, 57600, 115200});
        int variant = r.Below(10); // 0: plain gateway, 1-2: gateway with fast Modbus
        w.Tcp = variant < 3;
        w.Mge = variant == 1 || variant == 2;
        bool fastPort = !w.Tcp || w.Mge;
        w.PortExtra["connected_to_mge"] = w.Mge;
        if (!w.Tcp) {
            w.PortExtra.removeMember("connected_to_mge");
        }
        w.PortExtra["connection_timeout_ms"] = -1;
        w.MakeDevs(p);
        std::map<int, TFast> fast;
        std::map<std::pair<int, TKey>, std::vector<std::pair<int, int>>> byEvent; // slave and event to (device, channel)
        std::set<const TPart*> only; // polled no more
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            auto& d = w.Devs[di];
            d.MinRead = -1;
            bool all = r.Chance(15);
            std::vector<TChan> more;
            std::set<std::string> bitAddr;
            for (auto& c: d.Chans) {
                if (c.Parts.size() != 1) {
                    continue;
                }
                auto& x = c.Parts[0];
                if (!all && r.Chance(40)) {
                    continue;
                }
                auto fb = x.Spec.FormatBits();
                bool string = !x.IsBit() && x.Spec.IsString();
                if (!x.IsBit() && !string && (x.Spec.ByteLE || x.Words() > 1 && (x.Spec.WordLE || x.Spec.BitOffset || x.Spec.BitWidth || fb == 24))) {
                    continue; // contents of such events are not specified
                }
                c.Extra[r.Chance(65) ? "sporadic" : "semi-sporadic"] = true;
                if (!x.IsBit() && !string && x.Words() == 1 && fb == 16 && x.Spec.BitWidth == 0 && x.RegType.find("_") == std::string::npos && r.Chance(25) && !c.ErrorRaw &&
                    x.Spec.Format == U16 && !c.OnOff() && x.Spec.Scale == 1 && x.Spec.Offset == 0 && x.Spec.Round == 0)
                {
                    TChan b = c;
                    b.Name += "b";
                    b.Parts[0].Spec.BitOffset = r.Range(1, 15);
                    b.Parts[0].Spec.BitWidth = r.Range(1, 16 - b.Parts[0].Spec.BitOffset);
                    b.ReadOnly = true;
                    more.push_back(b);
                    for (int k = 0; k < 2 && r.Chance(60); ++k) {
                        b.Name += "b";
                        b.Parts[0].Spec.BitOffset = r.Range(1, 15);
                        b.Parts[0].Spec.BitWidth = r.Range(1, 16 - b.Parts[0].Spec.BitOffset);
                        more.push_back(b);
                    }
                }
            }
            d.Chans.insert(d.Chans.end(), more.begin(), more.end());
            auto& f = fast[d.Slave];
            f.Slave = d.Slave;
            f.Di = di;
            f.Supports = r.Chance(85);
        }
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            auto& d = w.Devs[di];
            for (size_t ci = 0; ci < d.Chans.size(); ++ci) {
                auto& c = d.Chans[ci];
                if (c.Extra.isMember("sporadic") || c.Extra.isMember("semi-sporadic")) {
                    TKey k{int(c.Parts[0].Type), int(c.Parts[0].Addr)};
                    byEvent[{d.Slave, k}].push_back({di, ci});
                    if (r.Chance(8)) {
                        fast[d.Slave].Refused.insert(k);
                    }
                }
            }
        }
        w.FillMemory();
        // remains of an earlier master
        for (auto& f: fast) {
            for (int k = r.Of({0, 0, 1, 3}); k > 0; --k) {
                TKey key{int(r.Range(1, 4)), int(r.Of<int>({int(r.Below(100)), int(60000 + r.Below(500))}))};
                if (!byEvent.count({f.first, key})) {
                    f.second.Enabled[key] = 1;
                }
            }
        }
        int stranger = 0;
        if (r.Chance(20)) {
            do {
                stranger = r.Range(1, 247);
            } while (fast.count(stranger));
            auto& f = fast[stranger];
            f.Slave = stranger;
            f.Enabled[{3, int(r.Below(1000))}] = 1;
            f.Reboot = r.Chance(50);
        }
        bool quiet = false;
        int faults = r.Of({0, 0, 3, 10, 30});
        bool silenceAll = false;
        int confirmSlave = 0, confirmFlag = 0;
        bool confirmKnown = true;
        uint64_t eventRequests = 0;
        TTime lastEventRequest = sim::Now();
        int64_t maxGap = 0;
        std::map<const TPart*, uint64_t> pub;
        auto slaveOf = [&](int s) -> PModbusSlave {
            auto it = w.Slaves.find(s);
            return it == w.Slaves.end() ? nullptr : it->second;
        };
        std::map<std::pair<int, TKey>, TBytes> foreign; // contents of registers out of the model
        auto contents = [&](const TFast& f, const TKey& k, std::vector<uint16_t>* words = nullptr) {
            TBytes b;
            auto it = byEvent.find({f.Slave, k});
            if (it == byEvent.end()) {
                b = foreign[{f.Slave, k}];
                b.resize(2);
                return b;
            }
            auto s = slaveOf(f.Slave);
            unsigned n = 1;
            bool bit = false, string = false;
            for (auto& [di, ci]: it->second) {
                auto& x = w.Devs[di].Chans[ci].Parts[0];
                n = std::max(n, x.Words());
                bit = x.IsBit();
                string = string || !bit && x.Spec.IsString();
            }
            for (unsigned i = 0; i < n; ++i) {
                auto v = s->Get(EType(k.first), k.second + i);
                if (words) {
                    words->push_back(v);
                }
                if (bit) {
                    b.push_back(v);
                } else if (string) {
                    b.push_back(v >> 8);
                    b.push_back(v & 0xff);
                } else {
                    b.insert(b.begin(), v >> 8);
                    b.insert(b.begin(), v & 0xff);
                }
            }
            if (string) {
                b.resize(std::min<size_t>(b.size(), k.second % 3 ? 8 : 40));
            }
            return b;
        };
        // Registers with events lie inside of ranges read for others: such readings are not for them, so the value
        // published before may be published again until an event or a restart
        std::map<std::string, std::string> again;
        // Every event is published, with the same value too
        std::map<std::string, TTime> awaited;
        auto judgeAwaited = [&] {
            for (auto it = awaited.begin(); it != awaited.end();) {
                if (Now() - it->second > 2s) {
                    mon::Violation("event-not-published", it->first + ": " + std::to_string((Now() - it->second) / 1ms) + " ms ago");
                    it = awaited.erase(it);
                } else {
                    ++it;
                }
            }
        };
        w.OnPub = [&](const std::string& dev, const std::string& ctl, bool error, const std::string& text) {
            if (!error && !ctl.empty()) {
                awaited.erase(dev + "/" + ctl);
                auto* c = w.FindChan(dev, ctl);
                bool sp = c && c->Extra.isMember("sporadic");
                auto it = again.find(dev + "/" + ctl);
                if (sp && it != again.end() && it->second == text) {
                    mon::Count("published-again");
                    return;
                }
                w.CheckPublished(dev, ctl, text, "value");
                if (sp) {
                    again[dev + "/" + ctl] = text;
                }
            }
        };
        w.Start();
        std::vector<bool> polled; // devices with something to be polled besides events
        for (auto& d: w.Devs) {
            polled.push_back(std::any_of(d.Chans.begin(), d.Chans.end(), [](const TChan& c) {
                return !c.Extra.isMember("sporadic") && !c.Extra.isMember("semi-sporadic");
            }));
        }
        auto deliver = [&](TFast& f) { // the master gets the events
            for (auto& e: f.Sent) {
                TKey k{e.Type, e.Id};
                mon::Count("events");
                if (e.Type == REBOOT) {
                    ++f.RebootsSeen;
                    f.EnablingsAtReboot = f.Enablings;
                    mon::Count("reboot-events");
                    continue;
                }
                auto it = byEvent.find({f.Slave, k});
                if (it == byEvent.end()) {
                    f.Told.insert(k);
                    mon::Count("unwanted-events");
                    continue;
                }
                for (auto& [di, ci]: it->second) {
                    auto& x = w.Devs[di].Chans[ci].Parts[0];
                    if (x.IsBit() || !x.Spec.IsString()) {
                        again.erase(w.Devs[di].Id + "/" + w.Devs[di].Chans[ci].Name);
                    }
                    TSnap n;
                    n.At = Now();
                    n.Words = f.SentWords[k];
                    if (x.IsBit()) {
                        n.Value.Text = n.Words[0] ? "1" : "0";
                    } else if (x.Spec.IsString()) {
                        mon::Count("string-events");
                        continue;
                    } else {
                        n.Words.resize(x.Words());
                        n.Value = codec::Decode(x.Spec, n.Words);
                    }
                    if (w.Devs[di].Chans[ci].Extra.isMember("sporadic") && f.Accepted.count(k) && polled[di] && w.Svc->Rec->DeviceError(w.Devs[di].Id).empty()) {
                        mon::Count("events-awaited");
                        awaited[w.Devs[di].Id + "/" + w.Devs[di].Chans[ci].Name] = Now();
                    }
                    auto& dq = w.Snaps[&x];
                    dq.push_back(n);
                    if (dq.size() > 10) {
                        dq.pop_front();
                    }
                    mon::Count("value-events");
                }
            }
        };
        w.Bus->OnOther = [&](TSimPort& sp, const TBytes& b) {
            auto q = Unwrap(b, w.Tcp);
            if (!q.Good || q.Pdu.size() < 2 || q.Pdu[0] != 0x46) {
                return false;
            }
            MON_EXPECT(fastPort, "fast-modbus-through-plain-gateway", mon::Hex(b));
            auto delay = [&] { return milliseconds(r.Below(8)); };
            int fate = 0; // 1: not heard, 2: answer is lost, 3: damaged
            if (silenceAll) {
                fate = 1;
            } else if (!quiet && r.Chance(faults)) {
                fate = r.Range(1, 3);
            }
            auto send = [&](int slave, const TBytes& pdu) {
                auto f = Wrap(q, slave, pdu, w.Tcp);
                if (fate == 2) {
                    return false;
                }
                if (fate == 3) {
                    if (w.Tcp) {
                        f[r.Of({0, 1})] ^= 1 << r.Below(8);
                    } else if (r.Chance(50)) {
                        f[r.Below(f.size())] ^= 1 << r.Below(8);
                    } else {
                        f.resize(r.Range(1, f.size() - 1));
                    }
                    mon::Count("damaged");
                }
                if (!w.Tcp && r.Chance(60) && q.Pdu[1] == 0x10) {
                    f.insert(f.begin(), r.Below(9), 0xff);
                }
                sp.Push(f, delay(), w.Tcp);
                return fate != 3;
            };
            if (q.Slave == 0xfd && q.Pdu[1] == 0x10) {
                if (q.Pdu.size() != 6) {
                    mon::Violation("event-request", mon::Hex(b));
                    return true;
                }
                int start = q.Pdu[2], limit = q.Pdu[3], cs = q.Pdu[4], cf = q.Pdu[5];
                mon::Count("event-requests");
                ++eventRequests;
                if (quiet) {
                    maxGap = std::max<int64_t>(maxGap, std::chrono::duration_cast<milliseconds>(Now() - lastEventRequest).count());
                }
                lastEventRequest = Now();
                if (confirmKnown) {
                    MON_EXPECT(cs == confirmSlave && cf == confirmFlag, "confirmation",
                               "request confirms " << cs << "/" << cf << ", the last events were " << confirmSlave << "/" << confirmFlag);
                }
                if (fate == 1) {
                    return true;
                }
                auto it = fast.find(cs);
                if (it != fast.end() && !it->second.Sent.empty() && it->second.Flag == cf) {
                    auto& f = it->second;
                    for (auto& e: f.Sent) {
                        if (e.Type == REBOOT) {
                            f.Reboot = false;
                        } else {
                            f.Known[{e.Type, e.Id}] = e.Data;
                        }
                    }
                    f.Sent.clear();
                    mon::Count("confirmed");
                }
                bool any = false;
                for (auto& [s, f]: fast) {
                    if (!f.Supports) {
                        continue;
                    }
                    any = true;
                    if (s < start) {
                        continue;
                    }
                    if (f.Sent.empty()) {
                        size_t size = 0;
                        f.SentWords.clear();
                        auto put = [&](const TEvent& e) {
                            if (!f.Sent.empty() && size + 4 + e.Data.size() > size_t(limit) || size + 4 + e.Data.size() > 240) {
                                return false;
                            }
                            size += 4 + e.Data.size();
                            f.Sent.push_back(e);
                            return true;
                        };
                        if (f.Reboot) {
                            TEvent e;
                            e.Type = REBOOT;
                            put(e);
                        }
                        for (auto& [k, prio]: f.Enabled) {
                            std::vector<uint16_t> words;
                            auto data = contents(f, k, &words);
                            auto known = f.Known.find(k);
                            if (known == f.Known.end()) {
                                f.Known[k] = data;
                                continue;
                            }
                            if (known->second == data) {
                                continue;
                            }
                            TEvent e;
                            e.Type = k.first;
                            e.Id = k.second;
                            e.Data = data;
                            if (!put(e)) {
                                break;
                            }
                            f.SentWords[k] = words;
                        }
                        if (f.Sent.empty()) {
                            continue;
                        }
                        f.Flag = (f.Flag + 1) & 0xff;
                    } else {
                        mon::Count("sent-again");
                    }
                    TBytes pdu{0x46, 0x11, uint8_t(f.Flag), uint8_t(f.Sent.size()), 0};
                    for (auto& e: f.Sent) {
                        Append(pdu, e);
                    }
                    pdu[4] = pdu.size() - 5;
                    if (send(s, pdu)) {
                        deliver(f);
                        confirmSlave = s;
                        confirmFlag = f.Flag;
                    }
                    return true;
                }
                if (any && send(0xfd, {0x46, 0x12})) {
                    confirmSlave = confirmFlag = 0;
                }
                return true;
            }
            auto it = fast.find(q.Slave);
            if (q.Pdu[1] != 0x18 || it == fast.end()) {
                mon::Violation("fast-modbus-request", mon::Hex(b));
                return true;
            }
            auto& f = it->second;
            mon::Count("enable-requests");
            bool enabling = false;
            for (size_t i = 3; i + 4 < q.Pdu.size(); i += 4 + q.Pdu[i + 3]) {
                for (int k = 0; k < q.Pdu[i + 3] && i + 4 + k < q.Pdu.size(); ++k) {
                    enabling = enabling || q.Pdu[i + 4 + k];
                }
            }
            if (enabling) {
                f.Lost = fate != 0;
                if (f.Lost || silenceAll || !f.Supports) {
                    f.Accepted.clear();
                }
            }
            if (fate == 1 || silenceAll) {
                return true;
            }
            if (!f.Supports) {
                send(q.Slave, {0xc6, 1});
                return true;
            }
            TBytes answer{0x46, 0x18, 0};
            std::set<TKey> now;
            auto& d = q.Pdu;
            for (size_t i = 3; i + 4 < d.size();) {
                int type = d[i], addr = 256 * d[i + 1] + d[i + 2], n = d[i + 3];
                TBytes m((n + 7) / 8);
                for (int k = 0; k < n && i + 4 + k < d.size(); ++k) {
                    TKey key{type, addr + k};
                    bool on = d[i + 4 + k] && !f.Refused.count(key);
                    if (type == REBOOT) {
                        f.RebootItem = f.RebootItem || !on;
                        f.Reboot = f.Reboot && on;
                    } else if (on) {
                        MON_EXPECT(byEvent.count({f.Slave, key}), "enable-foreign", "slave " << f.Slave << " " << type << ":" << addr + k);
                        f.Enabled[key] = d[i + 4 + k];
                        now.insert(key);
                        std::set<bool> high;
                        for (auto& [di, ci]: byEvent[{f.Slave, key}]) {
                            high.insert(w.Devs[di].Chans[ci].ReadPeriodMs > 0);
                        }
                        if (high.size() == 1) {
                            mon::Count(*high.begin() ? "urgent-events-enabled" : "plain-events-enabled");
                            MON_EXPECT(d[i + 4 + k] == (*high.begin() ? 2 : 1), "event-priority", "slave " << f.Slave << " " << type << ":" << addr + k << " priority " << int(d[i + 4 + k]));
                        }
                        f.Known[key] = contents(f, key);
                    } else {
                        f.Enabled.erase(key);
                        f.Told.erase(key);
                    }
                    m[k / 8] |= on << (k % 8);
                }
                answer.insert(answer.end(), m.begin(), m.end());
                i += 4 + n;
            }
            answer[2] = answer.size() - 3;
            if (send(q.Slave, answer)) {
                ++f.Enablings;
                if (enabling) {
                    f.Accepted.insert(now.begin(), now.end());
                }
            }
            return true;
        };
        for (auto& s: w.Slaves) {
            s.second->Fault = [&](const TModbusRequest&) {
                TAnswer a;
                a.Delay = milliseconds(r.Below(8));
                if (silenceAll || !quiet && r.Chance(faults / 3)) {
                    a.Kind = TAnswer::SILENCE;
                }
                return a;
            };
        }
        bool stop = false;
        std::function<void()> tick = [&] {
            if (!stop) {
                w.Mutate(1 + r.Below(3));
                judgeAwaited();
                if (r.Chance(20)) {
                    // the same contents once more
                    auto& f = std::next(fast.begin(), r.Below(fast.size()))->second;
                    for (auto& k: f.Enabled) {
                        if (byEvent.count({f.Slave, k.first}) && r.Chance(50)) {
                            f.Known[k.first] = {};
                            mon::Count("repeated-events");
                        }
                    }
                }
                if (r.Chance(20)) {
                    auto& f = std::next(fast.begin(), r.Below(fast.size()))->second;
                    for (auto& k: f.Enabled) {
                        if (!byEvent.count({f.Slave, k.first})) {
                            foreign[{f.Slave, k.first}] = r.Bytes(2);
                        }
                    }
                }
            }
            sim::At(sim::Now() + milliseconds(r.Range(20, 900)), tick);
        };
        sim::At(sim::Now() + 100ms, tick);
        w.Svc->RunFor(milliseconds(r.Range(100, 4000)));
        int steps = r.Range(2, 5);
        bool restarted = false;
        for (int k = 0; k < steps; ++k) {
            auto what = r.Below(4);
            if (what == 0) {
                // a restart
                auto& f = std::next(fast.begin(), r.Below(fast.size()))->second;
                if (f.Di >= 0) {
                    restarted = true;
                    f.Enabled.clear();
                    f.Known.clear();
                    f.Sent.clear();
                    f.Accepted.clear();
                    f.Reboot = true;
                    ++f.Reboots;
                    for (auto& c: w.Devs[f.Di].Chans) {
                        again.erase(w.Devs[f.Di].Id + "/" + c.Name);
                        for (auto& x: c.Parts) {
                            for (unsigned i = 0; i < x.Words(); ++i) {
                                w.Slaves[f.Slave]->Set(x.Type, x.Addr + i, w.RandomWord(x));
                            }
                        }
                    }
                    mon::Count("restarts");
                }
            } else if (what == 1) {
                silenceAll = r.Chance(40);
            } else if (what == 2) {
                silenceAll = false;
                faults = r.Of({0, 5, 50});
            }
            w.Svc->RunFor(milliseconds(r.Range(500, 9000)));
        }
        quiet = true;
        silenceAll = false;
        for (auto& f: fast) {
            f.second.Told.clear(); // a lost request to disable an event is repeated after the next such event only
        }
        w.Port->DropRx();
        w.Svc->RunFor(40s);
        // the last changes
        stop = true;
        for (auto& [s, f]: fast) {
            for (auto& k: f.Enabled) {
                if (!byEvent.count({s, k.first}) && r.Chance(50)) {
                    auto& v = foreign[{s, k.first}];
                    v.resize(2);
                    v[0] ^= 1;
                }
            }
        }
        lastEventRequest = sim::Now();
        maxGap = 0;
        auto reads = w.ReadsDelivered;
        w.Svc->RunFor(15s);
        bool enabledSomewhere = false;
        for (auto& [s, f]: fast) {
            if (f.Di < 0) {
                continue;
            }
            auto& d = w.Devs[f.Di];
            auto why = [&] { return " slave " + std::to_string(f.Slave) + " " + Describe(d); };
            bool lostEnabling = restarted; // the program knows of a restart from its event only, which needs requests for events
            if (fastPort && f.Supports && !w.Svc->Rec->DeviceError(d.Id).empty() == false) {
                for (auto& [key, list]: byEvent) {
                    if (key.first != s) {
                        continue;
                    }
                    bool on = f.Enabled.count(key.second);
                    enabledSomewhere = enabledSomewhere || on && !f.Lost;
                    if (!f.Refused.count(key.second) && !f.Reboot && !f.Lost) {
                        MON_EXPECT(on, "events-not-enabled", key.second.first << ":" << key.second.second << why());
                        mon::Count("enabled-checked");
                    }
                }
                MON_EXPECT(!f.Reboot || !enabledSomewhere || lostEnabling, "restart-not-noticed", why());
                if (f.Enablings && !f.Lost && std::any_of(f.Enabled.begin(), f.Enabled.end(), [&](auto& k) { return byEvent.count({s, k.first}); })) {
                    mon::Count("restart-events-judged");
                    MON_EXPECT(f.RebootItem, "restart-event-not-set", why());
                }
                if (f.RebootsSeen && !f.Reboot) {
                    mon::Count("restarts-handled");
                }
                for (auto& k: f.Told) {
                    MON_EXPECT(!f.Enabled.count(k), "unwanted-event-not-disabled", k.first << ":" << k.second << why());
                }
            }
        }
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            auto& d = w.Devs[di];
            auto& f = fast[d.Slave];
            auto why = [&] {
                return Describe(d) + (w.Tcp ? " tcp" : " rtu") + (fastPort ? " fast" : "") + (f.Supports ? " supports" : "") + " reboots " + std::to_string(f.Reboots) + "/" + std::to_string(f.RebootsSeen);
            };
            auto de = w.Svc->Rec->DeviceError(d.Id);
            MON_EXPECT(de.empty(), "not-healed:device", d.Id << " has error " << de << ": " << why());
            size_t sporadicOnly = 0;
            for (auto& c: d.Chans) {
                sporadicOnly += c.Extra.isMember("sporadic");
            }
            for (auto& c: d.Chans) {
                auto& x = c.Parts[0];
                bool sp = c.Extra.isMember("sporadic") || c.Extra.isMember("semi-sporadic");
                if (f.Reboot && f.Supports && sp) {
                    continue; // the program does not know of the restart yet
                }
                auto e = w.Svc->Rec->Error(d.Id, c.Name);
                bool string = sp && !x.IsBit() && x.Spec.IsString();
                if (e != "p") {
                    MON_EXPECT(e.empty(), "not-healed:error", c.Name << " has error " << e << ": " << why());
                }
                auto* v = w.Svc->Rec->Value(d.Id, c.Name);
                if (!v) {
                    mon::Violation("no-value", c.Name + ": " + why());
                    continue;
                }
                std::vector<std::string> items = c.Parts.size() > 1 ? WBMQTT::StringSplit(*v, ';') : std::vector<std::string>{*v};
                for (size_t i = 0; i < c.Parts.size() && i < items.size(); ++i) {
                    auto& y = c.Parts[i];
                    auto words = w.WordsOf(di, y);
                    codec::TValue t;
                    if (y.IsBit()) {
                        t.Text = words[0] ? "1" : "0";
                    } else {
                        t = codec::Decode(y.Spec, words);
                    }
                    if (t.Text && c.Parts.size() == 1) {
                        t.Text = c.Shown(*t.Text);
                    }
                    mon::Count(sp ? "event-controls-judged" : "polled-controls-judged");
                    if (string) {
                        continue; // events do not carry texts
                    }
                    MON_EXPECT(t.Matches(items[i]), sp ? "stale:event-control" : "stale:polled-control",
                               c.Name << " shows " << mon::Quote(*v) << ", the device holds " << t.Str() << ": " << why());
                }
                if (c.Extra.isMember("sporadic") && sporadicOnly < d.Chans.size() && fastPort && f.Supports && !f.Refused.count({int(x.Type), int(x.Addr)}) && !f.Reboot && !f.Lost && d.RegHole <= 0 && d.BitHole <= 0 && !d.Continuous) {
                    bool shared = false;
                    for (auto& o: d.Chans) {
                        for (auto& y: o.Parts) {
                            shared = shared || !o.Extra.isMember("sporadic") && y.Overlaps(x.Type, x.Addr, x.Words());
                        }
                    }
                    if (!shared) {
                        mon::Count("not-polled-judged");
                        MON_EXPECT(w.ReadsDelivered[&x] - reads[&x] < 3, "polled-with-events", c.Name << " is read " << w.ReadsDelivered[&x] - reads[&x] << " times in 15 s: " << why());
                    }
                }
            }
        }
        if (enabledSomewhere) {
            maxGap = std::max<int64_t>(maxGap, std::chrono::duration_cast<milliseconds>(Now() - lastEventRequest).count());
            mon::Max("event-request-gap-ms", maxGap);
            MON_EXPECT(maxGap < 3000, "events-not-asked", maxGap << " ms");
        }
        mon::Count("histories");
        std::ostringstream o;
        o << (w.Tcp ? "tcp " : "rtu ") << w.Devs.size() << " devices, " << byEvent.size() << " events, " << eventRequests << " event requests, faults " << faults;
        mon::Sample(o.str());
        mon::Distinct(o.str() + Describe(w.Devs[0]));
    }

    void Case(Rng& r, uint64_t n)
    {
        for (int i = 0; i < 6; ++i) {
            ReadOne(r);
            EnableOne(r);
        }
        System(r);
    }
    MON_CHECK("M06", Case);
}
