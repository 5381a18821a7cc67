// S01: the last value written to a control reaches the device or is reported failed
// V02: a rejected write has no effect
#include "msys.h"

namespace
{
    using namespace msys;
    using namespace sim;

    struct TRequest
    {
        TTime At;
        uint64_t Raw;
        std::string Text;
        uint64_t Sent = 0;      // how many times it was sent
        bool Refused = false;   // the device refused it for good
    };

    // Follows the requests for every register and the write requests at the devices
    class TWrites
    {
    public:
        explicit TWrites(TWorld& w): W(w)
        {
            w.Requested.push_back([this](int di, const TModbusRequest& q) {
                if (q.IsWrite()) {
                    OnWrite(di, q);
                }
            });
        }

        struct TState
        {
            std::vector<TRequest> Reqs;
            std::map<uint64_t, size_t> Uses; // number of requests of every value
            size_t Pos = 0;
            std::set<uint64_t> Sent; // sent values
        };
        std::map<const TPart*, TState> Parts;
        std::map<int, TTime> LastGood; // last good answer by device number
        bool FaultFree = false;

        void Ask(const TPart& x, uint64_t raw, const std::string& text)
        {
            Parts[&x].Reqs.push_back({Now(), raw, text});
            ++Parts[&x].Uses[raw];
        }

        std::string History(const TPart& x)
        {
            std::ostringstream o;
            o << x.Str() << ": requested";
            auto& s = Parts[&x];
            for (size_t i = s.Reqs.size() > 8 ? s.Reqs.size() - 8 : 0; i < s.Reqs.size(); ++i) {
                o << " " << s.Reqs[i].Text << "@" << (s.Reqs[i].At - TTime{}) / 1ms << "x" << s.Reqs[i].Sent;
            }
            o << ", now " << (Now() - TTime{}) / 1ms << " ms";
            return o.str();
        }

        // Raw value the request carries for the register
        static std::optional<uint64_t> Carried(const TPart& x, const TModbusRequest& q)
        {
            auto type = q.Fn == 5 || q.Fn == 15 ? EType::COIL : EType::HOLDING;
            if (type != x.Type || x.WAddr() < q.Addr || x.WAddr() + x.Words() > q.Addr + q.Count) {
                return std::nullopt;
            }
            size_t off = x.WAddr() - q.Addr;
            if (q.Fn == 15) {
                return q.Data.at(off / 8) >> off % 8 & 1;
            }
            if (q.Fn == 5) {
                return q.Data.at(0) ? 1 : 0;
            }
            std::vector<uint16_t> words;
            for (unsigned i = 0; i < x.Words(); ++i) {
                words.push_back(q.Data.at((off + i) * 2) << 8 | q.Data.at((off + i) * 2 + 1));
            }
            return codec::RawBits(x.Spec, words);
        }

    private:
        TWorld& W;

        void OnWrite(int di, const TModbusRequest& q)
        {
            if (q.Malformed) {
                mon::Violation("malformed", q.Str());
                return;
            }
            if (q.Fn == 16 && q.Addr == 114 && W.Devs[di].Continuous) {
                return;
            }
            bool known = q.Addr == 64000 && !W.Devs[di].Setup.empty(); // the setup item
            for (auto& c: W.Devs[di].Chans) {
                for (auto& x: c.Parts) {
                    auto raw = Carried(x, q);
                    if (!raw) {
                        continue;
                    }
                    auto& s = Parts[&x];
                    uint64_t mem = x.IsBit() ? W.WordsOf(di, x, true)[0] : codec::RawBits(x.Spec, W.WordsOf(di, x, true));
                    if (c.ReadOnly) {
                        MON_EXPECT(x.Spec.BitWidth && mem == *raw, "read-only-written", q.Str() << " for " << x.Str());
                        continue;
                    }
                    bool found = false;
                    for (size_t i = s.Pos; i < s.Reqs.size() && !found; ++i) {
                        if (s.Reqs[i].Raw == *raw) {
                            s.Pos = i;
                            found = true;
                        }
                    }
                    if (x.Spec.BitWidth && x.Spec.BitWidth < x.Words() * 16 && mem == *raw) {
                        known = true;
                        if (found && s.Reqs[s.Pos].Sent == 0) {
                            ++s.Reqs[s.Pos].Sent;
                        }
                        continue; // a neighbour is written
                    }
                    bool part = x.Spec.BitWidth && x.Spec.BitWidth < x.Words() * 16;
                    if (part && !FaultFree && (s.Sent.count(*raw) || !found && s.Uses.count(*raw))) {
                        // It can be a write of a neighbour with the bits known from unconfirmed requests
                        known = true;
                        mon::Count("carried-unconfirmed");
                        continue;
                    }
                    if (!found) {
                        bool old = false;
                        for (size_t i = 0; i < s.Pos && i < s.Reqs.size(); ++i) {
                            old = old || s.Reqs[i].Raw == *raw;
                        }
                        mon::Violation(old ? "older-after-newer" : "not-requested",
                                       q.Str() + " writes raw " + std::to_string(*raw) + " to " + History(x));
                        known = true;
                        continue;
                    }
                    known = true;
                    auto& r = s.Reqs[s.Pos];
                    ++r.Sent;
                    s.Sent.insert(*raw);
                    mon::Count("sent-values");
                    size_t same = s.Uses[*raw];
                    if (same == 1 && r.Sent > 1) {
                        mon::Count("repeated-values");
                        MON_EXPECT(!FaultFree, "sent-again", q.Str() << " sent again: " << History(x));
                    }
                    if (same == 1 && s.Pos + 1 < s.Reqs.size()) {
                        // a newer value is there; is it new enough not to be noticed yet?
                        MON_EXPECT(Now() - s.Reqs[s.Pos + 1].At < 2s, "superseded-sent", q.Str() << ": " << History(x));
                    }
                    auto max = W.Devs[di].MaxWriteFail < 0 ? 600 : W.Devs[di].MaxWriteFail;
                    // the latest request of the same value counts
                    TTime at = r.At;
                    for (size_t i = s.Pos; i < s.Reqs.size(); ++i) {
                        if (s.Reqs[i].Raw == *raw) {
                            at = s.Reqs[i].At;
                        }
                    }
                    if (Now() - at > std::chrono::seconds(max) + 6s && LastGood[di] < at) {
                        std::ostringstream o;
                        o << "sent after " << (Now() - at) / 1ms << " ms of failures, the limit is " << max << " s: " << History(x)
                          << "; last good answer " << (LastGood[di] - TTime{}) / 1ms << "; " << Describe(W.Devs[di]);
                        mon::Violation("sent-too-late", o.str());
                    }
                }
            }
            MON_EXPECT(known, "not-requested:address", q.Str() << " writes no register a value was requested for; " << Describe(W.Devs[di]));
        }
    };

    TProfile Profile()
    {
        TProfile p;
        p.Strings = false;
        p.MaxDevs = 2;
        p.MaxClusters = 3;
        p.MaxPerCluster = 4;
        return p;
    }

    void Tame(Rng& r, TWorld& w)
    {
        for (auto& d: w.Devs) {
            for (auto& c: d.Chans) {
                for (auto& x: c.Parts) {
                    x.Spec.Round = 0;
                    if (x.Spec.Format == Float || x.Spec.Format == Double) {
                        x.Spec.Scale = 1;
                        x.Spec.Offset = 0;
                    }
                    if (x.RegType == "holding_single" && x.Words() > 1) {
                        x.RegType = "holding";
                    }
                    if (x.Spec.Format == U8 || x.Spec.Format == S8 || x.Spec.Format == BCD8 || x.Spec.Format == Char8 ||
                        x.Spec.Format == U24 || x.Spec.Format == S24 || x.Spec.Format == BCD24)
                    {
                        x.Spec.WordLE = false;
                    }
                }
            }
        }
        (void)r;
    }

    // A value for the control, unlike earlier ones if possible
    std::string NewValue(Rng& r, TWorld& w, TWrites& m, const TChan& c, std::vector<std::string>& items)
    {
        items.clear();
        std::string v;
        for (auto& x: c.Parts) {
            std::string t;
            for (int k = 0; k < 30; ++k) {
                t = w.RandomText(x);
                if (x.IsBit() || !m.Parts[&x].Uses.count(*w.RawOf(x, t))) {
                    break;
                }
            }
            items.push_back(t);
            v += (v.empty() ? "" : ";") + t;
        }
        if (c.OnOff()) {
            v = r.Of({"0", "1"});
            items[0] = c.Sent(v);
        }
        return v;
    }

    void DoWrite(Rng& r, TWorld& w, TWrites& m)
    {
        auto& d = r.Pick(w.Devs);
        if (d.Chans.empty()) {
            return;
        }
        auto& c = r.Pick(d.Chans);
        std::vector<std::string> items;
        auto v = NewValue(r, w, m, c, items);
        bool ok = w.Svc->Write(d.Id, c.Name, v);
        MON_EXPECT(ok != c.ReadOnly, "accepted", d.Id << "/" << c.Name << " <- " << v);
        if (c.ReadOnly) {
            mon::Count("read-only-writes");
            return;
        }
        mon::Count("requested-values");
        for (size_t i = 0; i < c.Parts.size(); ++i) {
            m.Ask(c.Parts[i], *w.RawOf(c.Parts[i], items[i]), items[i]);
        }
    }

    // ---------------------------------------------------------------- S01
    // Every value is tried, and tried for the whole time it should be, whatever failed before
    void Series(Rng& r)
    {
        sim::Reset();
        TWorld w(r);
        w.Baud = r.Of({9600, 115200});
        const int limit = r.Of({0, 2, 4, 8});
        TDev d;
        d.Slave = 17;
        d.Id = "w17";
        d.DeviceTimeout = 100000000; // is never disconnected
        d.FailCycles = 1000000;
        d.MaxWriteFail = limit;
        d.ResponseTimeout = 30;
        for (int k = 0, n = r.Range(1, 3); k < n; ++k) {
            TChan c;
            c.Name = "c" + std::to_string(k);
            TPart x;
            x.Type = EType::HOLDING;
            x.RegType = "holding";
            x.Addr = 10 + k * r.Of({1, 5});
            x.Spec.Format = U16;
            c.Parts.push_back(x);
            d.Chans.push_back(c);
        }
        w.Devs.push_back(d);
        w.PortExtra["response_timeout_ms"] = 30;
        w.PortExtra["connection_timeout_ms"] = -1;
        w.FillMemory();
        TWrites m(w);
        w.Start();
        enum
        {
            GOOD,
            SILENT,
            BUSY,
            REFUSE
        } mode = GOOD;
        unsigned value = 1000;
        int within = 0; // percent of failing writes a newer value comes in the middle of
        auto& dev = w.Devs[0];
        auto write = [&](TChan& c) {
            auto v = std::to_string(++value);
            m.Ask(c.Parts[0], value, v);
            MON_EXPECT(w.Svc->Write(dev.Id, c.Name, v), "accepted", v);
        };
        w.Slaves[17]->Fault = [&](const TModbusRequest& q) {
            TAnswer a;
            a.Delay = 6ms;
            if (mode == GOOD) {
                return a;
            }
            if (q.IsWrite() && r.Chance(within)) {
                for (auto& c: dev.Chans) {
                    if (TWrites::Carried(c.Parts[0], q)) {
                        auto* pc = &c;
                        sim::At(Now() + 3ms, [&, pc] { write(*pc); });
                        mon::Count("newer-within-failing");
                    }
                }
            }
            if (mode == SILENT || !q.IsWrite()) {
                a.Kind = mode == SILENT ? TAnswer::SILENCE : TAnswer::GOOD;
                return a;
            }
            TBytes pdu{uint8_t(q.Fn | 0x80), uint8_t(mode == REFUSE ? r.Of({1, 2, 3}) : r.Of({5, 6}))};
            a.Kind = TAnswer::RAW_NOEXEC;
            a.Raw = RtuFrame(q.Slave, pdu);
            return a;
        };
        auto why = [&](TChan& c) { return "limit " + std::to_string(limit) + " s: " + m.History(c.Parts[0]); };
        w.Svc->RunFor(milliseconds(r.Range(100, 1500)));
        std::ostringstream story;
        for (int step = 0, n = r.Range(3, 8); step < n; ++step) {
            auto bad = r.Of({SILENT, SILENT, BUSY, REFUSE});
            // Some values are given up, others must survive
            bool give = limit < 4 || r.Chance(50);
            auto dur = give ? std::chrono::seconds(limit) + milliseconds(r.Range(2500, 6000)) : milliseconds(r.Range(300, limit * 1000 - 1800));
            mode = bad;
            within = give ? r.Of({0, 20, 50}) : 0;
            story << int(bad) << (give ? "g" : "s") << dur / 1ms << " ";
            w.Svc->RunFor(milliseconds(r.Range(0, 100)));
            for (auto& c: dev.Chans) {
                if (r.Chance(80)) {
                    write(c);
                }
            }
            auto asked = Now();
            w.Svc->RunFor(dur);
            within = 0;
            w.Svc->RunFor(200ms);
            bool survive = Now() - asked < std::chrono::seconds(limit) - 1s && bad != REFUSE;
            mode = GOOD;
            w.Svc->RunFor(3s);
            for (auto& c: dev.Chans) {
                auto& s = m.Parts[&c.Parts[0]];
                if (s.Reqs.empty()) {
                    continue;
                }
                auto& last = s.Reqs.back();
                mon::Count("series-judged");
                MON_EXPECT(last.Sent > 0, "never-tried", why(c));
                if (survive && last.At >= asked - 1ms) {
                    mon::Count("survivals-judged");
                    MON_EXPECT(w.WordsOf(0, c.Parts[0], true)[0] == last.Raw, "given-up-early", why(c));
                }
                auto e = w.Svc->Rec->Error(dev.Id, c.Name);
                bool there = w.WordsOf(0, c.Parts[0], true)[0] == last.Raw;
                MON_EXPECT((e.find('w') != std::string::npos) == !there, there ? "failure-stays" : "failure-not-shown", "error " << mon::Quote(e) << " " << why(c));
            }
            if (r.Chance(40)) {
                w.Svc->RunFor(milliseconds(r.Range(100, 12000)));
            }
        }
        mon::Count("series");
        mon::Distinct("series " + story.str());
        mon::Sample("limit " + std::to_string(limit) + ": " + story.str());
    }

    void CaseS01(Rng& r, uint64_t n0)
    {
        if (n0 % 5 == 4) {
            Series(r);
            return;
        }
        sim::Reset();
        TWorld w(r);
        w.Baud = r.Of({9600, 19200, 115200});
        w.Tcp = r.Chance(15);
        w.MakeDevs(Profile());
        Tame(r, w);
        bool shortLimit = r.Chance(40);
        for (auto& d: w.Devs) {
            d.MaxWriteFail = shortLimit ? r.Of({0, 1, 3, 8}) : r.Of({-1, 200, 600});
            d.DeviceTimeout = r.Of({-1, 0, 1000, 3000});
            d.FailCycles = r.Of({-1, 1, 2});
            d.ResponseTimeout = r.Of({-1, 20, 50, 100});
            if (r.Chance(15)) {
                TSetup s;
                s.Part.RegType = "holding";
                s.Part.Addr = 64000;
                s.Part.Spec.Format = U16;
                s.Value = "7";
                d.Setup.push_back(s);
            }
        }
        w.PortExtra["response_timeout_ms"] = r.Of({20, 50, 100});
        w.PortExtra["connection_timeout_ms"] = r.Of({-1, 0, 1000, 5000});
        w.PortExtra["connection_max_fail_cycles"] = r.Of({-1, 1, 2, 5});
        w.FillMemory();
        TWrites m(w);
        for (auto& d: w.Devs) {
            if (!d.Setup.empty()) {
                for (int i = 0; i < 3; ++i) {
                    w.Slaves[d.Slave]->Set(EType::HOLDING, 64000 + i, 7);
                }
            }
        }
        w.Start();
        enum EMode
        {
            GOOD,
            SILENT,
            LOSSY,
            BUSY,
            REFUSE
        };
        std::vector<EMode> modes(w.Devs.size(), GOOD);
        int percent = 100;
        bool portBad = false, openBad = false;
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            w.Slaves[w.Devs[di].Slave]->Fault = [&, di](const TModbusRequest& q) {
                TAnswer a;
                a.Delay = milliseconds(r.Below(8));
                if (modes[di] == GOOD || !r.Chance(percent)) {
                    return a;
                }
                switch (modes[di]) {
                    case SILENT:
                        a.Kind = TAnswer::SILENCE;
                        break;
                    case LOSSY:
                        a.Kind = r.Chance(50) ? TAnswer::LOST : TAnswer::SILENCE;
                        break;
                    default: {
                        bool refuse = modes[di] == REFUSE && q.IsWrite() && q.Addr != 64000;
                        TBytes pdu{uint8_t(q.Fn | 0x80), uint8_t(refuse ? r.Of({1, 2, 3}) : r.Of({4, 5, 6}))};
                        a.Kind = TAnswer::RAW_NOEXEC;
                        a.Raw = w.Tcp ? TcpFrame(q.Tid, q.Slave, pdu) : RtuFrame(q.Slave, pdu);
                        if (refuse) {
                            for (auto& c: w.Devs[di].Chans) {
                                for (auto& x: c.Parts) {
                                    auto raw = TWrites::Carried(x, q);
                                    auto& s = m.Parts[&x];
                                    if (raw && !s.Reqs.empty() && s.Reqs[s.Pos].Raw == *raw) {
                                        s.Reqs[s.Pos].Refused = true;
                                    }
                                }
                            }
                            mon::Count("refused-by-device");
                        }
                    }
                }
                return a;
            };
        }
        w.Answered.push_back([&](int di, const TModbusRequest&, const TBytes& a, bool delivered) {
            if (delivered && !(a[0] & 0x80)) {
                m.LastGood[di] = Now();
            }
        });
        w.Port->FailOpen = [&] { return openBad; };
        w.Port->FailWrite = [&] {
            bool fail = portBad && r.Chance(percent);
            if (fail) {
                sim::Advance(2ms);
            }
            return fail;
        };
        w.Port->FailRead = [&] {
            bool fail = portBad && r.Chance(percent);
            if (fail) {
                w.Port->DropRx(); // a late answer to a forgotten request cannot be told from that to the next one
            }
            return fail;
        };
        // values come at any moment, in bursts
        bool stop = false;
        uint64_t events = 0;
        int pace = r.Of({30, 200, 1000, 5000});
        std::function<void()> tick = [&] {
            if (stop) {
                return;
            }
            auto n = r.Chance(20) ? 1 + r.Below(4) : 1;
            for (size_t i = 0; i < n; ++i) {
                DoWrite(r, w, m);
                ++events;
            }
            sim::At(sim::Now() + milliseconds(1 + r.Below(pace)), tick);
        };
        sim::At(sim::Now() + milliseconds(r.Below(3000)), tick);
        int phases = r.Range(1, 4);
        std::ostringstream story;
        w.Port->CloseOnFail = w.Tcp;
        for (int ph = 0; ph < phases; ++ph) {
            percent = r.Of({20, 60, 100, 100});
            for (auto& x: modes) {
                x = r.Of({GOOD, SILENT, SILENT, LOSSY, BUSY, REFUSE});
                story << int(x);
            }
            portBad = r.Chance(15);
            openBad = r.Chance(15);
            story << "/" << percent << (portBad ? "P" : "") << (openBad ? "O" : "") << " ";
            w.Svc->RunFor(milliseconds(r.Chance(30) ? r.Range(8000, 25000) : r.Range(300, 5000)));
            mon::Count("phases");
        }
        bool stopBefore = r.Chance(60);
        stop = stopBefore;
        for (auto& x: modes) {
            x = GOOD;
        }
        portBad = openBad = false;
        if (!stopBefore) {
            w.Svc->RunFor(2s);
            stop = true;
        }
        w.Svc->RunFor(45s);
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            auto& d = w.Devs[di];
            for (auto& c: d.Chans) {
                if (c.ReadOnly) {
                    continue;
                }
                bool undelivered = false;
                for (auto& x: c.Parts) {
                    auto& s = m.Parts[&x];
                    if (s.Reqs.empty()) {
                        continue;
                    }
                    mon::Count("final-values");
                    auto& last = s.Reqs.back();
                    auto words = w.WordsOf(di, x, true);
                    auto mem = x.IsBit() ? words[0] : codec::RawBits(x.Spec, words);
                    if (mem == last.Raw) {
                        continue;
                    }
                    undelivered = true;
                    mon::Count("not-delivered");
                    auto why = [&] { return d.Id + "/" + c.Name + " " + m.History(x) + "; modes " + story.str() + "; " + Describe(d); };
                    bool refused = false;
                    for (auto& q: s.Reqs) {
                        refused = refused || q.Raw == last.Raw && q.Refused;
                    }
                    if (refused) {
                        mon::Count("refused-finally");
                        continue;
                    }
                    MON_EXPECT(shortLimit, "lost", "the last value was not delivered: " << why());
                }
                auto e = w.Svc->Rec->Error(d.Id, c.Name);
                if (undelivered) {
                    MON_EXPECT(e.find('w') != std::string::npos, "failure-not-shown",
                               d.Id << "/" << c.Name << " error " << mon::Quote(e) << " though the last value was not delivered: " << m.History(c.Parts[0]) << "; modes "
                                    << story.str());
                }
            }
        }
        mon::Count("histories");
        mon::Count("burst-events", events);
        mon::Distinct(story.str() + Describe(w.Devs[0]));
        mon::Sample(story.str() + Describe(w.Devs[0]).substr(0, 200));
    }
    MON_CHECK("S01", CaseS01);

    // ---------------------------------------------------------------- V02
    std::string Bad(Rng& r, const TPart& x, std::string* what)
    {
        auto pick = [&](std::initializer_list<const char*> l, const char* w) {
            *what = w;
            return std::string(r.Of(l));
        };
        bool big = std::abs(x.Spec.Scale) > 1;
        switch (r.Below(x.Spec.IsFloat() ? 3 : 6)) {
            case 0:
                return pick({"", "abc", "-", "+", "x", "true", "0x", "0xzz", "--5", "1-", "e5"}, "not-a-number");
            case 1:
                return pick({"1,5", "12abc", "5 5", "1e", "0x1g", "1.2.3", "5%", "1 "}, "trailing");
            case 2:
                return pick({"1e999", "-1e999"}, "huge");
            case 3:
                return pick({"nan", "NaN", "-nan", "inf", "-inf", "infinity", "+inf"}, "nan");
            case 4:
                if (big) {
                    return pick({"1e30", "-1e30", "1e308", "123456789012345678901234567890.5"}, "too-large");
                }
                return pick({"1e30", "-1e30", "1e19", "-1e19", "1e308", "123456789012345678901234567890.5"}, "too-large");
            default:
                return pick({"99999999999999999999999999", "-99999999999999999999999999", "0xfffffffffffffffffffff"}, "too-long");
        }
    }

    void CaseV02(Rng& r, uint64_t)
    {
        sim::Reset();
        TWorld w(r);
        w.Baud = r.Of({9600, 19200, 115200});
        w.Tcp = r.Chance(15);
        w.MakeDevs(Profile());
        Tame(r, w);
        for (auto& d: w.Devs) {
            for (auto& c: d.Chans) {
                for (auto& x: c.Parts) {
                    if (x.Spec.Format == Char8) {
                        x.Spec.Format = U16; // any text is a character
                        x.Spec.ByteLE = false;
                    }
                }
            }
        }
        w.FillMemory();
        TWrites m(w);
        m.FaultFree = true;
        w.OnPub = [&](const std::string& dev, const std::string& ctl, bool error, const std::string& text) {
            if (!error) {
                w.CheckPublished(dev, ctl, text, "value");
            } else if (!text.empty() && text != "w") {
                mon::Violation("error", dev + "/" + ctl + " error " + text);
            }
        };
        w.Start();
        for (auto& d: w.Devs) {
            w.Slaves[d.Slave]->Fault = [&](const TModbusRequest&) {
                TAnswer a;
                a.Delay = milliseconds(r.Below(30));
                return a;
            };
        }
        bool stop = false;
        std::set<std::string> kinds;
        auto badWrite = [&](const TDev& d, const TChan& c) {
            if (c.ReadOnly || c.Parts.empty()) {
                return;
            }
            std::string v, what;
            if (r.Chance(20)) { // wrong number of items
                auto n = c.Parts.size() == 1 || r.Chance(50) ? c.Parts.size() + 1 : c.Parts.size() - 1;
                for (size_t i = 0; i < n; ++i) {
                    v += (i ? ";" : "") + w.RandomText(c.Parts[i % c.Parts.size()]);
                }
                what = "items";
            } else {
                auto bad = r.Below(c.Parts.size());
                for (size_t i = 0; i < c.Parts.size(); ++i) {
                    v += (i ? ";" : "") + (i == bad ? Bad(r, c.Parts[i], &what) : w.RandomText(c.Parts[i]));
                }
                if (c.Parts.size() > 1) {
                    what += bad ? "-after-good" : "-first";
                }
            }
            mon::Count("rejected-" + what);
            mon::Count("invalid-values");
            kinds.insert(what + ":" + c.Parts[0].Str());
            w.Svc->Write(d.Id, c.Name, v);
        };
        int pace = r.Of({20, 100, 1000, 3000});
        std::function<void()> tick = [&] {
            if (stop) {
                return;
            }
            auto n = 1 + r.Below(3);
            for (size_t i = 0; i < n; ++i) {
                if (r.Chance(45)) {
                    DoWrite(r, w, m);
                    continue;
                }
                auto& d = r.Pick(w.Devs);
                if (!d.Chans.empty()) {
                    badWrite(d, r.Pick(d.Chans));
                }
            }
            sim::At(sim::Now() + milliseconds(1 + r.Below(pace)), tick);
        };
        sim::At(sim::Now() + milliseconds(r.Below(4000)), tick);
        w.Svc->RunFor(milliseconds(r.Range(2000, 20000)));
        stop = true;
        // an invalid value is the last thing written to some controls
        for (auto& d: w.Devs) {
            for (auto& c: d.Chans) {
                if (r.Chance(30)) {
                    badWrite(d, c);
                }
            }
        }
        w.Svc->RunFor(10s);
        for (auto& d: w.Devs) { // and nothing comes out of it with the next write to another control
            for (auto& c: d.Chans) {
                if (!c.ReadOnly && r.Chance(30)) {
                    std::vector<std::string> items;
                    auto v = NewValue(r, w, m, c, items);
                    w.Svc->Write(d.Id, c.Name, v);
                    for (size_t i = 0; i < c.Parts.size(); ++i) {
                        m.Ask(c.Parts[i], *w.RawOf(c.Parts[i], items[i]), items[i]);
                    }
                }
            }
        }
        w.Svc->RunFor(10s);
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            auto& d = w.Devs[di];
            for (auto& c: d.Chans) {
                for (auto& x: c.Parts) {
                    auto& s = m.Parts[&x];
                    if (s.Reqs.empty()) {
                        continue;
                    }
                    mon::Count("final-values");
                    auto words = w.WordsOf(di, x, true);
                    auto mem = x.IsBit() ? words[0] : codec::RawBits(x.Spec, words);
                    MON_EXPECT(mem == s.Reqs.back().Raw, "valid-lost", d.Id << "/" << c.Name << " holds raw " << mem << ": " << m.History(x) << "; " << Describe(d));
                }
            }
        }
        for (auto& k: kinds) {
            mon::Distinct(k);
        }
        mon::Count("histories");
        mon::Sample(Describe(w.Devs[0]).substr(0, 250));
    }
    MON_CHECK("V02", CaseV02);
}
