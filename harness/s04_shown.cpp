// S04: MQTT shows the current state
#include "msys.h"

namespace
{
    using namespace msys;
    using namespace sim;

    struct TPartState
    {
        bool Known = false, ReadBad = false, WriteBad = false;
        codec::TValue Value;      // the last value given to the program
        std::deque<TTime> Reads;  // requests
        bool Written = false;     // a write may read the register first
    };

    struct TCtlState
    {
        bool Touched = false, GoodRead = false, GoodWrite = false;
        TTime LastPub{};
        std::string Payload;
        bool Published = false;
        uint64_t Pubs = 0;
        bool Republished = false; // the same value in this cycle
        TTime PrevPub{};
        std::set<TTime> ErrorAt; // of this cycle
        std::string ErrorBefore;
        uint64_t PSeen = 0;
    };

    uint64_t RawFor(Rng& r, const TPart& x)
    {
        return codec::Mask(x.Spec.Bits()) & (r.Chance(50) ? ~0ull : 0x7fff);
    }

    // Counters of pushes start from zero when the device reboots: that zero is no push
    void Counters(Rng& r)
    {
        sim::Reset();
        TWorld w(r);
        w.Baud = r.Of({9600, 115200});
        w.MaxUnchangedS = r.Of({-1, 0, 5});
        int devs = r.Range(1, 2);
        std::map<std::string, std::map<std::string, int>> addr; // device -> control -> register
        for (int i = 0; i < devs; ++i) {
            TDev d;
            d.Slave = 10 + i;
            d.Id = "cnt" + std::to_string(i);
            d.DeviceTimeout = r.Of({0, 200, 1000});
            d.FailCycles = r.Of({1, 2, 3});
            d.ResponseTimeout = 20;
            for (int k = 0, n = r.Range(1, 4); k < n; ++k) {
                TChan c;
                c.Name = "p" + std::to_string(k);
                c.ReadOnly = true;
                TPart x;
                x.Type = EType::INPUT;
                x.RegType = "press_counter";
                x.Addr = 100 + k * r.Of({1, 1, 40});
                x.Spec.Format = U16;
                c.Parts.push_back(x);
                addr[d.Id][c.Name] = x.Addr;
                d.Chans.push_back(c);
            }
            w.Devs.push_back(d);
        }
        w.PortExtra["response_timeout_ms"] = 20;
        w.PortExtra["connection_timeout_ms"] = -1;
        struct TCounter
        {
            bool Reset = false; // zero means a reboot
            std::optional<unsigned> Shown;
            bool Read = false;
        };
        std::map<std::string, std::map<std::string, TCounter>> model;
        std::map<int, bool> dead;
        w.FillMemory();
        w.Answered.push_back([&](int di, const TModbusRequest& q, const TBytes& a, bool delivered) {
            if (!delivered || (a[0] & 0x80) || !q.IsRead()) {
                return;
            }
            auto& d = w.Devs[di];
            for (auto& [name, at]: addr[d.Id]) {
                if (at >= int(q.Addr) && at < int(q.Addr + q.Count)) {
                    auto& m = model[d.Id][name];
                    unsigned v = w.Slaves[d.Slave]->Get(EType::INPUT, at);
                    if (v == 0 && m.Reset) {
                        mon::Count("zeros-of-reboot");
                        continue;
                    }
                    mon::Count(v ? "counters-read" : "plain-zeros");
                    m.Reset = false;
                    m.Shown = v;
                    m.Read = true;
                }
            }
        });
        w.OnPub = [&](const std::string& dev, const std::string& ctl, bool error, const std::string& text) {
            if (ctl.empty()) {
                if (error && !text.empty()) {
                    mon::Count("counter-disconnections");
                    for (auto& [name, m]: model[dev]) {
                        m.Reset = true;
                    }
                    for (auto& [name, at]: addr[dev]) {
                        model[dev][name].Reset = true;
                    }
                }
                return;
            }
            if (error) {
                return;
            }
            auto& m = model[dev][ctl];
            mon::Count("counter-publications");
            MON_EXPECT(!m.Read || (m.Shown && text == std::to_string(*m.Shown)), text == "0" ? "zero-of-reboot" : "counter-value",
                       dev << "/" << ctl << " published " << text << " instead of " << (m.Shown ? std::to_string(*m.Shown) : "nothing"));
        };
        w.Start();
        for (auto& d: w.Devs) {
            int slave = d.Slave;
            dead[slave] = r.Chance(20);
            w.Slaves[slave]->Fault = [&, slave](const TModbusRequest&) {
                TAnswer a;
                a.Delay = milliseconds(r.Below(4));
                if (dead[slave]) {
                    a.Kind = TAnswer::SILENCE;
                }
                return a;
            };
            for (auto& [name, at]: addr[d.Id]) {
                w.Slaves[slave]->Set(EType::INPUT, at, r.Of({0, 0, 1, 700, 65535}));
            }
        }
        for (int step = 0, n = r.Range(4, 12); step < n; ++step) {
            auto end = Now() + milliseconds(r.Of({300, 2000, 8000, 14000}));
            while (Now() < end) {
                w.Svc->Cycle();
                for (auto& [dev, ctls]: model) {
                    for (auto& [name, m]: ctls) {
                        auto* v = w.Svc->Rec->Value(dev, name);
                        if (m.Read && m.Shown) {
                            MON_EXPECT(v && *v == std::to_string(*m.Shown), "counter-shown",
                                       dev << "/" << name << " shows " << (v ? *v : "nothing") << " instead of " << *m.Shown << (m.Reset ? ", after a disconnection" : ""));
                        }
                    }
                }
                for (auto& d: w.Devs) {
                    for (auto& [name, at]: addr[d.Id]) {
                        if (r.Chance(2)) {
                            w.Slaves[d.Slave]->Set(EType::INPUT, at, r.Chance(15) ? 0 : w.Slaves[d.Slave]->Get(EType::INPUT, at) + 1);
                        }
                    }
                }
            }
            for (auto& d: w.Devs) {
                if (r.Chance(60)) {
                    dead[d.Slave] = !dead[d.Slave];
                    for (auto& [name, at]: addr[d.Id]) {
                        if (dead[d.Slave] && r.Chance(80)) {
                            w.Slaves[d.Slave]->Set(EType::INPUT, at, 0);
                        }
                    }
                }
            }
        }
        mon::Count("counter-histories");
        mon::Distinct("counters " + std::to_string(w.Bus->Log.size()));
    }

    void Case(Rng& r, uint64_t n0)
    {
        if (n0 % 6 == 5) {
            Counters(r);
            return;
        }
        sim::Reset();
        TWorld w(r);
        TProfile p;
        bool writes = r.Chance(50), faults = r.Chance(60), overload = r.Chance(12);
        p.Overlap = p.WriteAddr = p.Singles = p.Limits = false;
        p.BitFields = !writes;
        p.MaxDevs = 2;
        p.MaxClusters = 3;
        p.MaxPerCluster = 5;
        w.Baud = overload ? 9600 : r.Of({9600, 115200});
        w.Tcp = r.Chance(20);
        w.MakeDevs(p);
        w.MaxUnchangedS = r.Of({-1, -1, 0, 3, 5, 7, 20});
        int common = w.MaxUnchangedS > 0 ? std::max(5, w.MaxUnchangedS) : w.MaxUnchangedS;
        int n = 0;
        std::map<const TChan*, int> devOf;
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            auto& d = w.Devs[di];
            d.MinRead = d.RegHole = d.BitHole = -1;
            d.DeviceTimeout = 100000000;
            d.FailCycles = 1000000;
            d.ResponseTimeout = 20;
            for (auto& c: d.Chans) {
                devOf[&c] = di;
                c.RateLimitMs = -1;
                c.ReadPeriodMs = 0;
                if (overload && c.Parts.size() == 1) {
                    c.ReadPeriodMs = r.Of({10, 20, 50});
                } else if (r.Chance(15)) {
                    c.ReadPeriodMs = r.Of({500, 1000, 3000});
                }
                auto& x = c.Parts[0];
                auto f = x.Spec.Format;
                bool plain = !x.Spec.IsString() && !x.Spec.BitWidth && f != Float && f != Double && f != BCD8 && f != BCD16 &&
                             f != BCD24 && f != BCD32 && f != Char8 && f != S8 && f != S16 && f != S24 && f != S32 && f != S64;
                if (c.Parts.size() == 1 && !x.IsBit() && plain && !c.OnOff() && r.Chance(40)) {
                    c.ErrorRaw = RawFor(r, x);
                }
                if (r.Chance(30)) {
                    c.Extra["units"] = r.Of({"V", "deg C", "kWh"});
                }
                if (r.Chance(20)) {
                    c.Extra["max"] = r.Of({10, 100000, 0});
                }
                if (r.Chance(20)) {
                    c.Extra["min"] = r.Of({-5, 0, 3});
                }
                if (!c.OnOff() && r.Chance(25)) {
                    c.CtlType = r.Of<const char*>({"range", "dimmer", "temperature"});
                    if (!c.ReadOnly && !c.Parts[0].Spec.IsString() && c.Parts[0].Writable() && r.Chance(40)) {
                        c.CtlType = r.Of<const char*>({"pushbutton", "wo-switch"});
                        c.ReadPeriodMs = 0;
                    }
                }
                if (r.Chance(20)) {
                    Json::Value e(Json::arrayValue), t(Json::arrayValue);
                    for (int i = 0, k = r.Range(1, 4); i < k; ++i) {
                        e.append(i * 3);
                        t.append("Title " + std::to_string(i * 7));
                    }
                    c.Extra["enum"] = e;
                    if (r.Chance(70)) {
                        c.Extra["enum_titles"] = t;
                    }
                }
                if (r.Chance(10) && c.Parts[0].Type == EType::INPUT && !c.Parts[0].Spec.IsString()) {
                    for (auto& x: c.Parts) {
                        x.RegType = "press_counter";
                    }
                }
                ++n;
            }
        }
        w.PortExtra["response_timeout_ms"] = 20;
        w.PortExtra["connection_timeout_ms"] = -1;
        w.FillMemory();
        const auto started = Now();
        std::map<const TPart*, TPartState> parts;
        std::map<const TChan*, TCtlState> ctls;
        std::map<const TChan*, std::string> pushed;
        auto desc = [&](const TChan& c) {
            auto& d = w.Devs[devOf[&c]];
            auto* v = w.Svc->Rec->Value(d.Id, c.Name);
            std::ostringstream o;
            o << d.Id << "/" << c.Name << " shows " << (v ? mon::Quote(*v) : "nothing") << " error " << mon::Quote(w.Svc->Rec->Error(d.Id, c.Name)) << ";";
            for (auto& x: c.Parts) {
                auto& s = parts[&x];
                o << " " << x.Str() << " given " << (s.Known ? s.Value.Str() : "nothing") << (s.ReadBad ? " read failed" : "") << (s.WriteBad ? " write failed" : "");
            }
            o << "; period " << c.ReadPeriodMs << ", type " << c.CtlType << ", unchanged interval " << common << ", " << Describe(d);
            return o.str();
        };
        w.Requested.push_back([&](int di, const TModbusRequest& q) {
            for (auto& c: w.Devs[di].Chans) {
                for (auto& x: c.Parts) {
                    auto t = q.Fn == 5 || q.Fn == 15 ? EType::COIL : EType::HOLDING;
                    if (q.IsRead() && x.Contains(EType(q.Fn), q.Addr, q.Count)) {
                        parts[&x].ReadBad = true;
                        parts[&x].Reads.push_back(Now());
                        ctls[&c].Touched = true;
                    } else if (q.IsWrite() && t == x.Type && x.Overlaps(t, q.Addr, q.Count)) {
                        parts[&x].WriteBad = true;
                        parts[&x].Written = true;
                        ctls[&c].Touched = true;
                    }
                }
            }
        });
        w.Answered.push_back([&](int di, const TModbusRequest& q, const TBytes& a, bool delivered) {
            if (!delivered || (a[0] & 0x80)) {
                return;
            }
            for (auto& c: w.Devs[di].Chans) {
                for (auto& x: c.Parts) {
                    auto& s = parts[&x];
                    auto t = q.Fn == 5 || q.Fn == 15 ? EType::COIL : EType::HOLDING;
                    if (q.IsRead() && x.Contains(EType(q.Fn), q.Addr, q.Count)) {
                        auto words = w.WordsOf(di, x);
                        if (c.ErrorRaw && codec::RawBits(x.Spec, words) == *c.ErrorRaw) {
                            mon::Count("error-values");
                            continue;
                        }
                        s.ReadBad = false;
                        ctls[&c].GoodRead = true;
                    } else if (q.IsWrite() && t == x.Type && x.Overlaps(t, q.Addr, q.Count)) {
                        s.WriteBad = false;
                        ctls[&c].GoodWrite = true;
                    } else {
                        continue;
                    }
                    s.Known = true;
                    auto words = w.WordsOf(di, x);
                    if (x.IsBit()) {
                        s.Value = codec::TValue();
                        s.Value.Text = words[0] ? "1" : "0";
                    } else {
                        s.Value = codec::Decode(x.Spec, words);
                    }
                }
            }
        });
        w.OnPub = [&](const std::string& dev, const std::string& ctl, bool error, const std::string& text) {
            if (ctl.empty()) {
                return;
            }
            auto c = w.FindChan(dev, ctl);
            if (!c) {
                return;
            }
            auto& s = ctls[c];
            s.Touched = true;
            if (error) {
                s.ErrorAt.insert(Now());
                if (text.find('p') != std::string::npos) {
                    ++s.PSeen;
                    mon::Count("poll-errors");
                    MON_EXPECT(c->ReadPeriodMs > 0, "poll-error-without-period", desc(*c));
                    for (auto& x: c->Parts) {
                        auto& t = parts[&x].Reads;
                        // polls the device wasn't ready for leave no requests
                        bool slow = (t.empty() ? Now() : t.front()) - started > milliseconds(c->ReadPeriodMs);
                        for (size_t i = 1; i < t.size(); ++i) {
                            slow = slow || t[i] - t[i - 1] > milliseconds(c->ReadPeriodMs);
                        }
                        MON_EXPECT(slow || c->Parts.size() > 1 || parts[&x].Written, "poll-error-on-time", desc(*c));
                    }
                }
                return;
            }
            mon::Count("published-values");
            if (s.Published && s.Payload == text) {
                s.Republished = true;
                s.PrevPub = s.LastPub;
                mon::Count("republished");
            }
            s.Published = true;
            s.Payload = text;
            s.LastPub = Now();
            ++s.Pubs;
        };
        bool bad = false, mutate = true;
        int percent = 30;
        w.Start();
        for (auto& d: w.Devs) {
            w.Slaves[d.Slave]->Fault = [&](const TModbusRequest& q) {
                TAnswer a;
                a.Delay = milliseconds(r.Below(4));
                if (bad && r.Chance(percent)) {
                    if (r.Chance(50) || !q.IsWrite()) {
                        a.Kind = TAnswer::SILENCE;
                    } else {
                        TBytes pdu{uint8_t(q.Fn | 0x80), uint8_t(r.Of({3, 4, 6}))};
                        a.Kind = TAnswer::RAW_NOEXEC;
                        a.Raw = w.Tcp ? TcpFrame(q.Tid, q.Slave, pdu) : RtuFrame(q.Slave, pdu);
                    }
                }
                return a;
            };
        }
        // metadata
        for (auto& d: w.Devs) {
            int order = 0;
            for (auto& c: d.Chans) {
                ++order;
                auto meta = [&](const char* k) {
                    auto it = w.Svc->Rec->Last.find("/devices/" + d.Id + "/controls/" + c.Name + "/meta/" + k);
                    return it == w.Svc->Rec->Last.end() ? std::string("none") : it->second;
                };
                bool str = c.Parts.size() == 1 && c.Parts[0].Spec.IsString();
                bool ro = c.ReadOnly;
                MON_EXPECT(meta("type") == (str ? "text" : c.CtlType == "wo-switch" ? "switch" : c.CtlType), "meta:type", meta("type") << ": " << desc(c));
                MON_EXPECT(meta("readonly") == (ro ? "1" : "0"), "meta:readonly", meta("readonly") << ": " << desc(c));
                MON_EXPECT(meta("order") == std::to_string(order), "meta:order", meta("order") << ": " << desc(c));
                if (c.Extra.isMember("units")) {
                    MON_EXPECT(meta("units") == c.Extra["units"].asString(), "meta:units", meta("units") << ": " << desc(c));
                }
                auto num = [&](const char* k, const std::string& def) {
                    auto exp = c.Extra.isMember(k) ? std::to_string(c.Extra[k].asInt()) : def;
                    MON_EXPECT(meta(k) == exp, std::string("meta:") + k, meta(k) << ": " << desc(c));
                };
                num("min", "none");
                num("max", !str && (c.CtlType == "range" || c.CtlType == "dimmer") ? "65535" : "none");
                auto dev = std::dynamic_pointer_cast<WBMQTT::TLocalDevice>(w.Svc->Mqtt->BeginTx()->GetDevice(d.Id));
                auto ctl = dev ? dev->FindControl(c.Name) : nullptr;
                MON_EXPECT(dev && dev->UnusedRemoved && dev->GetArgs().DoLoadPrevious, "old-controls-kept", d.Id);
                if (ctl) {
                    bool counter = c.Parts[0].RegType == "press_counter";
                    MON_EXPECT(ctl->Args.Durable == counter, "durable", desc(c));
                    std::map<std::string, WBMQTT::TTitles> exp;
                    for (Json::ArrayIndex i = 0; i < c.Extra["enum"].size(); ++i) {
                        auto& t = exp[c.Extra["enum"][i].asString()];
                        if (c.Extra.isMember("enum_titles")) {
                            t["en"] = c.Extra["enum_titles"][i].asString();
                        }
                    }
                    auto show = [](const std::map<std::string, WBMQTT::TTitles>& m) {
                        std::string r;
                        for (auto& [v, t]: m) {
                            r += v + "{";
                            for (auto& [lang, text]: t) {
                                r += lang + ":" + text + ",";
                            }
                            r += "} ";
                        }
                        return r;
                    };
                    MON_EXPECT(show(ctl->Args.EnumTitles) == show(exp), "enum-titles", show(ctl->Args.EnumTitles) << " instead of " << show(exp) << ": " << desc(c));
                    auto round = c.Parts.size() == 1 ? ctl->Args.Precision : 0;
                    MON_EXPECT(c.Parts.size() != 1 || str || c.Parts[0].IsBit() || round == c.Parts[0].Spec.Round, "precision", round << ": " << desc(c));
                }
                mon::Count("metadata-checked");
            }
        }
        auto check = [&](const TChan& c, TCtlState& s) {
            const bool button = c.CtlType == "pushbutton"; // every push is published
            const int interval = button ? 0 : common;
            auto& d = w.Devs[devOf[&c]];
            bool known = true, rBad = false, wBad = false;
            std::vector<codec::TValue> vals;
            for (auto& x: c.Parts) {
                auto& ps = parts[&x];
                known = known && ps.Known;
                rBad = rBad || ps.ReadBad;
                wBad = wBad || ps.WriteBad;
                vals.push_back(ps.Value);
            }
            auto e = w.Svc->Rec->Error(d.Id, c.Name);
            mon::Count("states-compared");
            MON_EXPECT((e.find('r') != std::string::npos) == rBad || (!known && rBad), rBad ? "no-read-error" : "read-error-stays", desc(c));
            MON_EXPECT((e.find('w') != std::string::npos) == wBad, wBad ? "no-write-error" : "write-error-stays", desc(c));
            if (rBad) {
                mon::Count("read-errors-compared");
            }
            if (wBad) {
                mon::Count("write-errors-compared");
            }
            auto* v = w.Svc->Rec->Value(d.Id, c.Name);
            if (known && !wBad) {
                MON_EXPECT(v && w.ShownMatches(c, vals, *v), "value", desc(c));
                mon::Count("values-compared");
            }
            if (s.Republished) {
                bool why = s.ErrorAt.count(s.LastPub) || interval == 0 || (interval > 0 && s.LastPub - s.PrevPub >= std::chrono::seconds(interval) - 1ms);
                MON_EXPECT(why && (interval >= 0), interval < 0 ? "republished" : "republished-early", "the same value after " << (s.LastPub - s.PrevPub) / 1ms << " ms: " << desc(c));
                mon::Count("republications-judged");
            }
            if (s.GoodRead && known && !rBad && !wBad) {
                if (interval > 0) {
                    MON_EXPECT(Now() - s.LastPub < std::chrono::seconds(interval) + 200ms, "not-republished", (Now() - s.LastPub) / 1ms << " ms: " << desc(c));
                } else if (interval == 0) {
                    MON_EXPECT(Now() - s.LastPub < 200ms, "not-published-all", (Now() - s.LastPub) / 1ms << " ms: " << desc(c));
                    mon::Count("publish-all-judged");
                }
            }
            if (s.GoodWrite && known && !rBad && !wBad && button) {
                MON_EXPECT(Now() - s.LastPub < 200ms, "push-not-published", (Now() - s.LastPub) / 1ms << " ms: " << desc(c));
                mon::Count("pushes-judged");
            }
            s.Touched = s.GoodRead = s.GoodWrite = s.Republished = false;
            s.ErrorAt.clear();
        };
        auto run = [&](milliseconds t) {
            auto end = Now() + t;
            while (Now() < end) {
                w.Svc->Cycle();
                for (auto& [c, s]: ctls) {
                    if (s.Touched) {
                        check(*c, s);
                    }
                }
                for (auto& d: w.Devs) {
                    for (auto& c: d.Chans) {
                        if (mutate && r.Chance(overload ? 1 : 3)) {
                            auto& x = r.Pick(c.Parts);
                            if (c.ErrorRaw && r.Chance(30)) {
                                uint64_t raw = *c.ErrorRaw;
                                if (raw == codec::Mask(x.Spec.Bits()) || x.Words() == 1) {
                                    for (unsigned i = 0; i < x.Words(); ++i) {
                                        w.Slaves[d.Slave]->Set(x.Type, x.Addr + i, raw == codec::Mask(x.Spec.Bits()) ? 0xffff : raw);
                                    }
                                }
                            } else {
                                w.Slaves[d.Slave]->Set(x.Type, x.Addr + r.Below(x.Words()), w.RandomWord(x));
                            }
                        }
                    }
                }
            }
        };
        run(milliseconds(r.Range(1000, 4000)));
        int steps = r.Range(3, 8);
        for (int i = 0; i < steps; ++i) {
            bad = faults && r.Chance(50);
            percent = r.Of({10, 50, 90});
            mutate = r.Chance(60);
            if (writes && !bad) {
                // a written value must not be the error value
            }
            for (int k = 0; writes && k < 3; ++k) {
                auto& d = r.Pick(w.Devs);
                if (d.Chans.empty()) {
                    break;
                }
                auto* pc = &r.Pick(d.Chans);
                for (auto& x: d.Chans) {
                    if (x.CtlType == "pushbutton" && r.Chance(30)) {
                        pc = &x;
                    }
                }
                auto& c = *pc;
                std::string v;
                bool err = false;
                for (auto& x: c.Parts) {
                    auto t = w.RandomText(x);
                    err = err || (c.ErrorRaw && w.RawOf(x, t) == c.ErrorRaw);
                    v += (v.empty() ? "" : ";") + t;
                }
                if (c.OnOff()) {
                    v = r.Of({"0", "1"});
                }
                if (c.CtlType == "pushbutton" && r.Chance(70)) {
                    auto& old = pushed[&c];
                    old = old.empty() ? v : old;
                    v = old;
                }
                if (err) {
                    continue;
                }
                bool ok = w.Svc->Write(d.Id, c.Name, v);
                MON_EXPECT(ok != c.ReadOnly, c.ReadOnly ? "read-only-accepts" : "write-not-accepted", v << ": " << desc(c));
                mon::Count(c.ReadOnly ? "read-only-writes" : "writes");
            }
            run(r.Chance(20) ? milliseconds(r.Range(8000, 25000)) : milliseconds(r.Range(300, 4000)));
        }
        if (overload) {
            bad = false;
            for (auto& [c, s]: ctls) {
                s.PSeen = 0;
                for (auto& x: c->Parts) {
                    parts[&x].Reads.clear();
                }
            }
            run(35s);
            for (auto& [c, s]: ctls) {
                if (c->Parts.size() > 1 || !c->ReadPeriodMs) {
                    continue;
                }
                auto& t = parts[&c->Parts[0]].Reads;
                if (t.size() < 3) {
                    continue;
                }
                auto avg = (t.back() - t.front()) / (t.size() - 1);
                if (avg > milliseconds(c->ReadPeriodMs) * 3 / 2) {
                    mon::Count("overloads-judged");
                    MON_EXPECT(s.PSeen > 0, "no-poll-error", "average " << avg / 1us << " us: " << desc(*c));
                }
            }
        }
        mon::Count("histories");
        std::ostringstream o;
        o << w.Devs.size() << " devices, " << n << " controls, interval " << common << (writes ? ", writes" : "") << (faults ? ", faults" : "") << ", "
          << w.Bus->Log.size() << " requests";
        mon::Sample(o.str());
        mon::Distinct(o.str());
    }
    MON_CHECK("S04", Case);
}
