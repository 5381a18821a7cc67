// M04: damaged answers are never shown as values, errors appear and go
#include "damage.h"

namespace
{
    using namespace msys;
    using namespace sim;

    enum EMode
    {
        GOOD,
        FLAKY,   // some answers are damaged
        DEAD,    // all are
        PARTIAL, // those for one register are
    };

    struct TDevMode
    {
        EMode Mode = GOOD;
        int Kind = -1; // -1: any
        int Percent = 0;
        const TPart* Part = nullptr;
    };

    void Case(Rng& r, uint64_t)
    {
        sim::Reset();
        TWorld w(r);
        TProfile p;
        // Answers that come after the timeout may be taken on a serial line for answers to later requests
        bool late = r.Chance(25);
        bool exact = !late && r.Chance(50);
        if (exact) {
            p.Overlap = false;
        }
        p.MaxDevs = 3;
        p.MaxClusters = 3;
        p.MaxPerCluster = 6;
        w.Baud = r.Of({9600, 19200, 115200});
        w.Tcp = r.Chance(30);
        w.MakeDevs(p);
        for (auto& d: w.Devs) {
            d.MinRead = -1;
            d.DeviceTimeout = r.Of({-1, 0, 1000, 5000});
            d.FailCycles = r.Of({-1, 1, 2, 5});
            d.ResponseTimeout = r.Of({-1, 20, 50, 100});
            if (exact) {
                d.RegHole = d.BitHole = -1;
            }
        }
        w.PortExtra["response_timeout_ms"] = r.Of({20, 50, 100});
        w.PortExtra["connection_timeout_ms"] = -1; // the port stays open, S05 closes it
        w.FillMemory();
        std::vector<TDevMode> modes(w.Devs.size());
        std::map<const TPart*, int> lastBad; // 0: good, 1: bad
        bool dirty = false;
        std::map<int, std::map<int, uint64_t>> unit;
        w.Requested.push_back([&](int di, const TModbusRequest& q) {
            if (!q.IsRead()) {
                return;
            }
            for (auto& c: w.Devs[di].Chans) {
                for (auto& x: c.Parts) {
                    if (x.Contains(EType(q.Fn), q.Addr, q.Count)) {
                        lastBad[&x] = 1;
                    }
                }
            }
        });
        w.Answered.push_back([&](int di, const TModbusRequest& q, const TBytes& a, bool delivered) {
            if (!q.IsRead() || !delivered || (a[0] & 0x80)) {
                return;
            }
            for (auto& c: w.Devs[di].Chans) {
                for (auto& x: c.Parts) {
                    if (x.Contains(EType(q.Fn), q.Addr, q.Count)) {
                        lastBad[&x] = 0;
                    }
                }
            }
        });
        std::set<std::string> clean; // devices that have been good since the start of the phase before
        bool quiet = false;          // nothing is damaged any more
        w.OnPub = [&](const std::string& dev, const std::string& ctl, bool error, const std::string& text) {
            if (!error && !ctl.empty() && (!late || w.Tcp)) {
                w.CheckPublished(dev, ctl, text, "value");
            }
            if (error && !text.empty()) {
                mon::Count("errors-shown");
                MON_EXPECT(!clean.count(dev), "foreign-error", dev << "/" << ctl << " error " << text << " while the device answers well");
            }
        };
        w.Start();
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            auto s = w.Slaves[w.Devs[di].Slave];
            s->Fault = [&, di, s](const TModbusRequest& q) {
                TAnswer a;
                a.Delay = milliseconds(r.Below(8));
                auto& m = modes[di];
                bool hit = m.Mode == DEAD || m.Mode == FLAKY && r.Chance(m.Percent) ||
                           m.Mode == PARTIAL && q.IsRead() && m.Part->Overlaps(EType(q.Fn), q.Addr, q.Count);
                if (!hit) {
                    mon::Count("good-answers");
                    return a;
                }
                if (late && r.Chance(60)) {
                    mon::Count("late-answers");
                    a.Delay = milliseconds(r.Range(20, 500));
                    return a;
                }
                int kind = m.Kind >= 0 ? m.Kind : RandomDamage(r, w.Tcp);
                mon::Count("damaged-answers");
                mon::Count(std::string("damaged-") + DamageName(kind));
                if (r.Chance(50)) {
                    w.Mutate(1);
                }
                if (!Clean(kind)) {
                    dirty = true;
                }
                return Damage(r, q, *s, w.Tcp, kind);
            };
        }
        // a slow mutation of the memory
        std::function<void()> tick = [&] {
            if (!quiet) {
                w.Mutate(1 + r.Below(3));
            }
            sim::At(sim::Now() + milliseconds(r.Range(50, 700)), tick);
        };
        sim::At(sim::Now() + 100ms, tick);
        auto readable = [&](const TDev& d) { return !d.Chans.empty(); };
        auto shown = [&](const TDev& d) {
            std::ostringstream o;
            for (auto& c: d.Chans) {
                auto* v = w.Svc->Rec->Value(d.Id, c.Name);
                o << " " << c.Name << "=" << (v ? mon::Quote(*v) : "none") << w.Svc->Rec->Error(d.Id, c.Name);
            }
            return o.str();
        };
        w.Svc->RunFor(milliseconds(r.Range(0, 6000)));
        int phases = r.Range(1, 4);
        bool healthy = r.Chance(30); // the first device always answers well
        for (int ph = 0; ph < phases; ++ph) {
            dirty = false;
            std::set<std::string> was = clean;
            clean.clear();
            for (size_t di = 0; di < w.Devs.size(); ++di) {
                auto& m = modes[di];
                auto old = m.Mode;
                m = TDevMode();
                auto& d = w.Devs[di];
                m.Mode = r.Of({GOOD, FLAKY, FLAKY, DEAD, DEAD, PARTIAL});
                m.Kind = r.Chance(60) ? RandomDamage(r, w.Tcp) : -1;
                if (exact && r.Chance(60)) {
                    m.Kind = r.Of({D_SILENCE, D_EXCEPTION, D_TRUNCATED});
                }
                m.Percent = r.Of({5, 20, 50, 80});
                if (m.Mode == PARTIAL) {
                    if (!readable(d)) {
                        m.Mode = GOOD;
                    } else {
                        m.Part = &r.Pick(r.Pick(d.Chans).Parts);
                    }
                }
                if (healthy && di == 0) {
                    m.Mode = GOOD;
                } else if (healthy && (m.Kind < 0 || !Clean(m.Kind))) {
                    m.Kind = r.Of({D_SILENCE, D_EXCEPTION, D_TRUNCATED});
                }
                if (m.Mode == GOOD && old == GOOD && ph > 0) {
                    clean.insert(d.Id);
                }
            }
            // remains of a damaged answer may spoil the next good ones of others, which the line cannot prevent
            bool spoils = false;
            for (auto& m: modes) {
                spoils = spoils || late || m.Mode != GOOD && (m.Kind < 0 || !Clean(m.Kind));
            }
            if (spoils) {
                clean.clear();
            }
            for (auto& d: w.Devs) {
                if (clean.count(d.Id) && w.Svc->Rec->DeviceError(d.Id).empty()) {
                    mon::Count("clean-device-phases");
                } else {
                    clean.erase(d.Id);
                }
            }
            auto reads = w.ReadsDelivered;
            bool longPhase = r.Chance(60);
            w.Svc->RunFor(longPhase ? milliseconds(r.Range(20000, 26000)) : milliseconds(r.Range(1000, 6000)));
            for (size_t di = 0; di < w.Devs.size(); ++di) {
                auto& d = w.Devs[di];
                auto& m = modes[di];
                auto why = [&] {
                    std::ostringstream o;
                    o << (w.Tcp ? "tcp" : "rtu") << " mode " << m.Mode << " kind " << (m.Kind < 0 ? "any" : DamageName(m.Kind)) << " "
                      << shown(d) << "; " << Describe(d) << "; devices " << w.Devs.size();
                    return o.str();
                };
                if (m.Mode == DEAD && longPhase && !late) {
                    for (auto& c: d.Chans) {
                        mon::Count("dead-controls-checked");
                        auto e = w.Svc->Rec->Error(d.Id, c.Name);
                        // a disconnected device is marked as a whole
                        MON_EXPECT((e + w.Svc->Rec->DeviceError(d.Id)).find('r') != std::string::npos, "no-error", c.Name << " of a device that does not answer: " << why());
                    }
                }
                if (clean.count(d.Id)) {
                    for (auto& c: d.Chans) {
                        for (auto& x: c.Parts) {
                            MON_EXPECT(!longPhase || w.ReadsDelivered[&x] > reads[&x], "starved-by-others",
                                       c.Name << " is not polled while another device is faulty: " << why());
                        }
                    }
                }
                if (exact && !dirty && w.Svc->Rec->DeviceError(d.Id).empty()) {
                    for (auto& c: d.Chans) {
                        bool known = true, bad = false;
                        for (auto& x: c.Parts) {
                            known = known && lastBad.count(&x);
                            bad = bad || lastBad[&x] == 1;
                        }
                        if (!known) {
                            continue;
                        }
                        mon::Count("error-flags-compared");
                        auto e = w.Svc->Rec->Error(d.Id, c.Name);
                        bool has = e.find('r') != std::string::npos;
                        MON_EXPECT(has == bad, bad ? "no-error:register" : "error-remains:register",
                                   c.Name << " has error " << mon::Quote(e) << ", its last request was " << (bad ? "damaged" : "answered") << ": " << why());
                    }
                }
            }
            mon::Count("phases");
        }
        // everything works again
        quiet = true;
        clean.clear();
        std::string healed = late && !w.Tcp ? "late-answer:not-healed:" : "not-healed:";
        for (auto& m: modes) {
            m = TDevMode();
        }
        w.Svc->RunFor(40s);
        for (auto& d: w.Devs) {
            auto why = [&] { return shown(d) + "; " + Describe(d) + "; devices " + std::to_string(w.Devs.size()); };
            auto de = w.Svc->Rec->DeviceError(d.Id);
            MON_EXPECT(de.empty(), (healed + "device").c_str(), d.Id << " has error " << de << ": " << why());
            for (size_t ci = 0; ci < d.Chans.size(); ++ci) {
                auto& c = d.Chans[ci];
                mon::Count("healed-controls-checked");
                auto e = w.Svc->Rec->Error(d.Id, c.Name);
                MON_EXPECT(e.empty(), (healed + "error").c_str(), c.Name << " has error " << e << ": " << why());
                auto* v = w.Svc->Rec->Value(d.Id, c.Name);
                if (!v) {
                    mon::Violation((healed + "no-value").c_str(), c.Name + ": " + why());
                    continue;
                }
                int di = 0;
                w.FindChan(d.Id, c.Name, &di);
                std::vector<std::string> items = c.Parts.size() > 1 ? WBMQTT::StringSplit(*v, ';') : std::vector<std::string>{*v};
                for (size_t i = 0; i < c.Parts.size() && i < items.size(); ++i) {
                    auto& x = c.Parts[i];
                    auto words = w.WordsOf(di, x);
                    codec::TValue t;
                    if (x.IsBit()) {
                        t.Text = words[0] ? "1" : "0";
                    } else {
                        t = codec::Decode(x.Spec, words);
                    }
                    if (t.Text && c.Parts.size() == 1) {
                        t.Text = c.Shown(*t.Text);
                    }
                    MON_EXPECT(t.Matches(items[i]), (healed + "value").c_str(),
                               c.Name << " shows " << mon::Quote(*v) << ", the device holds " << t.Str() << ": " << why());
                }
            }
        }
        mon::Count("histories");
        std::ostringstream o;
        o << (w.Tcp ? "tcp " : "rtu ") << w.Devs.size() << " devices, " << phases << " phases, first mode " << modes[0].Mode << ", "
          << w.Bus->Log.size() << " requests";
        mon::Sample(o.str());
        mon::Distinct(o.str() + Describe(w.Devs[0]));
    }
    MON_CHECK("M04", Case);
}
