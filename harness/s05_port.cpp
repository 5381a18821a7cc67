// S05: failures of the port
#include "msys.h"

namespace
{
    using namespace msys;
    using namespace sim;

    enum EPhase
    {
        FINE,
        NO_OPEN,  // the port is lost and cannot be opened
        BAD_IO,   // reads and writes fail
        SOME_IO,  // some of them
        DEAD,     // nobody answers
        ONE_DEAD, // all but one answer
    };
    const char* Names[] = {"fine", "no-open", "bad-io", "some-io", "dead", "one-dead"};

    struct TState
    {
        TTime LastGood{}, LastSetup{}, LastRead{};
        bool EverGood = false, NeedSetup = true;
        uint64_t SetupWrites = 0, Ups = 0;
        std::string Shown;
    };

    void Case(mon::Rng& r, uint64_t)
    {
        TWorld w(r);
        TProfile p;
        p.MinDevs = 1;
        p.MaxDevs = 4;
        p.MaxClusters = 2;
        p.MaxPerCluster = 3;
        p.ReadPeriods = 15;
        p.WriteAddr = false;
        w.MakeDevs(p);
        for (auto& d: w.Devs) {
            d.DeviceTimeout = r.Of({-1, 0, 500, 3000, 5000});
            d.FailCycles = r.Of({-1, 0, 1, 2, 5});
            d.ResponseTimeout = r.Of({-1, 20, 50});
            d.MinRead = d.RegHole = d.BitHole = -1;
            d.MinInterval = -1;
            d.RateLimitMs = -1;
            d.MaxWriteFail = -1;
            for (auto& c: d.Chans) {
                c.RateLimitMs = -1;
                if (c.ReadPeriodMs) {
                    c.ReadPeriodMs = r.Of({100, 1000, 3000});
                }
            }
            if (r.Chance(60)) {
                TSetup s;
                s.Part.RegType = "holding";
                s.Part.Addr = 64000;
                s.Value = "7";
                d.Setup.push_back(s);
            }
        }
        int maxFail = r.Of({-1, 0, 1000, 5000, 5000, 20000}), maxCycles = r.Of({0, 1, 2, 2, 5});
        w.PortExtra["response_timeout_ms"] = r.Of({20, 50, 100});
        bool explicitLimits = r.Chance(80);
        if (explicitLimits) {
            w.PortExtra["connection_timeout_ms"] = maxFail;
            w.PortExtra["connection_max_fail_cycles"] = maxCycles;
        } else {
            maxFail = 5000;
            maxCycles = 2;
        }
        w.FillMemory();
        std::vector<TState> st(w.Devs.size());
        EPhase phase = r.Chance(30) ? NO_OPEN : FINE;
        TTime phaseAt = Now(), lastGoodRead = Now(), lastOpened{};
        int closing = r.Of({0, 1, 2}); // failing operations close the port: never, always, at random
        int percent = 50;
        size_t alive = 0;
        std::function<void()> undo; // forgets the last answer: it could not be read
        uint64_t readPolls = 0; // attempts since the last good read
        auto why = [&]() {
            std::ostringstream o;
            o << "in phase " << Names[phase] << " for " << (Now() - phaseAt) / 1ms << " ms, port " << (w.Port->Opened ? "open" : "closed")
              << ", connection timeout " << maxFail << " ms, cycles " << maxCycles << (explicitLimits ? "" : " (default)") << ", " << w.Devs.size()
              << " devices, last good read " << (Now() - lastGoodRead) / 1ms << " ms ago; ";
            for (size_t i = 0; i < w.Devs.size(); ++i) {
                o << w.Devs[i].Id << " timeout " << w.Devs[i].DeviceTimeout << " cycles " << w.Devs[i].FailCycles << " shown " << mon::Quote(st[i].Shown) << "; ";
            }
            return o.str();
        };
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            w.Slaves[w.Devs[di].Slave]->Fault = [&, di](const TModbusRequest& q) {
                TAnswer a;
                if (phase == DEAD || (phase == ONE_DEAD && di == alive)) {
                    a.Kind = TAnswer::SILENCE;
                }
                return a;
            };
        }
        w.Requested.push_back([&](int di, const TModbusRequest& q) {
            undo = nullptr;
            auto& s = st[di];
            if (q.IsRead()) {
                s.LastRead = Now();
                ++readPolls;
                if (w.Devs[di].Setup.size()) {
                    mon::Count("reads-after-setup-judged");
                    MON_EXPECT(!s.NeedSetup, "read-before-setup", w.Devs[di].Id << " " << why());
                }
            } else if (q.Addr == 64000) {
                ++s.SetupWrites;
            }
        });
        w.Answered.push_back([&](int di, const TModbusRequest& q, const TBytes& a, bool delivered) {
            auto& s = st[di];
            if (!delivered || (a[0] & 0x80)) {
                return;
            }
            undo = [&s, &lastGoodRead, a = s.LastGood, b = lastGoodRead, c = s.NeedSetup]() {
                s.LastGood = a;
                lastGoodRead = b;
                s.NeedSetup = c;
            };
            s.LastGood = Now();
            s.EverGood = true;
            if (q.IsRead()) {
                lastGoodRead = Now();
                readPolls = 0;
            } else if (q.Addr == 64000) {
                s.NeedSetup = false;
            }
        });
        w.OnPub = [&](const std::string& dev, const std::string& ctl, bool error, const std::string& text) {
            if (!error || !ctl.empty()) {
                return;
            }
            for (size_t di = 0; di < w.Devs.size(); ++di) {
                if (w.Devs[di].Id == dev) {
                    st[di].Shown = text;
                    if (text.empty()) {
                        ++st[di].Ups;
                        mon::Count("devices-up");
                    } else {
                        st[di].NeedSetup = true;
                        mon::Count("devices-down");
                    }
                }
            }
        };
        w.Start();
        auto& port = *w.Port;
        port.FailOpen = [&]() { return phase == NO_OPEN; };
        bool faulted = false;
        auto io = [&](bool write) {
            bool fail = phase == BAD_IO || phase == NO_OPEN || (phase == SOME_IO && r.Chance(percent));
            if (fail) {
                port.CloseOnFail = closing == 1 || (closing == 2 && r.Chance(50));
                faulted = faulted || port.CloseOnFail;
                if (write) {
                    Advance(2ms);
                } else {
                    port.DropRx();
                    if (undo) {
                        undo();
                    }
                }
            }
            return fail;
        };
        port.FailWrite = [&]() { return io(true); };
        port.FailRead = [&]() { return io(false); };
        if (phase != NO_OPEN && !port.Opened && r.Chance(50)) {
            w.Svc->RunFor(2s);
        }
        std::map<std::pair<int, int>, std::pair<TTime, std::string>> written;
        std::vector<std::string> history;
        int phases = r.Range(2, 5);
        for (int k = 0; k <= phases; ++k) {
            if (k == phases) {
                phase = FINE;
            } else if (k) {
                phase = r.Of({FINE, NO_OPEN, BAD_IO, SOME_IO, DEAD, DEAD, ONE_DEAD});
            }
            if (phase == NO_OPEN && k && r.Chance(70)) {
                // as when an adapter is unplugged: closed by a failing operation
                closing = 1;
            }
            phaseAt = Now();
            percent = r.Of({5, 30, 70});
            alive = r.Below(w.Devs.size());
            bool longPhase = k == phases || r.Chance(50);
            auto dur = k == phases ? 45000ms : longPhase ? milliseconds(r.Range(40000, 100000)) : milliseconds(r.Range(100, 12000));
            history.push_back(std::string(Names[phase]) + " " + std::to_string(dur / 1ms));
            auto end = Now() + dur;
            uint64_t closes = port.Closes, closedCycles = 0, idle = 0;
            TTime closedAt = port.Opened ? TTime{} : Now(), closedSince{};
            microseconds closedTime{0};
            size_t tries = port.OpenTryTimes.size(), firstTry = tries;
            bool opened = port.Opened;
            while (Now() < end) {
                auto before = Now();
                auto use = port.UseWhenClosed;
                bool wasOpen = port.Opened;
                auto c0 = port.Closes, opens = port.Opens;
                faulted = false;
                if (r.Chance(1) && k < phases) {
                    int di = r.Below(w.Devs.size());
                    auto& d = w.Devs[di];
                    if (d.Chans.size()) {
                        int ci = r.Below(d.Chans.size());
                        auto& c = d.Chans[ci];
                        if (!c.ReadOnly && c.Parts.size() == 1) {
                            auto v = w.RandomText(c.Parts[0]);
                            if (w.Svc->Write(d.Id, c.Name, v)) {
                                written[{di, ci}] = {Now(), v};
                                mon::Count("writes");
                            }
                        }
                    }
                }
                w.Svc->Cycle();
                if (port.UseWhenClosed != use) {
                    // an operation of the cycle in which the port was closed by a failure may still try once or twice
                    MON_EXPECT(faulted, "closed-port-used", port.UseWhenClosed - use << " times " << why());
                    mon::Count("uses-after-failure", port.UseWhenClosed - use);
                }
                if (port.Closes != c0 && !faulted) {
                    mon::Count("closed-by-failures");
                    bool allowed = maxFail >= 0;
                    MON_EXPECT(allowed, "closed:disabled", why());
                    MON_EXPECT(Now() - lastGoodRead > milliseconds(maxFail), "closed-early", why());
                    MON_EXPECT(Now() - port.OpenTryTimes.back() > milliseconds(maxFail), "closed-early:after-open", why());
                    bool any = false;
                    for (auto& s: st) {
                        any = any || s.Shown == "r";
                    }
                    MON_EXPECT(any, "closed-without-failed-device", why());
                }
                if (!wasOpen && !port.Opened && opens == port.Opens) {
                    ++closedCycles;
                    closedTime += duration_cast<microseconds>(Now() - before);
                    // tries to open it
                    if (port.OpenTryTimes.size()) {
                        auto gap = Now() - port.OpenTryTimes.back();
                        MON_EXPECT(gap < 6500ms, "not-reopened", "not tried for " << gap / 1ms << " ms " << why());
                    } else {
                        MON_EXPECT(Now() - phaseAt < 1500ms, "never-opened", why());
                    }
                }
                if (port.Opened && !opened) {
                    lastOpened = Now();
                    mon::Count("reopened");
                }
                opened = port.Opened;
                for (; tries < port.OpenTryTimes.size(); ++tries) {
                    if (tries > firstTry && phase == NO_OPEN) {
                        auto gap = port.OpenTryTimes[tries] - port.OpenTryTimes[tries - 1];
                        mon::Count("open-tries");
                        mon::Max("open-try-gap-ms", gap / 1ms);
                        MON_EXPECT(gap >= 4900ms, "opened-too-often", gap / 1ms << " ms " << why());
                    }
                }
                idle = Now() > before ? 0 : idle + 1;
                MON_EXPECT(idle < 50, "no-time", why());
            }
            if (closedTime > 2s) {
                auto perSecond = closedCycles * 1000000 / closedTime.count();
                mon::Max("closed-cycles-per-s", perSecond);
                MON_EXPECT(perSecond <= 5, "spins", perSecond << " cycles per second with the port closed " << why());
            }
            mon::Count(std::string("phase-") + Names[phase]);
            auto all = [&](bool failing, const char* key) {
                for (size_t di = 0; di < w.Devs.size(); ++di) {
                    auto& d = w.Devs[di];
                    if (d.Chans.empty()) {
                        continue;
                    }
                    mon::Count(failing ? "failing-devices-judged" : "healthy-devices-judged");
                    MON_EXPECT((st[di].Shown == "r") == failing, std::string(key) + ":device", d.Id << " " << why());
                    for (auto& c: d.Chans) {
                        auto e = w.Svc->Rec->Error(d.Id, c.Name);
                        MON_EXPECT((e.find('r') != std::string::npos) == failing, std::string(key) + ":control", d.Id << "/" << c.Name << " shows " << mon::Quote(e) << " " << why());
                    }
                }
            };
            if (dur >= 40000ms) {
                switch (phase) {
                    case NO_OPEN:
                    case BAD_IO:
                    case DEAD:
                        all(true, Names[phase]);
                        if (phase == DEAD && maxFail >= 0 && dur > 5000ms + milliseconds(maxFail) + 11s * (maxCycles + 1)) {
                            bool chans = false;
                            for (auto& d: w.Devs) {
                                chans = chans || d.Chans.size();
                            }
                            if (chans) {
                                mon::Count("must-be-closed-judged");
                                MON_EXPECT(port.Closes > closes, "not-closed", why());
                            }
                        }
                        break;
                    case FINE:
                        all(false, "fine");
                        MON_EXPECT(port.Opened, "closed-when-fine", why());
                        for (size_t di = 0; di < w.Devs.size(); ++di) {
                            if (w.Devs[di].Chans.size()) {
                                auto gap = Now() - st[di].LastGood;
                                MON_EXPECT(gap < 5s, "not-polled", w.Devs[di].Id << " not polled for " << gap / 1ms << " ms " << why());
                            }
                        }
                        break;
                    default:
                        break;
                }
            }
        }
        // what was written meanwhile has reached the devices
        for (auto& [key, v]: written) {
            auto& d = w.Devs[key.first];
            auto& c = d.Chans[key.second];
            auto e = w.Svc->Rec->Error(d.Id, c.Name);
            mon::Count("writes-judged");
            MON_EXPECT(e.find('w') == std::string::npos, "write-lost", d.Id << "/" << c.Name << " shows " << e << " after a write of " << v.second << " " << (Now() - v.first) / 1ms << " ms ago " << why());
        }
        std::string h;
        for (auto& x: history) {
            h += (h.size() ? ", " : "") + x;
        }
        mon::Distinct(h + std::to_string(port.Opens) + "/" + std::to_string(port.Closes));
        mon::Sample(std::to_string(w.Devs.size()) + " devices, timeout " + std::to_string(maxFail) + ": " + h + "; opened " + std::to_string(port.Opens) + " times");
        mon::Count("histories");
        mon::Count("opens", port.Opens);
        mon::Count("requests", w.Bus->Log.size());
    }
    MON_CHECK("S05", Case);
}
