// S02: the connection state of a device follows its answers
#include "msys.h"

namespace
{
    using namespace msys;
    using namespace sim;

    struct TState
    {
        bool Answered = false;   // at least once
        TTime LastGood{};        // request of the last answer
        TTime LastGoodEnd{};     // end of the transfer
        int Fails = 0;           // failed transfers since then
        bool Pending = false, PendingGood = false; // the last request is not over yet
        TTime PendingAt{}, RefusedAt{};
        bool Down = false;
        bool ReadGood = true;    // a read was answered since it went down before
        bool Fresh = true;       // ... when it went down the last time
        std::vector<TTime> Attempts; // requests since it went down
        TTime LastRequest{};
        std::string Shown;
        uint64_t DownTimes = 0, UpTimes = 0;
    };

    enum EMode
    {
        GOOD,
        DEAD,
        FLAKY,
        SHORT // short losses: never as many in a row as the limit
    };

    void Case(Rng& r, uint64_t)
    {
        sim::Reset();
        TWorld w(r);
        TProfile p;
        p.Overlap = p.Strings = p.WriteAddr = p.OnOff = p.Multi = false;
        p.MinDevs = 1;
        p.MaxDevs = r.Of({1, 2, 3, 5});
        p.MaxClusters = 2;
        p.MaxPerCluster = 4;
        p.Limits = false;
        p.ReadPeriods = r.Chance(25) ? 40 : 0;
        w.Baud = r.Of({9600, 115200});
        w.Tcp = r.Chance(20);
        w.MakeDevs(p);
        bool setup = false;
        for (auto& d: w.Devs) {
            d.MinRead = d.RegHole = d.BitHole = d.MinInterval = d.RateLimitMs = -1;
            d.DeviceTimeout = r.Of({-1, -1, 0, 500, 1000, 3000, 7000});
            d.FailCycles = r.Of({-1, -1, 0, 1, 2, 5, 10});
            d.ResponseTimeout = r.Of({-1, 20, 50});
            for (auto& c: d.Chans) {
                c.RateLimitMs = -1;
            }
            if (r.Chance(40)) {
                TSetup s;
                s.Part.RegType = "holding";
                s.Part.Addr = 64000;
                s.Value = "7";
                d.Setup.push_back(s);
                setup = true;
            }
        }
        w.PortExtra["response_timeout_ms"] = r.Of({20, 50, 100});
        w.PortExtra["connection_timeout_ms"] = -1;
        w.FillMemory();
        std::vector<TState> st(w.Devs.size());
        std::vector<EMode> modes(w.Devs.size(), GOOD);
        std::vector<int> percent(w.Devs.size(), 50), streak(w.Devs.size(), 0);
        auto timeout = [&](int di) { return milliseconds(w.Devs[di].DeviceTimeout < 0 ? 3000 : w.Devs[di].DeviceTimeout); };
        auto cycles = [&](int di) { return w.Devs[di].FailCycles < 0 ? 2 : w.Devs[di].FailCycles; };
        auto single = [&](int di) {
            int high = 0;
            for (auto& c: w.Devs[di].Chans) {
                high += c.ReadPeriodMs > 0;
            }
            return !high || high == int(w.Devs[di].Chans.size());
        };
        auto why = [&](int di) {
            auto& s = st[di];
            std::ostringstream o;
            o << "at " << Now().time_since_epoch() / 1ms << " ms: " << w.Devs[di].Id << (w.Tcp ? " tcp" : " rtu") << " timeout " << timeout(di) / 1ms << " ms, cycles " << cycles(di) << ", "
              << s.Fails << " failures since the last answer " << (s.Answered ? (Now() - s.LastGoodEnd) / 1ms : -1) << " ms ago, shown "
              << mon::Quote(s.Shown) << ", " << w.Devs.size() << " devices; " << Describe(w.Devs[di]);
            return o.str();
        };
        // registers with read periods that time out leave little time for the others
        bool periods = false;
        for (auto& d: w.Devs) {
            for (auto& c: d.Chans) {
                periods = periods || c.ReadPeriodMs > 0;
            }
        }
        TTime calm = Now(); // since then no device changes between good and bad
        // The transfer in progress is over: the next request has come
        auto settle = [&](int di) {
            auto& s = st[di];
            if (!s.Pending) {
                return;
            }
            s.Pending = false;
            if (s.PendingGood) {
                s.Answered = true;
                s.LastGood = s.PendingAt;
                s.LastGoodEnd = Now();
                s.Fails = 0;
                mon::Count("good-transfers");
                MON_EXPECT(s.Shown.empty(), "error-after-answer", "the device is shown as failing after it answered: " << why(di));
            } else {
                ++s.Fails;
                mon::Count("failed-transfers");
                bool must = s.Fails >= cycles(di) && (!s.Answered || s.PendingAt - s.LastGoodEnd > timeout(di));
                if (must) {
                    mon::Count("must-be-down");
                    MON_EXPECT(!s.Shown.empty(), "not-disconnected", "the device is not shown as failing: " << why(di));
                }
            }
        };
        w.Requested.push_back([&](int di, const TModbusRequest& q) {
            for (size_t i = 0; i < st.size(); ++i) {
                settle(i);
            }
            auto& s = st[di];
            s.Pending = true;
            s.PendingGood = false;
            s.PendingAt = Now();
            if (s.Down) {
                s.Attempts.push_back(Now());
            }
            s.LastRequest = Now();
        });
        w.Answered.push_back([&](int di, const TModbusRequest& q, const TBytes& a, bool delivered) {
            // a refused write is an answer too
            st[di].PendingGood = (delivered && !(a[0] & 0x80)) || st[di].RefusedAt == Now();
            st[di].ReadGood = st[di].ReadGood || (st[di].PendingGood && q.IsRead());
        });
        std::vector<bool> refuses(w.Devs.size());
        std::set<std::string> clean; // devices that always answer
        w.OnPub = [&](const std::string& dev, const std::string& ctl, bool error, const std::string& text) {
            if (!error) {
                return;
            }
            if (text.find_first_of("rw") != std::string::npos) {
                MON_EXPECT(!clean.count(dev) || (!ctl.empty() && text.find('r') == std::string::npos && refuses[0]), "foreign-error", dev << "/" << ctl << " error " << text << " while the device answers well");
            }
            if (!ctl.empty()) {
                return;
            }
            for (size_t di = 0; di < w.Devs.size(); ++di) {
                if (w.Devs[di].Id != dev) {
                    continue;
                }
                auto& s = st[di];
                s.Shown = text;
                if (text.find_first_of("rw") != std::string::npos) {
                    mon::Count("device-errors");
                    ++s.DownTimes;
                    // the transfer that made it is not counted yet
                    int fails = s.Fails + (s.Pending && !s.PendingGood);
                    MON_EXPECT(!s.PendingGood || !s.Pending, "error-on-answer", why(di));
                    if (s.Answered) {
                        MON_EXPECT(fails >= cycles(di), "too-few-failures", why(di));
                        MON_EXPECT(Now() - s.LastGood > timeout(di), "too-early", why(di));
                        mon::Count("disconnections-judged");
                    }
                    s.Down = true;
                    s.Fresh = s.ReadGood;
                    s.ReadGood = false;
                    s.Attempts.clear();
                } else {
                    mon::Count("device-errors-cleared");
                    ++s.UpTimes;
                    MON_EXPECT(s.PendingGood || !s.Down, "connected-without-answer", why(di));
                    s.Down = false;
                }
            }
        };
        w.Start();
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            refuses[di] = r.Chance(30);
            w.Slaves[w.Devs[di].Slave]->Fault = [&, di](const TModbusRequest& q) {
                TAnswer a;
                a.Delay = milliseconds(r.Below(8));
                bool bad = modes[di] == DEAD || modes[di] == FLAKY && r.Chance(percent[di]) ||
                           modes[di] == SHORT && r.Chance(percent[di]) && streak[di] + 1 < cycles(di);
                streak[di] = bad ? streak[di] + 1 : 0;
                if (!bad && refuses[di] && q.IsWrite() && q.Addr != 64000) {
                    TBytes pdu{uint8_t(q.Fn | 0x80), uint8_t(r.Of({1, 2, 3}))};
                    a.Kind = TAnswer::RAW_NOEXEC;
                    a.Raw = w.Tcp ? TcpFrame(q.Tid, q.Slave, pdu) : RtuFrame(q.Slave, pdu);
                    mon::Count("refused-writes");
                    st[di].RefusedAt = Now();
                    st[di].PendingGood = true;
                    return a;
                }
                if (bad) {
                    a.Kind = q.IsRead() && r.Chance(30) ? TAnswer::LOST : TAnswer::SILENCE;
                }
                return a;
            };
        }
        // Phases
        int phases = r.Range(2, 6);
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            modes[di] = r.Of({GOOD, GOOD, GOOD, DEAD});
        }
        std::vector<EMode> all;
        bool healthy = w.Devs.size() > 1 && r.Chance(50);
        if (healthy) {
            modes[0] = GOOD;
            clean.insert(w.Devs[0].Id);
        }
        for (int ph = 0; ph < phases; ++ph) {
            auto started = Now();
            bool longPhase = r.Chance(40);
            std::vector<uint64_t> before;
            for (auto& d: w.Devs) {
                before.push_back(w.Slaves[d.Slave]->Log.size());
            }
            auto dur = longPhase ? milliseconds(r.Range(25000, 90000)) : milliseconds(r.Range(200, 9000));
            for (size_t di = 0; di < w.Devs.size(); ++di) {
                auto& d = w.Devs[di];
                for (int k = 0; k < 3 && refuses[di] && modes[di] == GOOD && !st[di].Down && st[di].Answered && d.Chans.size(); ++k) {
                    auto& c = r.Pick(d.Chans);
                    if (!c.ReadOnly && c.Parts.size() == 1) {
                        w.Svc->Write(d.Id, c.Name, w.RandomText(c.Parts[0]));
                    }
                    w.Svc->RunFor(milliseconds(r.Range(100, 400)));
                }
            }
            w.Svc->RunFor(dur);
            for (size_t di = 0; di < w.Devs.size(); ++di) {
                auto& s = st[di];
                if (modes[di] == GOOD && longPhase && w.Devs[di].Chans.size()) {
                    MON_EXPECT(s.Shown.empty(), "stays-disconnected", "answers for " << dur / 1ms << " ms: " << why(di));
                    for (auto& c: w.Devs[di].Chans) {
                        auto e = w.Svc->Rec->Error(w.Devs[di].Id, c.Name);
                        mon::Count("healed-controls");
                        MON_EXPECT(e.find('r') == std::string::npos, "error-stays", c.Name << " " << e << " after " << dur / 1ms << " ms of answers: " << why(di));
                    }
                    auto& log = w.Slaves[w.Devs[di].Slave]->Log;
                    // it is polled again and again
                    TTime last = started + 12s;
                    microseconds gap{0};
                    for (auto& q: log) {
                        if (q.At > last) {
                            gap = std::max<microseconds>(gap, duration_cast<microseconds>(q.At - last));
                            last = q.At;
                        }
                    }
                    gap = std::max<microseconds>(gap, duration_cast<microseconds>(Now() - last));
                    mon::Max("good-device-gap-ms", gap / 1ms);
                    mon::Count("good-device-long-phases");
                    MON_EXPECT(gap < 4s, "blocked-by-others", "not polled for " << gap / 1ms << " ms: " << why(di));
                }
                if (s.Down && w.Devs[di].Chans.size()) {
                    // pauses of a device that does not answer grow up to a limit
                    bool one = single(di);
                    for (size_t k = 1; k < s.Attempts.size(); ++k) {
                        auto gap = s.Attempts[k] - s.Attempts[k - 1];
                        mon::Count("pauses");
                        mon::Max("pause-ms", gap / 1ms);
                        auto low = milliseconds(std::min<int64_t>(int64_t(k) * 500 - 500, 10000));
                        auto high = milliseconds(s.Fresh ? std::min<int64_t>(int64_t(k) * 500 + 500, 10500) : 10500);
                        if (one) {
                            MON_EXPECT(gap + 100ms >= low, "polled-too-often", "pause " << k << " is " << gap / 1ms << " ms: " << why(di));
                        }
                        MON_EXPECT(gap < high + (periods ? 5000ms : 2500ms), "pause-too-long", "pause " << k << " is " << gap / 1ms << " ms: " << why(di));
                    }
                    auto tail = Now() - (s.Attempts.empty() ? Now() : s.Attempts.back());
                    MON_EXPECT(tail < (periods ? 15500ms : 13000ms), "given-up", "no attempt for " << tail / 1ms << " ms: " << why(di));
                    if (one && s.Attempts.size() > 10) {
                        mon::Count("long-disconnections");
                    }
                }
                if (modes[di] == DEAD && longPhase && w.Devs[di].Chans.size()) {
                    MON_EXPECT(!s.Shown.empty(), "not-disconnected:long", "does not answer for " << dur / 1ms << " ms: " << why(di));
                }
            }
            for (size_t di = healthy ? 1 : 0; di < w.Devs.size(); ++di) {
                if (r.Chance(70)) {
                    modes[di] = r.Of({GOOD, GOOD, DEAD, DEAD, FLAKY, SHORT});
                    percent[di] = r.Of({10, 30, 60, 90});
                    streak[di] = 0;
                }
            }
            mon::Count("phases");
        }
        for (auto& m: modes) {
            m = GOOD;
        }
        w.Svc->RunFor(35s);
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            auto& d = w.Devs[di];
            if (d.Chans.empty()) {
                continue;
            }
            MON_EXPECT(st[di].Shown.empty(), "stays-disconnected:end", why(di));
            for (auto& c: d.Chans) {
                auto e = w.Svc->Rec->Error(d.Id, c.Name);
                MON_EXPECT(e.find('r') == std::string::npos && (refuses[di] || e.find('w') == std::string::npos), "error-stays:end", c.Name << " " << e << ": " << why(di));
            }
        }
        if (setup) {
            mon::Count("histories-with-setup");
        }
        std::ostringstream o;
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            o << (di ? "; " : "") << "timeout " << timeout(di) / 1ms << " cycles " << cycles(di) << " down " << st[di].DownTimes << " up " << st[di].UpTimes;
            if (st[di].DownTimes && st[di].UpTimes) {
                mon::Distinct(o.str() + std::to_string(w.Bus->Log.size()));
            }
        }
        mon::Sample(o.str());
        mon::Count("histories");
        mon::Count("requests", w.Bus->Log.size());
    }
    MON_CHECK("S02", Case);
}
