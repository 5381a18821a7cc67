// S03: every register is polled at its pace, suspended devices are not polled
#include "msys.h"

namespace
{
    using namespace msys;
    using namespace sim;

    struct TReads
    {
        TTime Last{};
        uint64_t N = 0;
    };

    TProfile Plain(Rng& r)
    {
        TProfile p;
        p.Overlap = p.Strings = p.WriteAddr = p.OnOff = p.Multi = p.Limits = p.BitFields = p.Singles = false;
        p.MaxDevs = r.Of({1, 2, 3, 4});
        p.MaxClusters = r.Of({1, 2, 4});
        p.MaxPerCluster = r.Of({1, 3, 6});
        return p;
    }

    void Tame(TDev& d)
    {
        d.MinRead = d.RegHole = d.BitHole = d.MinInterval = d.RateLimitMs = d.GuardUs = d.FrameTimeout = d.ResponseTimeout = -1;
        d.DeviceTimeout = d.FailCycles = -1;
        for (auto& c: d.Chans) {
            c.ReadPeriodMs = 0;
            c.RateLimitMs = -1;
        }
    }

    // ---------------------------------------------------------------- pace on a bus without faults
    void Pace(Rng& r)
    {
        sim::Reset();
        TWorld w(r);
        auto p = Plain(r);
        w.Baud = r.Of({9600, 115200});
        w.MakeDevs(p);
        bool high = r.Chance(50), limits = r.Chance(50), portLimit = r.Chance(25), interval = r.Chance(20);
        size_t total = 0, lows = 0, highs = 0;
        double highLoad = 0; // part of time taken by registers with read periods
        int unit = w.Baud == 9600 ? 45 : 15; // more than a read of one register takes, ms
        for (auto& d: w.Devs) {
            Tame(d);
            if (interval && r.Chance(50)) {
                d.MinInterval = r.Of({100, 500, 2000});
            }
            if (limits && r.Chance(30)) {
                d.RateLimitMs = r.Of({100, 500, 2000});
            }
            for (auto& c: d.Chans) {
                ++total;
                if (high && r.Chance(30)) {
                    c.ReadPeriodMs = r.Of({200, 500, 1000, 3000, 7000});
                    if (highLoad + double(unit) / c.ReadPeriodMs > 0.4) {
                        c.ReadPeriodMs = 0;
                    } else {
                        highLoad += double(unit) / c.ReadPeriodMs;
                        ++highs;
                    }
                }
                if (!c.ReadPeriodMs) {
                    ++lows;
                    if (limits && r.Chance(40)) {
                        c.RateLimitMs = r.Of({0, 50, 300, 1000, 4000});
                    }
                }
            }
        }
        if (portLimit) {
            w.RateLimit = r.Of({1, 2, 5, 20, 50});
        }
        auto limitOf = [&](const TDev& d, const TChan& c) {
            return milliseconds(c.RateLimitMs >= 0 ? c.RateLimitMs : d.RateLimitMs >= 0 ? d.RateLimitMs : 0);
        };
        w.FillMemory();
        std::map<const TPart*, TReads> reads;
        std::vector<TTime> lowReads; // registers without periods
        std::vector<size_t> lowGroup;
        std::map<int, TTime> lastLow; // end of the last read, by device
        size_t maxGroup = 1;
        microseconds idle{0};
        TTime lastRequest = Now();
        bool suspended = false;
        auto start = Now();
        auto desc = [&](const TDev& d, const TChan& c) {
            std::ostringstream o;
            o << d.Id << "/" << c.Name << " period " << c.ReadPeriodMs << " limit " << limitOf(d, c) / 1ms << " min interval " << d.MinInterval
              << ", port limit " << w.RateLimit << ", " << total << " controls, baud " << w.Baud << "; " << Describe(d);
            return o.str();
        };
        w.Requested.push_back([&](int di, const TModbusRequest& q) {
            if (!q.IsRead()) {
                return;
            }
            auto gap = Now() - lastRequest;
            idle = std::max<microseconds>(idle, duration_cast<microseconds>(gap));
            lastRequest = Now();
            auto& d = w.Devs[di];
            size_t group = 0;
            bool lowSeen = false;
            for (auto& c: d.Chans) {
                for (auto& x: c.Parts) {
                    if (!x.Contains(EType(q.Fn), q.Addr, q.Count)) {
                        continue;
                    }
                    auto& s = reads[&x];
                    auto gap = s.N ? Now() - s.Last : 0ms;
                    if (s.N) {
                        if (c.ReadPeriodMs) {
                            mon::Count("periods-measured");
                            MON_EXPECT(gap + 150ms > milliseconds(c.ReadPeriodMs), "period-too-short", gap / 1ms << " ms: " << desc(d, c));
                            MON_EXPECT(gap < milliseconds(c.ReadPeriodMs) + 1200ms, "period-too-long", gap / 1ms << " ms: " << desc(d, c));
                            mon::Max("period-excess-ms", std::max<int64_t>(0, (gap - milliseconds(c.ReadPeriodMs)) / 1ms));
                        } else if (limitOf(d, c) > 0ms) {
                            mon::Count("limits-measured");
                            MON_EXPECT(gap + 30ms > limitOf(d, c), "faster-than-limit", gap / 1ms << " ms: " << desc(d, c));
                        }
                    }
                    s.Last = Now();
                    ++s.N;
                    if (!c.ReadPeriodMs) {
                        lowSeen = true;
                        ++group;
                        lowReads.push_back(Now());
                    }
                }
            }
            if (lowSeen) {
                if (d.MinInterval > 0 && lastLow.count(di)) {
                    mon::Count("intervals-measured");
                    MON_EXPECT(Now() - lastLow[di] + 30ms > milliseconds(d.MinInterval), "interval-too-short",
                               (Now() - lastLow[di]) / 1ms << " ms between reads of " << d.Id << ", at least " << d.MinInterval);
                }
                lastLow[di] = Now();
            }
            maxGroup = std::max(maxGroup, group);
        });
        w.Start();
        auto seconds = r.Range(10, 60);
        w.Svc->RunFor(std::chrono::seconds(seconds));
        (void)suspended;
        auto end = Now();
        // nothing is starved
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            auto& d = w.Devs[di];
            for (auto& c: d.Chans) {
                for (auto& x: c.Parts) {
                    auto& s = reads[&x];
                    auto gap = s.N ? end - s.Last : end - start;
                    if (c.ReadPeriodMs) {
                        MON_EXPECT(gap < milliseconds(c.ReadPeriodMs) + 1200ms, "period-too-long:end", gap / 1ms << " ms: " << desc(d, c));
                        continue;
                    }
                    // a full turn of all registers, twice the time each takes, at the rate of the port
                    double turn = total * unit / (1 - highLoad) * 3 + 1500;
                    turn += total * 1000.0 / std::max<double>(1, std::min<double>(w.RateLimit, 1000)) * 2;
                    size_t ofDev = d.Chans.size();
                    turn += std::max<int64_t>(limitOf(d, c) / 1ms, std::max(0, d.MinInterval) * int64_t(ofDev) * 2);
                    auto bound = milliseconds(int64_t(turn));
                    mon::Count("low-registers-judged");
                    if (end - start > bound) {
                        mon::Count("starvation-judged");
                        MON_EXPECT(gap < bound, "starved", "not read for " << gap / 1ms << " ms, bound " << turn << ", " << s.N << " reads in " << seconds << " s: " << desc(d, c));
                    }
                }
            }
        }
        if (portLimit) {
            size_t n = lowReads.size();
            size_t max = (seconds + 1) * (w.RateLimit + 1 + 3 * maxGroup);
            mon::Count("port-limits-judged");
            MON_EXPECT(n <= max, "port-limit-exceeded", n << " registers read in " << seconds << " s, limit " << w.RateLimit << " per second, largest group " << maxGroup);
            bool freely = !limits && !interval && lows && !highs && double(unit) * w.RateLimit < 300;
            if (freely) {
                MON_EXPECT(n + w.RateLimit * 2 + 2 >= size_t(w.RateLimit) * seconds, "port-limit-not-used", n << " registers read in " << seconds << " s, limit " << w.RateLimit << " per second");
                mon::Count("port-limits-used");
            }
        } else if (lows && !limits && !interval) {
            // the bus is not left idle
            mon::Max("idle-ms", idle / 1ms);
            mon::Count("idle-judged");
            MON_EXPECT(idle < 400ms, "idle", "no request for " << idle / 1ms << " ms, " << lows << " registers may be read at any time, " << Describe(w.Devs[0]));
        }
        std::ostringstream o;
        o << "pace: " << w.Devs.size() << " devices, " << highs << " with periods, " << lows << " without, " << w.Bus->Log.size() << " requests in " << seconds << " s";
        mon::Sample(o.str());
        mon::Distinct(o.str());
    }

    // ---------------------------------------------------------------- suspended polling
    void Suspend(Rng& r)
    {
        sim::Reset();
        TWorld w(r);
        auto p = Plain(r);
        p.MaxClusters = 2;
        w.Baud = r.Of({9600, 115200});
        w.MakeDevs(p);
        for (auto& d: w.Devs) {
            Tame(d);
            for (auto& c: d.Chans) {
                if (r.Chance(50)) {
                    c.RateLimitMs = r.Of({200, 1000});
                } else if (r.Chance(30)) {
                    c.ReadPeriodMs = r.Of({500, 2000});
                }
            }
            if (r.Chance(50)) {
                d.DeviceTimeout = r.Of({0, 500});
                d.FailCycles = 1;
            }
            d.ResponseTimeout = 20;
        }
        w.PortExtra["response_timeout_ms"] = 20;
        w.PortExtra["connection_timeout_ms"] = -1;
        w.FillMemory();
        struct TSt
        {
            bool Suspended = false, Dead = false;
            TTime Since{}, Changed{};
            uint64_t Suspensions = 0;
        };
        std::vector<TSt> st(w.Devs.size());
        std::map<const TPart*, TReads> reads;
        std::map<const TPart*, std::deque<TTime>> times;
        auto desc = [&](int di) {
            std::ostringstream o;
            o << w.Devs[di].Id << " suspended " << st[di].Suspended << " " << (Now() - st[di].Since) / 1ms << " ms ago, suspensions " << st[di].Suspensions
              << ", dead " << st[di].Dead << ", " << w.Devs.size() << " devices; " << Describe(w.Devs[di]);
            return o.str();
        };
        w.Requested.push_back([&](int di, const TModbusRequest& q) {
            auto& s = st[di];
            if (s.Suspended) {
                mon::Count("requests-while-suspended");
                MON_EXPECT(Now() - s.Since >= 10min - 1s, "polled-while-suspended", q.Str() << ": " << desc(di));
                s.Suspended = false;
                s.Changed = Now();
                mon::Count("suspensions-expired");
            }
            for (auto& c: w.Devs[di].Chans) {
                for (auto& x: c.Parts) {
                    if (q.IsRead() && x.Contains(EType(q.Fn), q.Addr, q.Count)) {
                        auto& rd = reads[&x];
                        auto gap = Now() - rd.Last;
                        auto least = c.ReadPeriodMs ? c.ReadPeriodMs - 150 : c.RateLimitMs - 30;
                        // two reads in a row may be closer after a resumption or a disconnection, three may not
                        auto& t = times[&x];
                        t.push_back(Now());
                        if (t.size() > 4) {
                            t.pop_front();
                        }
                        if (least > 0 && t.size() == 4 && !s.Dead && t.front() > s.Changed) {
                            mon::Count("paces-after-suspension");
                            MON_EXPECT(t.back() - t.front() > milliseconds(least) * 2, "too-often", "four reads of " << c.Name << " in " << (t.back() - t.front()) / 1ms
                                                                                                                       << " ms, period " << c.ReadPeriodMs << " limit " << c.RateLimitMs << ": " << desc(di));
                        }
                        (void)gap;
                        rd.Last = Now();
                        ++rd.N;
                    }
                }
            }
        });
        w.Start();
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            w.Slaves[w.Devs[di].Slave]->Fault = [&, di](const TModbusRequest& q) {
                TAnswer a;
                if (st[di].Dead) {
                    a.Kind = TAnswer::SILENCE;
                }
                return a;
            };
        }
        auto suspend = [&](int di) {
            auto dev = w.Svc->Device(w.Devs[di].Id);
            try {
                w.Svc->Client()->SuspendPoll(dev, Now());
            } catch (const std::exception& e) {
                MON_EXPECT(w.Devs[di].Chans.empty(), "suspend-failed", e.what() << ": " << desc(di));
                return;
            }
            st[di].Suspended = true;
            st[di].Since = Now();
            ++st[di].Suspensions;
            mon::Count("suspensions");
        };
        auto resume = [&](int di) {
            auto dev = w.Svc->Device(w.Devs[di].Id);
            bool was = st[di].Suspended;
            try {
                w.Svc->Client()->ResumePoll(dev);
                MON_EXPECT(was, "resumed-twice", desc(di));
            } catch (const std::exception& e) {
                // it could be resumed by the time limit but not polled yet
                MON_EXPECT(!was || Now() - st[di].Since >= 10min - 1s, "resume-failed", e.what() << ": " << desc(di));
                mon::Count("resumptions-refused");
                return;
            }
            st[di].Suspended = false;
            st[di].Changed = Now();
            mon::Count("resumptions");
        };
        w.Svc->RunFor(milliseconds(r.Range(1000, 5000)));
        int steps = r.Range(4, 14);
        bool longWait = r.Chance(15);
        for (int i = 0; i < steps; ++i) {
            int di = r.Below(w.Devs.size());
            auto& s = st[di];
            switch (r.Below(6)) {
                case 0:
                case 1:
                    // at any moment between the accesses to the bus
                    if (r.Chance(60)) {
                        sim::At(Now() + microseconds(r.Below(2000000)), [&, di] { suspend(di); }, true);
                    } else {
                        suspend(di);
                    }
                    break;
                case 2:
                    resume(di);
                    break;
                case 3:
                    s.Dead = true;
                    s.Changed = Now() + 60s;
                    break;
                case 4:
                    s.Dead = false;
                    s.Changed = Now() + 12s;
                    break;
                case 5:
                    // dies and is suspended as soon as the program has seen it
                    s.Dead = true;
                    s.Changed = Now() + 60s;
                    {
                        auto until = Now() + 8s;
                        auto dev = w.Svc->Device(w.Devs[di].Id);
                        while (Now() < until && dev->GetConnectionState() != TDeviceConnectionState::DISCONNECTED) {
                            w.Svc->Cycle();
                        }
                        suspend(di);
                        mon::Count("suspended-when-disconnected");
                    }
                    break;
            }
            w.Svc->RunFor(longWait && r.Chance(30) ? std::chrono::milliseconds(11min) : milliseconds(r.Range(10, 5000)));
            mon::Count("steps");
        }
        w.Svc->RunFor(2s);
        // Suspended devices come back
        bool expire = r.Chance(30);
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            st[di].Dead = false;
            st[di].Changed = Now() + 12s;
            if (st[di].Suspended && !expire) {
                resume(di);
                st[di].Changed = Now() + 12s;
            }
        }
        if (expire) {
            w.Svc->RunFor(10min + 15s);
        } else {
            w.Svc->RunFor(15s);
        }
        auto n = reads;
        w.Svc->RunFor(15s);
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            for (auto& c: w.Devs[di].Chans) {
                for (auto& x: c.Parts) {
                    mon::Count("resumed-registers");
                    MON_EXPECT(reads[&x].N > n[&x].N, "not-polled-again", c.Name << " is not read after resumption: " << desc(di));
                }
            }
            if (!w.Devs[di].Chans.empty()) {
                MON_EXPECT(w.Svc->Rec->DeviceError(w.Devs[di].Id).empty(), "error-stays", desc(di));
            }
        }
        std::ostringstream o;
        o << "suspend: " << w.Devs.size() << " devices, " << steps << " steps, " << w.Bus->Log.size() << " requests";
        mon::Sample(o.str());
        mon::Distinct(o.str());
    }

    void Case(Rng& r, uint64_t n)
    {
        if (n % 3) {
            Pace(r);
        } else {
            Suspend(r);
        }
        mon::Count("histories");
    }
    MON_CHECK("S03", Case);
}
