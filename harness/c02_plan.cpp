// C02: the poll plan against a list model, plus closed-loop runs that watch starvation and rate windows.
#include "mon.h"
#include "poll_plan.h"
#include <list>

using mon::Rng;
using namespace std::chrono;
using namespace std::chrono_literals;
using TP = steady_clock::time_point;

namespace
{
    struct TEntry
    {
        int Id;
        int Rank;
        bool operator==(const TEntry& o) const
        {
            return Id == o.Id;
        }
    };
    struct TRankLess
    {
        bool operator()(const TEntry& a, const TEntry& b) const
        {
            return a.Rank < b.Rank;
        }
    };
    using TSched = TScheduler<TEntry, TRankLess>;

    struct TModelItem
    {
        TEntry E;
        TP D;
    };
    using TModel = std::list<TModelItem>;

    TP Earliest(const TModel& m)
    {
        TP d = TP::max();
        for (const auto& i: m) {
            d = std::min(d, i.D);
        }
        return d;
    }

    std::string Str(const TModel& m, TP now)
    {
        std::string s;
        for (const auto& i: m) {
            s += " " + std::to_string(i.E.Id) + "@" + std::to_string((i.D - now).count() / 1000) + "us";
        }
        return s;
    }

    struct TCall
    {
        TEntry E;
        TItemAccumulationPolicy Policy;
        milliseconds Limit;
        bool Accepted;
    };

    struct TAcc
    {
        std::vector<TCall> Calls;
        std::function<bool(size_t)> Accept;
        bool operator()(const TEntry& e, TItemAccumulationPolicy p, milliseconds l)
        {
            bool a = Accept(Calls.size());
            Calls.push_back({e, p, l, a});
            return a;
        }
    };

    // Model of the queue pair and of the time balance
    void History(Rng& r, uint64_t)
    {
        milliseconds lag(r.Of<int>({1, 10, 100, 1000, 5000}));
        TSched s(lag);
        TModel q[2]; // 0: high, 1: low
        milliseconds total(0);
        int nextId = 0;
        TP now = TP() + seconds(100);
        std::string history;
        int served = 0, held = 0, removed = 0;
        int steps = 40 + r.Below(160);
        int maxQueue = 0;
        for (int step = 0; step < steps; ++step) {
            switch (r.Below(8)) {
                case 0:
                case 1:
                case 2: {
                    for (int n = 1 + r.Below(4); n > 0; --n) {
                        TEntry e{nextId++, int(r.Below(5))};
                        TP d = r.Chance(10) ? TP() : now + milliseconds(r.Range(-20, 60)) + microseconds(r.Below(3) * 400);
                        bool low = r.Chance(50);
                        s.AddEntry(e, d, low ? TPriority::Low : TPriority::High);
                        q[low].push_back({e, d});
                    }
                    break;
                }
                case 3: {
                    milliseconds d(r.Chance(20) ? r.Below(3 * lag.count() + 10) : r.Below(lag.count() + 3));
                    bool low = r.Chance(40);
                    s.UpdateSelectionTime(d, low ? TPriority::Low : TPriority::High);
                    total = low ? std::max(total - d, -2 * lag) : std::min(total + d, 2 * lag);
                    break;
                }
                case 4: {
                    if (nextId && r.Chance(50)) {
                        TEntry e{int(r.Below(nextId)), 0};
                        bool in = false;
                        for (auto& m: q) {
                            for (auto it = m.begin(); it != m.end(); ++it) {
                                in |= it->E == e;
                            }
                        }
                        MON_EXPECT(s.Contains(e) == in, "contains", "entry " << e.Id << Str(q[0], now) << " |" << Str(q[1], now));
                        if (r.Chance(60)) {
                            s.Remove(e);
                            for (auto& m: q) {
                                m.remove_if([&](const auto& i) { return i.E == e; });
                            }
                            removed += in;
                            MON_EXPECT(!s.Contains(e), "contains-removed", "entry " << e.Id);
                        }
                    }
                    break;
                }
                case 5:
                    if (r.Chance(20)) {
                        s.ResetLoadBalancing();
                        total = 0ms;
                    }
                    break;
                default: {
                    now += microseconds(r.Chance(30) ? 0 : r.Below(30000));
                    auto policy = r.Chance(70) ? TItemSelectionPolicy::All : TItemSelectionPolicy::OnlyHighPriority;
                    bool readyH = Earliest(q[0]) <= now, readyL = Earliest(q[1]) <= now;
                    bool force = policy == TItemSelectionPolicy::All && (total >= lag || q[0].empty());
                    bool low = !(readyH && (!force || !readyL));
                    milliseconds limit = milliseconds::max();
                    if (low && !q[0].empty()) {
                        auto d = ceil<milliseconds>(Earliest(q[0]) - now);
                        limit = d > 0ms ? d : std::max(0ms, total - lag);
                    }
                    TAcc acc;
                    size_t stop = r.Chance(50) ? 1000 : r.Below(4);
                    acc.Accept = [&](size_t i) { return i < stop; };
                    TModel before = q[low];
                    s.AccumulateNext(now, acc, policy);
                    auto where = [&] {
                        std::ostringstream o;
                        o << "now=" << (now - TP()).count() << " total=" << total.count() << " lag=" << lag.count()
                          << " high:" << Str(q[0], now) << " low:" << Str(q[1], now) << " calls:";
                        for (auto& c: acc.Calls) {
                            o << " " << c.E.Id << (c.Accepted ? "+" : "-");
                        }
                        return o.str();
                    };
                    mon::Count("selections");
                    bool expectAny = low ? readyL : true;
                    MON_EXPECT(acc.Calls.empty() != expectAny, expectAny ? "ready-entry-not-offered" : "offered-before-due",
                               where());
                    for (size_t i = 0; i < acc.Calls.size(); ++i) {
                        auto& c = acc.Calls[i];
                        mon::Count("offers");
                        auto it = q[low].begin();
                        while (it != q[low].end() && !(it->E == c.E)) {
                            ++it;
                        }
                        if (it == q[low].end()) {
                            bool other = false;
                            for (auto& x: q[!low]) {
                                other |= x.E == c.E;
                            }
                            mon::Violation(other ? "wrong-priority-served" : "served-twice-or-unknown", where());
                            return;
                        }
                        MON_EXPECT(it->D <= now, "offered-before-due", where());
                        MON_EXPECT(it->D == Earliest(q[low]), "not-earliest-first", where());
                        for (auto& x: q[low]) {
                            MON_EXPECT(!(x.D == it->D && TRankLess()(c.E, x.E)), "tie-order", where());
                        }
                        bool first = i == 0;
                        bool mustForce = first && (!low || force);
                        MON_EXPECT((c.Policy == TItemAccumulationPolicy::Force) == mustForce, "force-policy", where());
                        MON_EXPECT(c.Limit == limit, "poll-limit", where() << " limit " << c.Limit.count() << " expected "
                                                                           << limit.count());
                        if (c.Accepted) {
                            ++served;
                            q[low].erase(it);
                        } else {
                            ++held;
                            MON_EXPECT(i + 1 == acc.Calls.size(), "offered-after-refusal", where());
                        }
                    }
                    if (!acc.Calls.empty() && acc.Calls.back().Accepted) {
                        MON_EXPECT(!(Earliest(q[low]) <= now), "ready-entry-skipped", where());
                    }
                }
            }
            MON_EXPECT(s.IsEmpty() == (q[0].empty() && q[1].empty()), "is-empty", "");
            MON_EXPECT(s.GetHighPriorityDeadline() == Earliest(q[0]), "high-deadline", Str(q[0], now));
            MON_EXPECT(s.GetLowPriorityDeadline() == Earliest(q[1]), "low-deadline", Str(q[1], now));
            MON_EXPECT(s.GetDeadline() == std::min(Earliest(q[0]), Earliest(q[1])), "deadline", "");
            MON_EXPECT(s.GetTotalTime() == total, "balance", "got " << s.GetTotalTime().count() << " expected "
                                                                    << total.count() << " lag " << lag.count());
            maxQueue = std::max<int>(maxQueue, q[0].size() + q[1].size());
        }
        // drain: everything left is served exactly once
        now += seconds(3600);
        size_t left = q[0].size() + q[1].size();
        for (size_t guard = 0; guard < left + 5 && !s.IsEmpty(); ++guard) {
            TAcc acc;
            acc.Accept = [](size_t) { return true; };
            s.AccumulateNext(now, acc, TItemSelectionPolicy::All);
            for (auto& c: acc.Calls) {
                size_t n = q[0].size() + q[1].size();
                for (auto& m: q) {
                    m.remove_if([&](const auto& i) { return i.E == c.E; });
                }
                MON_EXPECT(q[0].size() + q[1].size() == n - 1, "served-twice-or-unknown", "drain " << c.E.Id);
            }
        }
        MON_EXPECT(q[0].empty() && q[1].empty() && s.IsEmpty(), "entry-lost", Str(q[0], now) << " |" << Str(q[1], now));
        mon::Count("served", served);
        mon::Count("refused", held);
        mon::Count("removed", removed);
        mon::Max("queue", maxQueue);
        if (served > 5 && held && removed) {
            mon::Distinct("h" + std::to_string(served) + "/" + std::to_string(held) + "/" + std::to_string(removed) + "/" +
                          std::to_string((now - TP()).count()));
            mon::Sample("history of " + std::to_string(steps) + " operations: " + std::to_string(served) + " served, " +
                        std::to_string(held) + " refusals, " + std::to_string(removed) + " removals");
        }
    }

    // Both classes always have something to do; each selection takes time
    void Starvation(Rng& r, uint64_t)
    {
        milliseconds lag(r.Of<int>({5, 100, 1000}));
        TSched s(lag);
        TP now = TP() + seconds(50);
        milliseconds highTime(r.Range(1, lag.count())), lowTime(r.Range(1, 2 * lag.count()));
        int nH = 1 + r.Below(4), nL = 1 + r.Below(4);
        for (int i = 0; i < nH; ++i) {
            s.AddEntry({i, 0}, now, TPriority::High);
        }
        for (int i = 0; i < nL; ++i) {
            s.AddEntry({100 + i, 0}, now, TPriority::Low);
        }
        milliseconds sinceLow(0), sinceHigh(0), worstLow(0), worstHigh(0);
        std::map<int, int> times;
        for (int i = 0; i < 600; ++i) {
            TAcc acc;
            acc.Accept = [](size_t n) { return n == 0; };
            s.AccumulateNext(now, acc, TItemSelectionPolicy::All);
            if (acc.Calls.empty()) {
                mon::Violation("nothing-selected", "both queues are ready");
                return;
            }
            auto e = acc.Calls[0].E;
            bool low = e.Id >= 100;
            // a low-priority item is only polled when it is forced or fits
            bool fits = acc.Calls[0].Policy == TItemAccumulationPolicy::Force || acc.Calls[0].Limit >= lowTime;
            MON_EXPECT(!low || fits, "low-offered-without-room", "");
            auto d = low ? lowTime : highTime;
            now += d;
            s.UpdateSelectionTime(d, low ? TPriority::Low : TPriority::High);
            s.AddEntry(e, now, low ? TPriority::Low : TPriority::High);
            ++times[e.Id];
            (low ? sinceLow : sinceHigh) = 0ms;
            (low ? sinceHigh : sinceLow) += d;
            worstLow = std::max(worstLow, sinceLow);
            worstHigh = std::max(worstHigh, sinceHigh);
        }
        std::ostringstream o;
        o << "lag " << lag.count() << " high poll " << highTime.count() << " low poll " << lowTime.count() << " longest wait of low "
          << worstLow.count() << " of high " << worstHigh.count();
        MON_EXPECT(worstLow <= 3 * lag + highTime, "low-starved", o.str());
        MON_EXPECT(worstHigh <= lag + lowTime, "high-starved", o.str());
        MON_EXPECT(times.size() == size_t(nH + nL), "entry-starved", o.str());
        for (auto& a: times) {
            for (auto& b: times) {
                if ((a.first >= 100) == (b.first >= 100)) {
                    MON_EXPECT(std::abs(a.second - b.second) <= 1, "unfair-within-class", o.str());
                }
            }
        }
        mon::Count("starvation-runs");
        mon::Distinct(o.str());
    }

    void Rate(Rng& r, uint64_t)
    {
        size_t limit = r.Of<int>({0, 1, 2, 5, 50});
        TRateLimiter l(limit);
        TP now = TP() + microseconds(r.Below(5000000));
        std::vector<TP> in;
        TP start = l.GetStartTime();
        std::vector<TP> starts;
        int over = 0;
        auto desc = [&] {
            std::ostringstream o;
            o << "limit " << limit << " now " << (now - TP()).count() << " start " << (l.GetStartTime() - TP()).count() << " items";
            for (auto& t: in) {
                o << " " << (t - TP()).count();
            }
            return o.str();
        };
        bool gated = r.Chance(70);
        for (int i = 0; i < 150; ++i) {
            now += microseconds(r.Chance(20)   ? r.Below(1500000)
                                : r.Chance(10) ? (1000000 - (now - TP()).count() / 1000 % 1000000) // to the edge of a second
                                               : r.Below(200000));
            bool o = l.IsOverLimit(now);
            if (limit == 0) {
                MON_EXPECT(!o, "limited-without-limit", desc());
            } else {
                // an item at the very instant where the window begins may belong to the previous one
                size_t inWindow = 0, edge = std::count(in.begin(), in.end(), l.GetStartTime());
                for (auto& t: in) {
                    inWindow += t > l.GetStartTime() && now - l.GetStartTime() <= 1s;
                }
                MON_EXPECT(!o || inWindow + edge > limit, "over-limit-too-early", desc());
                MON_EXPECT(o || inWindow <= limit, "over-limit-not-seen", desc());
                MON_EXPECT(!o || (!in.empty() && now - in.back() <= 1s), "over-limit-after-window", desc());
                MON_EXPECT(!l.IsOverLimit(now + 2s), "over-limit-after-window", desc());
            }
            over += o;
            if (o && gated) {
                continue;
            }
            l.NewItem(now);
            in.push_back(now);
            mon::Count("rate-items");
            if (limit == 0) {
                continue;
            }
            MON_EXPECT(l.GetStartTime() <= now && now - l.GetStartTime() <= 1s, "window-does-not-cover-item", desc());
            if (l.GetStartTime() != start) {
                MON_EXPECT(l.GetStartTime() >= start + 1s, "windows-overlap", desc());
                start = l.GetStartTime();
            }
            if (gated) {
                size_t n = 0;
                for (auto& t: in) {
                    n += t >= start && t <= start + 1s;
                }
                // items at the very end of the previous window may share the instant where the next one begins
                size_t edge = std::count(in.begin(), in.end(), start);
                MON_EXPECT(n - edge <= limit + 1, "rate-exceeded", desc());
            }
        }
        if (over > 3) {
            mon::Distinct("r" + std::to_string(limit) + desc());
            mon::Count("rate-limited-runs");
        }
    }

    void Case(Rng& r, uint64_t n)
    {
        for (int i = 0; i < 12; ++i) {
            History(r, n);
            Starvation(r, n);
            Rate(r, n);
        }
    }
    MON_CHECK("C02", Case);
}
