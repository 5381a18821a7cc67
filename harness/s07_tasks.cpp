// S07: tasks queued to a port
#include "msys.h"
#include "serial_client.h"

namespace
{
    using namespace msys;
    using namespace sim;

    struct TPlan
    {
        int Id = 0, Retries = 0, Runs = 0;
        TTime Queued{}, FirstRun{}, LastRun{};
        uint64_t CycleRun = 0; // cycle of the last run
        bool Done = false;
        microseconds Cost{0};
        int Query = -1; // index of a device to talk with
        int Children = 0;
        bool Throws = false;
    };

    struct TTask;

    struct TEnv
    {
        TWorld& W;
        mon::Rng& R;
        std::deque<TPlan> Plans;
        std::deque<int> Pending; // ids in the order they were queued, not run yet
        std::vector<std::weak_ptr<TTask>> Alive;
        microseconds Busy{0};    // time spent in tasks
        uint64_t Retries = 0, Nested = 0;
        bool InTask = false;
        uint64_t LastRetryCycle = 0;
        void Queue(bool nested);
    };

    struct TTask: ISerialClientTask
    {
        TEnv& Env;
        int Id;
        TTask(TEnv& e, int id): Env(e), Id(id)
        {}
        TRunResult Run(PFeaturePort port, TSerialClientDeviceAccessHandler& last, const std::list<PSerialDevice>& devices) override
        {
            auto& p = Env.Plans[Id];
            auto start = Now();
            ++p.Runs;
            MON_EXPECT(!Env.InTask, "task-inside-task", Id);
            MON_EXPECT(!p.Done, "run-again", "task " << Id << " runs for the " << p.Runs << "th time");
            MON_EXPECT(port.get() == Env.W.Svc->Client()->GetPort().get(), "wrong-port", Id);
            MON_EXPECT(devices == Env.W.Svc->Client()->GetDevices(), "wrong-devices", Id);
            if (p.Runs == 1) {
                p.FirstRun = Now();
                mon::Max("first-run-after-ms", (Now() - p.Queued) / 1ms);
                if (Env.Pending.empty() || Env.Pending.front() != Id) {
                    std::ostringstream s;
                    s << "task " << Id << " runs before task " << (Env.Pending.empty() ? -1 : Env.Pending.front()) << ", which was queued earlier";
                    mon::Violation("order", s.str());
                    for (auto i = Env.Pending.begin(); i != Env.Pending.end(); ++i) {
                        if (*i == Id) {
                            Env.Pending.erase(i);
                            break;
                        }
                    }
                } else {
                    Env.Pending.pop_front();
                }
            } else {
                MON_EXPECT(p.CycleRun != Env.W.Svc->Cycles, "retried-at-once", "task " << Id << " runs " << p.Runs << " times in one cycle");
                ++Env.Retries;
            }
            p.CycleRun = Env.W.Svc->Cycles;
            Env.InTask = true;
            if (p.Query >= 0 && port->IsOpen()) {
                // as the tasks of the program do
                auto dev = Env.W.Svc->Device(Env.W.Devs[p.Query].Id);
                auto ok = last.PrepareToAccess(*port, dev);
                mon::Count(ok ? "sessions" : "failed-sessions");
            }
            Advance(p.Cost);
            for (int i = 0; i < p.Children; ++i) {
                Env.Queue(true);
            }
            Env.InTask = false;
            Env.Busy += duration_cast<microseconds>(Now() - start);
            auto& q = Env.Plans[Id];
            q.LastRun = Now();
            if (q.Runs <= q.Retries) {
                return TRunResult::RETRY;
            }
            q.Done = true;
            return TRunResult::OK;
        }
    };

    void TEnv::Queue(bool nested)
    {
        TPlan p;
        p.Id = Plans.size();
        p.Queued = Now();
        p.Cost = R.Chance(40) ? microseconds(0) : microseconds(R.Range(100, 40000));
        p.Retries = R.Chance(75) ? 0 : R.Range(1, 6);
        p.Query = R.Chance(30) ? int(R.Below(W.Devs.size())) : -1;
        p.Children = nested ? R.Chance(30) : R.Chance(15) ? R.Range(1, 3) : 0;
        Plans.push_back(p);
        Pending.push_back(p.Id);
        Nested += nested;
        auto t = std::make_shared<TTask>(*this, p.Id);
        Alive.push_back(t);
        W.Svc->Client()->AddTask(t);
    }

    void Case(mon::Rng& r, uint64_t)
    {
        TWorld w(r);
        TProfile p;
        p.MinDevs = 1;
        p.MaxDevs = 3;
        p.MaxClusters = 2;
        p.MaxPerCluster = 3;
        p.ReadPeriods = 20;
        w.Baud = r.Of({9600, 115200});
        w.MakeDevs(p);
        for (auto& d: w.Devs) {
            d.MinRead = d.RegHole = d.BitHole = d.MinInterval = d.RateLimitMs = -1;
            d.ResponseTimeout = 20;
            for (auto& c: d.Chans) {
                c.RateLimitMs = -1;
                if (c.ReadPeriodMs) {
                    c.ReadPeriodMs = r.Of({100, 500});
                }
            }
        }
        w.PortExtra["response_timeout_ms"] = 20;
        w.FillMemory();
        bool closed = false, dead = false;
        for (auto& d: w.Devs) {
            w.Slaves[d.Slave]->Fault = [&](const TModbusRequest&) {
                TAnswer a;
                if (dead) {
                    a.Kind = TAnswer::SILENCE;
                }
                return a;
            };
        }
        w.Start();
        w.Port->FailOpen = [&]() { return closed; };
        w.Port->FailWrite = [&]() {
            if (closed) {
                Advance(2ms);
                w.Port->CloseOnFail = true;
            }
            return closed;
        };
        TEnv env{w, r};
        bool chans = false;
        for (auto& d: w.Devs) {
            chans = chans || d.Chans.size();
        }
        // reads of each device
        std::vector<TTime> lastRead(w.Devs.size(), Now());
        std::vector<microseconds> worst(w.Devs.size());
        w.Requested.push_back([&](int di, const TModbusRequest& q) {
            if (q.IsRead()) {
                worst[di] = std::max(worst[di], duration_cast<microseconds>(Now() - lastRead[di]));
                lastRead[di] = Now();
            }
        });
        // the MQTT and RPC threads add tasks at any time
        int mode = r.Below(3); // rare, bursts, flood
        int total = mode == 0 ? r.Range(5, 40) : mode == 1 ? r.Range(40, 200) : r.Range(200, 500);
        auto t = Now() + 2s;
        int left = total;
        while (left > 0) {
            int n = std::min<int>(left, mode == 1 ? r.Range(1, 30) : 1);
            left -= n;
            t += mode == 0 ? milliseconds(r.Range(10, 2000)) : mode == 1 ? milliseconds(r.Range(10, 3000)) : microseconds(r.Range(100, 15000));
            At(t, [&, n]() {
                for (int i = 0; i < n; ++i) {
                    env.Queue(false);
                }
            });
        }
        if (r.Chance(40)) {
            auto from = Now() + milliseconds(r.Range(0, 10000));
            bool port = r.Chance(50);
            At(from, [&, port]() { (port ? closed : dead) = true; });
            At(from + milliseconds(r.Range(500, 15000)), [&]() { closed = dead = false; });
            mon::Count(port ? "closed-histories" : "dead-histories");
        }
        w.Svc->RunFor(1s);
        auto end = t + 100ms;
        auto floodStart = Now();
        bool faults = false;
        uint64_t slow = 0;
        while (Now() < end) {
            w.Svc->Cycle();
            faults = faults || closed || dead;
            // every queued task runs soon
            if (!env.Pending.empty()) {
                auto& x = env.Plans[env.Pending.front()];
                auto age = Now() - x.Queued;
                if (age > 1s) {
                    ++slow;
                }
            }
        }
        auto ran = Now();
        if (!faults && chans && mode == 2) {
            // the flood did not stop polling
            auto share = double(env.Busy.count()) / double(duration_cast<microseconds>(ran - floodStart).count());
            mon::Max("share-of-tasks-percent", share * 100);
            for (size_t di = 0; di < w.Devs.size(); ++di) {
                if (w.Devs[di].Chans.size()) {
                    auto gap = std::max(worst[di], duration_cast<microseconds>(Now() - lastRead[di]));
                    mon::Max("poll-gap-under-flood-ms", gap / 1ms);
                    mon::Count("floods-judged");
                    MON_EXPECT(gap < 30s, "polling-stopped", "not read for " << gap / 1ms << " ms while tasks take " << share << " of the time");
                }
            }
        }
        w.Svc->RunFor(60s);
        MON_EXPECT(env.Pending.empty(), "not-run", env.Pending.size() << " tasks did not run within 60 s");
        for (auto& x: env.Plans) {
            mon::Count("tasks");
            MON_EXPECT(x.Runs == x.Retries + 1, x.Runs < x.Retries + 1 ? "lost" : "repeated", "task " << x.Id << " of " << env.Plans.size() << " with " << x.Retries << " retries ran " << x.Runs << " times");
            mon::Count("retries", x.Retries);
        }
        for (auto& x: env.Alive) {
            MON_EXPECT(x.expired(), "kept", "a finished task is still kept");
        }
        mon::Count("nested", env.Nested);
        mon::Count("histories");
        std::ostringstream o;
        o << w.Devs.size() << " devices, mode " << mode << ", " << env.Plans.size() << " tasks (" << env.Nested << " queued by tasks), " << env.Retries << " retries, " << w.Bus->Log.size() << " requests";
        mon::Distinct(o.str());
        mon::Sample(o.str());
    }
    MON_CHECK("S07", Case);
}
