// M02: what read requests may ask for, exclusion of unavailable registers, polling of the others
#include "msys.h"

namespace
{
    using namespace msys;
    using namespace sim;

    struct TMon
    {
        TWorld& W;
        struct TDevState
        {
            std::set<const TPart*> Gone;
            bool ContinuousMaybe = false;
            int LastExceptionFn = 0;
        };
        std::vector<TDevState> S;
        uint64_t Requests = 0;

        explicit TMon(TWorld& w): W(w), S(w.Devs.size())
        {}

        std::vector<const TPart*> Inside(int di, const TModbusRequest& q) const
        {
            std::vector<const TPart*> res;
            for (auto& c: W.Devs[di].Chans) {
                for (auto& p: c.Parts) {
                    if (p.Contains(EType(q.Fn), q.Addr, q.Count)) {
                        res.push_back(&p);
                    }
                }
            }
            std::sort(res.begin(), res.end(), [](auto a, auto b) { return a->Addr < b->Addr; });
            return res;
        }

        void Request(int di, const TModbusRequest& q)
        {
            auto& d = W.Devs[di];
            if (!q.IsRead()) {
                if (!(q.Fn == 6 && q.Addr == 114)) {
                    mon::Violation("unrequested-write", q.Str());
                }
                S[di].ContinuousMaybe = true;
                return;
            }
            ++Requests;
            mon::Count("requests");
            auto show = [&] { return q.Str() + " of " + Describe(d); };
            MON_EXPECT(!q.Malformed, "malformed", show());
            bool bits = q.Fn <= 2;
            auto in = Inside(di, q);
            if (in.empty()) {
                mon::Violation("no-wanted-register", show());
                return;
            }
            if (in[0]->Addr != q.Addr) {
                mon::Violation("starts-before-wanted", show());
            }
            // amount
            uint32_t proto = bits ? 2000 : 125;
            uint32_t conf = d.MaxRead < 0 ? 1 : d.MaxRead;
            uint32_t limit = conf > 0 && conf <= proto ? conf : proto;
            uint32_t alone = 0;
            for (auto p: in) {
                if (p->Addr == q.Addr) {
                    alone = std::max(alone, p->Words());
                }
            }
            uint32_t min = d.MinRead > 0 ? d.MinRead : 0;
            bool amount = q.Count <= limit || q.Count == alone || q.Count == min;
            MON_EXPECT(amount, "over-limit", show());
            if (q.Count == limit) {
                mon::Count("at-limit");
            }
            // gaps
            uint32_t hole = std::max(0, bits ? d.BitHole : d.RegHole);
            if (S[di].ContinuousMaybe) {
                hole = std::max(hole, bits ? 80u : 10u);
            }
            uint32_t end = in[0]->Addr;
            uint32_t widest = 0;
            for (auto p: in) {
                if (p->Addr > end) {
                    widest = std::max(widest, p->Addr - end);
                }
                end = std::max(end, p->Addr + p->Words());
            }
            MON_EXPECT(widest <= hole || q.Count == min, "gap", "gap of " << widest << " with " << hole << " allowed: " << show());
            if (widest) {
                mon::Count("requests-with-gaps");
            }
            if (in.size() > 1) {
                mon::Count("grouped");
            }
            MON_EXPECT(end == q.Addr + q.Count || q.Count == min, "tail", show());
            // unavailable registers
            bool all = true;
            for (auto p: in) {
                all = all && S[di].Gone.count(p);
            }
            MON_EXPECT(!all, "asked-unavailable", show());
            mon::Distinct(show());
        }

        void Answer(int di, const TModbusRequest& q, const TBytes& a, bool delivered)
        {
            if (!q.IsRead() || !delivered || a.size() != 2 || !(a[0] & 0x80) || a[1] < 1 || a[1] > 3) {
                return;
            }
            mon::Count("exceptions");
            auto in = Inside(di, q);
            if (in.size() == 1 && in[0]->Words() == q.Count && !W.Devs[di].ContinueOnIllegal) {
                S[di].Gone.insert(in[0]);
                mon::Count("unavailable");
            }
        }
    };

    void Case(Rng& r, uint64_t)
    {
        sim::Reset();
        TWorld w(r);
        TProfile p;
        p.Continuous = true;
        p.MaxPerCluster = 12;
        w.Baud = r.Of({9600, 19200, 115200});
        w.Tcp = r.Chance(15);
        w.MakeDevs(p);
        std::vector<bool> legalOnly(w.Devs.size());
        for (auto& d: w.Devs) {
            // quick failures, so that a reconnection resets what is known of the device
            d.DeviceTimeout = r.Of({0, 500, 3000});
            d.FailCycles = r.Of({1, 2, 4});
            d.ResponseTimeout = r.Of({50, 100});
        }
        w.FillMemory();
        std::map<int, std::map<EType, std::set<uint32_t>>> illegal;
        for (auto& d: w.Devs) {
            if (d.Continuous || r.Chance(40)) {
                continue;
            }
            d.MinRead = -1; // would ask for neighbours that do not exist
            // exceptions count as failures of the device, several of them at the start must not disconnect it
            d.DeviceTimeout = r.Of({3000, 5000});
            d.FailCycles = r.Of({10, 20});
            d.ContinueOnIllegal = r.Chance(15);
            auto& s = *w.Slaves[d.Slave];
            for (auto& c: d.Chans) {
                if (!r.Chance(20)) {
                    continue;
                }
                for (auto& x: c.Parts) {
                    s.Illegal[x.Type].insert(x.Addr + r.Below(x.Words()));
                }
            }
            if (r.Chance(50)) {
                // registers nobody needs may be illegal too
                for (int i = 0; i < 40; ++i) {
                    s.Illegal[r.Of({EType::HOLDING, EType::INPUT})].insert(r.Below(300));
                }
            }
        }
        TMon m(w);
        w.Requested.push_back([&](int di, const TModbusRequest& q) { m.Request(di, q); });
        w.Answered.push_back([&](int di, const TModbusRequest& q, const TBytes& a, bool d) { m.Answer(di, q, a, d); });
        w.OnPub = [&](const std::string& dev, const std::string& ctl, bool error, const std::string& text) {
            if (error && ctl.empty() && text == "r") {
                mon::Count("disconnects");
                for (size_t i = 0; i < w.Devs.size(); ++i) {
                    if (w.Devs[i].Id == dev) {
                        m.S[i].Gone.clear();
                    }
                }
            }
        };
        w.Start();
        for (auto& d: w.Devs) {
            w.Slaves[d.Slave]->Fault = [&](const TModbusRequest&) {
                TAnswer a;
                a.Delay = milliseconds(r.Below(10));
                return a;
            };
        }
        auto steps = r.Range(1, 4);
        // Exceptions count as failures: a returned device is tried with one register at a time, with growing pauses,
        // until it meets one that exists
        microseconds heal = 15s;
        for (int i = 0; i < steps; ++i) {
            w.Svc->RunFor(milliseconds(r.Range(2000, 15000)));
            if (r.Chance(50)) {
                auto& d = r.Pick(w.Devs);
                w.Slaves[d.Slave]->Online = false;
                w.Svc->RunFor(milliseconds(r.Range(1000, 8000)));
                w.Slaves[d.Slave]->Online = true;
                auto& s = *w.Slaves[d.Slave];
                int bad = 0;
                for (auto& c: d.Chans) {
                    for (auto& x: c.Parts) {
                        for (unsigned k = 0; k < x.Words(); ++k) {
                            if (s.Illegal.count(x.Type) && s.Illegal[x.Type].count(x.Addr + k)) {
                                ++bad;
                                break;
                            }
                        }
                    }
                }
                heal = std::max<microseconds>(heal, 15s + bad * 10500ms);
            }
        }
        // everything that can be read is read again and again
        w.Svc->RunFor(heal);
        std::map<const TPart*, uint64_t> was = w.ReadsDelivered;
        w.Svc->RunFor(milliseconds(30000));
        for (auto& d: w.Devs) {
            auto& s = *w.Slaves[d.Slave];
            bool any = false;
            for (auto& c: d.Chans) {
                for (auto& x: c.Parts) {
                    bool bad = false;
                    for (unsigned k = 0; k < x.Words(); ++k) {
                        bad = bad || (s.Illegal.count(x.Type) && s.Illegal[x.Type].count(x.Addr + k));
                    }
                    any = any || !bad;
                    if (bad) {
                        continue;
                    }
                    mon::Count("liveness-checked");
                    bool badNear = false; // bits of unknown availability are read by up to 16
                    for (uint32_t k = 0; x.IsBit() && k <= 32; ++k) {
                        badNear = badNear || (s.Illegal.count(x.Type) && s.Illegal[x.Type].count(x.Addr + k - 16));
                    }
                    if (w.ReadsDelivered[&x] == was[&x]) {
                        mon::Violation(badNear ? "not-polled:bit-next-to-unavailable" : "not-polled",
                                       c.Name + " " + x.Str() + " is not polled (read " + std::to_string(was[&x]) + " times before) of " +
                                           Describe(d) + "; devices " + std::to_string(w.Devs.size()));
                    }
                }
            }
        }
        mon::Count("histories");
        mon::Sample(std::to_string(m.Requests) + " requests, " + Describe(w.Devs[0]).substr(0, 200));
    }
    MON_CHECK("M02", Case);
}
