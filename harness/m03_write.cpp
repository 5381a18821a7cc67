// M03: a write changes exactly the addressed registers or bits
#include "msys.h"

namespace
{
    using namespace msys;
    using namespace sim;

    void Case(Rng& r, uint64_t)
    {
        sim::Reset();
        TWorld w(r);
        TProfile p;
        p.Strings = false;
        p.MaxDevs = 2;
        p.MaxClusters = 3;
        p.MaxPerCluster = 6;
        w.Baud = r.Of({9600, 115200});
        w.Tcp = r.Chance(15);
        w.MakeDevs(p);
        for (auto& d: w.Devs) {
            for (auto& c: d.Chans) {
                for (auto& x: c.Parts) {
                    x.Spec.Round = 0;
                    if (x.Spec.Format == Float || x.Spec.Format == Double) {
                        x.Spec.Scale = 1; // the last bit of a scaled value is V01's business
                        x.Spec.Offset = 0;
                    }
                    if (x.Spec.Scale < 0 && r.Chance(50)) {
                        x.Spec.Scale = 1;
                    }
                }
            }
        }
        w.FillMemory();
        w.Start();
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            w.Slaves[w.Devs[di].Slave]->Fault = [&](const TModbusRequest&) {
                TAnswer a;
                a.Delay = milliseconds(r.Below(10));
                return a;
            };
        }
        w.Requested.push_back([&](int di, const TModbusRequest& q) {
            if (q.IsWrite()) {
                mon::Count("write-requests");
                MON_EXPECT(!q.Malformed, "malformed", q.Str());
                MON_EXPECT(q.Count <= 123, "too-many", q.Str());
            }
        });
        auto waitPolled = [&] {
            auto was = w.ReadsDelivered;
            for (int i = 0; i < 400; ++i) {
                w.Svc->RunFor(200ms);
                bool all = true;
                for (auto& d: w.Devs) {
                    for (auto& c: d.Chans) {
                        for (auto& x: c.Parts) {
                            all = all && w.ReadsDelivered[&x] > was[&x] + 1;
                        }
                    }
                }
                if (all) {
                    return true;
                }
            }
            return false;
        };
        auto steps = r.Range(4, 14);
        bool polled = false;
        bool connectFirst = r.Chance(70);
        for (int step = 0; step < steps; ++step) {
            if (step > 0 || connectFirst) {
                if (!polled || r.Chance(30)) {
                    w.Mutate(r.Below(12));
                    if (!waitPolled()) {
                        mon::Count("not-polled");
                        return;
                    }
                    polled = true;
                }
            }
            std::map<int, std::map<EType, std::map<uint32_t, uint16_t>>> want;
            for (auto& d: w.Devs) {
                want[d.Slave] = w.Slaves[d.Slave]->Mem;
            }
            std::ostringstream log;
            std::string kind = polled ? "" : ":before-poll";
            std::set<const TChan*> done;
            std::map<const TPart*, bool> free; // parts whose contents are not specified
            int n = 1 + r.Below(4);
            for (int k = 0; k < n; ++k) {
                auto& d = r.Pick(w.Devs);
                if (d.Chans.empty()) {
                    continue;
                }
                auto& c = r.Pick(d.Chans);
                if (!done.insert(&c).second) {
                    continue;
                }
                std::string v;
                std::vector<std::string> items;
                bool over = false;
                for (auto& x: c.Parts) {
                    auto t = w.RandomText(x);
                    if (x.Spec.BitWidth && x.Spec.Scale == 1 && x.Spec.Offset == 0 && r.Chance(20)) {
                        t = std::to_string(codec::Mask(x.Spec.BitWidth) + 1 + r.Below(100)); // does not fit
                        over = true;
                    }
                    items.push_back(t);
                    v += (v.empty() ? "" : ";") + t;
                }
                if (c.OnOff()) {
                    v = r.Of({"0", "1"});
                    items[0] = c.Sent(v);
                }
                bool accepted = w.Svc->Write(d.Id, c.Name, v);
                log << d.Id << "/" << c.Name << " <- " << v << (accepted ? "" : " (refused)") << "; ";
                if (c.ReadOnly) {
                    mon::Count("read-only-writes");
                    continue;
                }
                mon::Count("writes");
                if (over) {
                    mon::Count("too-large-for-field");
                }
                for (size_t i = 0; i < c.Parts.size(); ++i) {
                    auto& x = c.Parts[i];
                    auto& mem = want[d.Slave][x.Type];
                    auto raw = w.RawOf(x, items[i]);
                    if (over) {
                        free[&x] = true;
                    }
                    if (x.IsBit()) {
                        mem[x.WAddr()] = *raw ? 1 : 0;
                        continue;
                    }
                    std::vector<uint16_t> words;
                    for (unsigned q = 0; q < x.Words(); ++q) {
                        words.push_back(mem[x.WAddr() + q]);
                    }
                    words = codec::Insert(x.Spec, words, *raw);
                    if (x.Spec.BitWidth) {
                        mon::Count("field-writes");
                    }
                    for (unsigned q = 0; q < x.Words(); ++q) {
                        mem[x.WAddr() + q] = words[q];
                    }
                }
            }
            w.Svc->RunFor(2s);
            if (!polled) {
                w.Svc->RunFor(5s);
            }
            for (auto& d: w.Devs) {
                auto& mem = w.Slaves[d.Slave]->Mem;
                for (auto t: {EType::COIL, EType::DISCRETE, EType::HOLDING, EType::INPUT}) {
                    std::map<uint32_t, uint16_t> all = want[d.Slave][t];
                    for (auto& a: mem[t]) {
                        all.insert({a.first, 0xdead});
                    }
                    for (auto& a: all) {
                        bool has = mem[t].count(a.first), should = want[d.Slave][t].count(a.first);
                        uint16_t got = has ? mem[t][a.first] : 0, exp = should ? want[d.Slave][t][a.first] : 0;
                        if (has != should) {
                            std::ostringstream s;
                            s << TypeName(t) << " " << a.first << " of " << d.Id << (has ? " was written, nobody asked for it" : " vanished") << ": "
                              << log.str() << Describe(d);
                            mon::Violation("other-register" + kind, s.str());
                            continue;
                        }
                        mon::Count("registers-compared");
                        uint16_t mask = 0xffff;
                        const TPart* part = nullptr;
                        for (auto& c: d.Chans) {
                            for (auto& x: c.Parts) {
                                if (x.Type == t && a.first >= x.WAddr() && a.first < x.WAddr() + x.Words()) {
                                    if (free.count(&x)) {
                                        std::vector<uint16_t> bits(x.Words(), 0);
                                        bits = codec::Insert(x.Spec, bits, codec::Mask(x.Spec.Bits()));
                                        mask &= ~bits[a.first - x.WAddr()];
                                    }
                                    if (x.WriteAddr >= 0 && x.Spec.Bits() < x.Words() * 16 && !x.IsBit()) {
                                        // the rest of the registers is not kept if they are written elsewhere than read
                                        std::vector<uint16_t> bits(x.Words(), 0);
                                        bits = codec::Insert(x.Spec, bits, codec::Mask(x.Spec.Bits()));
                                        mask &= bits[a.first - x.WAddr()];
                                    }
                                    if (done.count(&c) || !part) {
                                        part = &x;
                                    }
                                }
                            }
                        }
                        if ((got ^ exp) & mask) {
                            std::ostringstream s;
                            s << std::hex << TypeName(t) << " " << std::dec << a.first << std::hex << " of " << d.Id << " is " << got << ", has to be "
                              << exp << " (mask " << mask << "): " << std::dec << log.str() << Describe(d);
                            bool field = part && part->Spec.BitWidth;
                            mon::Violation(std::string(field ? "bits" : "value") + kind, s.str());
                        }
                    }
                }
                want[d.Slave] = mem;
            }
            mon::Distinct(log.str());
        }
        mon::Count("histories");
        mon::Sample(Describe(w.Devs[0]).substr(0, 250));
    }
    MON_CHECK("M03", Case);
}
