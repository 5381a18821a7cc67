// M05: setup items are written on every connection before anything else is asked of the device
#include "msys.h"

namespace
{
    using namespace msys;
    using namespace sim;

    typedef std::pair<EType, uint32_t> TWord;

    struct TItem
    {
        const TSetup* Cfg = nullptr;
        bool Illegal = false;
        std::vector<TWord> Words;
        std::vector<uint16_t> Mask; // bits that belong to the item
    };

    struct TEntry
    {
        TWord Word;
        bool Refused = false;
    };

    struct TState
    {
        std::vector<TItem> Items; // in configuration order
        bool Prepared = false;
        bool Good = false; // the device was reachable since it last changed its state
        std::vector<TEntry> Log; // words written by the current attempt
        int OkPercent = 100;
        bool Offline = false;
        uint64_t Preparations = 0;
    };

    bool SameKey(const TPart& a, const TPart& b)
    {
        return a.RegType == b.RegType && a.Addr == b.Addr;
    }

    void GenSetup(Rng& r, TWorld& w, TDev& d)
    {
        TProfile p;
        p.Overlap = false;
        p.Strings = false;
        // the configuration takes whole numbers, as numbers or texts, only
        auto number = [&](TPart& x) {
            std::string t;
            for (int i = 0; i < 100; ++i) {
                t = w.RandomText(x);
                if (t.find_first_of(".e") == std::string::npos) {
                    return t;
                }
            }
            x.Spec.Scale = 1;
            x.Spec.Offset = 0;
            do {
                t = w.RandomText(x);
            } while (t.find_first_of(".e") != std::string::npos);
            return t;
        };
        std::set<TWord> busy;
        for (auto& c: d.Chans) {
            for (auto& x: c.Parts) {
                for (unsigned i = 0; i < x.Words(); ++i) {
                    busy.insert({x.Type, x.Addr + i});
                    busy.insert({x.Type, x.WAddr() + i});
                }
            }
        }
        int n = r.Range(1, 12);
        uint32_t addr = r.Range(0, 200);
        for (int i = 0; i < n; ++i) {
            TSetup s;
            addr = r.Chance(60) ? addr : r.Chance(80) ? addr + r.Below(4) : r.Below(60000);
            s.Part = GenPart(r, p, r.Chance(15) ? EType::COIL : EType::HOLDING, addr);
            auto& x = s.Part;
            x.Spec.Round = 0;
            if (x.Spec.IsFloat()) {
                x.Spec.Scale = 1;
                x.Spec.Offset = 0;
            }
            if (x.Spec.Format == Char8) {
                x.Spec.Format = U16;
            }
            bool clash = false;
            for (unsigned q = 0; q < x.Words(); ++q) {
                clash = clash || busy.count({x.Type, addr + q});
            }
            if (clash || addr + x.Words() > 65000) {
                ++addr;
                continue;
            }
            for (unsigned q = 0; q < x.Words(); ++q) {
                busy.insert({x.Type, addr + q});
            }
            s.Value = number(x);
            s.AsText = r.Chance(20) && s.Value[0] != 45;
            d.Setup.push_back(s);
            // further bit fields of the same register
            if (x.Spec.BitWidth && r.Chance(70)) {
                unsigned at = x.Spec.BitOffset + x.Spec.BitWidth, total = x.Words() * 16;
                while (at < total && r.Chance(80)) {
                    auto t = s;
                    at += r.Below(3);
                    unsigned width = 1 + r.Below(6);
                    if (at + width > total) {
                        break;
                    }
                    t.Part.Spec.BitOffset = at;
                    t.Part.Spec.BitWidth = width;
                    t.Value = number(t.Part);
                    d.Setup.push_back(t);
                    at += width;
                }
            }
            addr += x.Words();
        }
        // the configuration lists them in any order
        if (r.Chance(70)) {
            for (size_t i = d.Setup.size(); i > 1; --i) {
                std::swap(d.Setup[i - 1], d.Setup[r.Below(i)]);
            }
        }
        // of items for one place the first one is in effect
        for (size_t i = 0; i < d.Setup.size(); ++i) {
            if (r.Chance(8) && !d.Setup[i].Duplicate && !d.Setup[i].Part.Spec.IsString()) {
                auto t = d.Setup[i];
                t.Duplicate = true;
                t.Value = number(t.Part);
                d.Setup.insert(d.Setup.begin() + r.Range(i + 1, d.Setup.size()), t);
                mon::Count("duplicate-items");
            }
        }
        d.PreserveSetup = r.Chance(40);
        d.MaxWrite = r.Of({-1, 1, 2, 3, 5, 10, 123});
    }

    void Case(Rng& r, uint64_t)
    {
        sim::Reset();
        TWorld w(r);
        TProfile p;
        p.MaxDevs = 2;
        p.MaxClusters = 2;
        p.MaxPerCluster = 4;
        p.Multi = false;
        w.Baud = r.Of({9600, 19200, 115200});
        w.Tcp = r.Chance(20);
        w.MakeDevs(p);
        for (auto& d: w.Devs) {
            d.MinRead = d.RegHole = d.BitHole = -1;
            d.DeviceTimeout = r.Of({-1, 0, 500, 2000});
            d.FailCycles = r.Of({-1, 0, 1, 2});
            d.ResponseTimeout = r.Of({20, 50});
            if (r.Chance(90)) {
                GenSetup(r, w, d);
            }
        }
        w.PortExtra["response_timeout_ms"] = 20;
        w.PortExtra["connection_timeout_ms"] = -1;
        w.FillMemory();
        std::vector<TState> st(w.Devs.size());
        auto randomize = [&](size_t di) {
            auto& s = *w.Slaves[w.Devs[di].Slave];
            for (auto& it: st[di].Items) {
                for (auto& a: it.Words) {
                    s.Set(a.first, a.second, a.first == EType::COIL ? r.Below(2) : r.Next() & 0xffff);
                }
            }
        };
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            for (auto& s: w.Devs[di].Setup) {
                if (s.Duplicate) {
                    continue;
                }
                TItem it;
                it.Cfg = &s;
                auto& x = s.Part;
                for (unsigned q = 0; q < x.Words(); ++q) {
                    it.Words.push_back({x.Type, x.Addr + q});
                }
                if (x.IsBit()) {
                    it.Mask = {1};
                } else if (x.Spec.IsString()) {
                    it.Mask = std::vector<uint16_t>(x.Words(), 0xffff);
                } else if (!x.Spec.BitWidth) {
                    // the unused bits of numbers of 8 and 24 bits belong to the number: it is written as a longer one
                    it.Mask = std::vector<uint16_t>(x.Words(), 0xffff);
                } else {
                    it.Mask = codec::Insert(x.Spec, std::vector<uint16_t>(x.Words(), 0), codec::Mask(x.Spec.Bits()));
                }
                it.Illegal = r.Chance(8) && !x.Spec.BitWidth && !x.Spec.IsString() && x.Spec.FormatBits() == 16;
                st[di].Items.push_back(it);
            }
            randomize(di);
            auto& s = *w.Slaves[w.Devs[di].Slave];
            for (auto& it: st[di].Items) {
                if (it.Illegal) {
                    s.Illegal[it.Words[0].first].insert(it.Words[0].second);
                }
            }
            st[di].OkPercent = r.Of({100, 100, 80, 30});
            st[di].Offline = r.Chance(30);
        }
        auto why = [&](int di) {
            std::ostringstream o;
            auto& d = w.Devs[di];
            o << " setup of " << d.Id << (d.PreserveSetup ? " (order kept)" : "") << " max write " << d.MaxWrite << ":";
            for (auto& it: st[di].Items) {
                o << " [" << it.Cfg->Part.Str() << (it.Illegal ? " illegal" : "") << "=" << it.Cfg->Value << "]";
            }
            o << "; written since the connection was lost:";
            for (auto& e: st[di].Log) {
                o << " " << TypeName(e.Word.first) << e.Word.second << (e.Refused ? "(refused)" : "");
            }
            return o.str();
        };
        auto isSetup = [&](int di, const TModbusRequest& q) {
            auto t = q.IsRead() ? EType(q.Fn) : q.Fn == 5 || q.Fn == 15 ? EType::COIL : EType::HOLDING;
            for (auto& it: st[di].Items) {
                for (auto& a: it.Words) {
                    if (a.first == t && a.second >= q.Addr && a.second < q.Addr + q.Count) {
                        return true;
                    }
                }
            }
            return false;
        };
        auto judge = [&](int di, const char* what) {
            auto& s = st[di];
            auto& d = w.Devs[di];
            if (s.Prepared || s.Items.empty()) {
                return;
            }
            s.Prepared = true;
            ++s.Preparations;
            mon::Count("preparations");
            // every item exactly once and in order
            std::vector<const TItem*> order;
            for (auto& it: s.Items) {
                order.push_back(&it);
            }
            if (!d.PreserveSetup) {
                // registers of one type go by their addresses
                std::map<std::string, size_t> rank;
                for (size_t i = 0; i < s.Log.size(); ++i) {
                    for (auto& it: s.Items) {
                        for (auto& a: it.Words) {
                            if (a == s.Log[i].Word) {
                                rank.insert({it.Cfg->Part.RegType, i});
                            }
                        }
                    }
                }
                std::stable_sort(order.begin(), order.end(), [&](const TItem* a, const TItem* b) {
                    auto& x = a->Cfg->Part;
                    auto& y = b->Cfg->Part;
                    auto rx = rank.count(x.RegType) ? rank[x.RegType] : 100000, ry = rank.count(y.RegType) ? rank[y.RegType] : 100000;
                    return std::tie(rx, x.RegType, x.Addr, x.Spec.BitOffset) < std::tie(ry, y.RegType, y.Addr, y.Spec.BitOffset);
                });
            }
            std::set<const TItem*> written;
            size_t at = 0;
            std::set<TWord> left;
            bool refusedPart = false;
            bool bad = false;
            // a refused group may be followed by its members one by one
            for (size_t i = 0; i < s.Log.size() && !bad; ++i) {
                auto& e = s.Log[i];
                if (e.Refused) {
                    continue;
                }
                // skip items that were only refused
                while (left.empty() && at < order.size()) {
                    bool has = std::count(order[at]->Words.begin(), order[at]->Words.end(), e.Word);
                    if (has) {
                        left = {order[at]->Words.begin(), order[at]->Words.end()};
                        break;
                    }
                    MON_EXPECT(order[at]->Illegal, "not-written",
                               what << ": setup item " << order[at]->Cfg->Part.Str() << " was not written in its turn;" << why(di));
                    if (!order[at]->Illegal) {
                        bad = true;
                        break;
                    }
                    ++at;
                }
                if (bad) {
                    break;
                }
                if (at == order.size() || !left.erase(e.Word)) {
                    mon::Violation("order", std::string(what) + ": unexpected write of " + TypeName(e.Word.first) + " " + std::to_string(e.Word.second) + ";" + why(di));
                    bad = true;
                    break;
                }
                if (left.empty()) {
                    ++at;
                }
            }
            (void)refusedPart;
            if (!bad) {
                for (; at < order.size(); ++at) {
                    MON_EXPECT(order[at]->Illegal, "not-written",
                               what << " but setup item " << order[at]->Cfg->Part.Str() << " has not been written;" << why(di));
                    if (!order[at]->Illegal) {
                        bad = true;
                        break;
                    }
                }
            }
            // the device holds the values
            for (auto& it: s.Items) {
                mon::Count("items-checked");
                if (it.Illegal || bad) {
                    continue;
                }
                std::vector<uint16_t> words;
                for (auto& a: it.Words) {
                    words.push_back(w.Slaves[d.Slave]->Get(a.first, a.second));
                }
                auto& x = it.Cfg->Part;
                bool ok;
                if (x.IsBit()) {
                    ok = words[0] == (it.Cfg->Value == "1");
                } else if (x.Spec.IsString()) {
                    ok = codec::Decode(x.Spec, words).Matches(it.Cfg->Value);
                } else {
                    auto raw = w.RawOf(x, it.Cfg->Value);
                    ok = raw && codec::RawBits(x.Spec, words) == (*raw & codec::Mask(x.Spec.Bits()));
                }
                std::ostringstream o;
                for (auto v: words) {
                    o << " " << std::hex << v;
                }
                MON_EXPECT(ok, "value", what << " while setup register " << x.Str() << " holds" << o.str() << " instead of " << it.Cfg->Value << ";" << why(di));
            }
            mon::Distinct(why(di));
        };
        w.Requested.push_back([&](int di, const TModbusRequest& q) {
            auto& s = st[di];
            if (!isSetup(di, q)) {
                mon::Count("other-requests");
                if (q.IsRead()) {
                    judge(di, "the device is polled");
                } else {
                    judge(di, "a control is written");
                }
                return;
            }
            if (q.IsRead()) {
                mon::Count("setup-reads");
                return;
            }
            mon::Count("setup-write-requests");
            if (q.Count > 1) {
                mon::Count("grouped-setup-writes");
                auto max = w.Devs[di].MaxWrite < 0 ? 1 : w.Devs[di].MaxWrite;
                bool one = false;
                for (auto& it: s.Items) {
                    one = one || it.Words.size() == q.Count && it.Words[0].second == q.Addr;
                }
                MON_EXPECT(one || int(q.Count) <= max, "too-many", q.Str() << why(di));
            }
            // nothing but the bits of the items changes
            auto type = q.Fn == 5 || q.Fn == 15 ? EType::COIL : EType::HOLDING;
            for (uint32_t i = 0; i < q.Count; ++i) {
                uint16_t now = w.Slaves[w.Devs[di].Slave]->Get(type, q.Addr + i);
                uint16_t v = type == EType::COIL ? q.Data[0] >> (q.Fn == 15 ? i % 8 : 0) & 1 : q.Data[2 * i] << 8 | q.Data[2 * i + 1];
                if (type == EType::COIL && q.Fn == 15) {
                    v = q.Data[i / 8] >> (i % 8) & 1;
                } else if (type == EType::COIL) {
                    v = q.Data[0] ? 1 : 0;
                }
                uint16_t mask = 0;
                bool any = false;
                for (auto& it: s.Items) {
                    for (size_t k = 0; k < it.Words.size(); ++k) {
                        if (it.Words[k] == TWord{type, q.Addr + i}) {
                            any = true;
                            mask |= it.Mask[k];
                        }
                    }
                }
                MON_EXPECT(any, "foreign-register", q.Str() << " writes " << q.Addr + i << ", which no setup item names;" << why(di));
                if (any && type == EType::HOLDING && mask != 0xffff) {
                    mon::Count("partial-words-written");
                    std::ostringstream o;
                    o << std::hex << now << " -> " << v << " (bits of the setup items " << mask << ")";
                    MON_EXPECT(((now ^ v) & ~mask) == 0, "neighbour-bits", "register " << q.Addr + i << " " << o.str() << why(di));
                }
            }
        });
        w.Answered.push_back([&](int di, const TModbusRequest& q, const TBytes& a, bool delivered) {
            auto& s = st[di];
            if (s.Prepared) {
                return;
            }
            bool permanent = delivered && (a[0] & 0x80) && a[1] <= 3;
            bool ok = delivered && !(a[0] & 0x80);
            if (!ok && !permanent || !ok && q.IsRead()) {
                s.Log.clear(); // the attempt failed
                mon::Count("failed-attempts");
                return;
            }
            if (q.IsWrite() && isSetup(di, q)) {
                auto type = q.Fn == 5 || q.Fn == 15 ? EType::COIL : EType::HOLDING;
                for (uint32_t i = 0; i < q.Count; ++i) {
                    s.Log.push_back({{type, q.Addr + i}, permanent});
                }
            }
        });
        w.OnPub = [&](const std::string& dev, const std::string& ctl, bool error, const std::string& text) {
            if (error && ctl.empty() && text.find('r') != std::string::npos) {
                for (size_t di = 0; di < w.Devs.size(); ++di) {
                    if (w.Devs[di].Id == dev) {
                        mon::Count("disconnects");
                        st[di].Prepared = false;
                        st[di].Log.clear();
                    }
                }
            }
        };
        w.Start();
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            auto s = w.Slaves[w.Devs[di].Slave];
            s->Fault = [&, di](const TModbusRequest& q) {
                TAnswer a;
                a.Delay = milliseconds(r.Below(8));
                if (st[di].Offline) {
                    a.Kind = TAnswer::SILENCE;
                } else if (!r.Chance(st[di].OkPercent)) {
                    mon::Count("injected-faults");
                    a.Kind = r.Of({TAnswer::SILENCE, TAnswer::LOST, TAnswer::RAW_NOEXEC});
                    if (a.Kind == TAnswer::RAW_NOEXEC) {
                        TBytes pdu{uint8_t(q.Fn | 0x80), uint8_t(r.Of({4, 5, 6}))};
                        a.Raw = w.Tcp ? sim::TcpFrame(q.Tid, q.Slave, pdu) : sim::RtuFrame(q.Slave, pdu);
                    }
                }
                if (a.Kind == TAnswer::SILENCE || a.Kind == TAnswer::RAW_NOEXEC) {
                    if (!st[di].Prepared) {
                        st[di].Log.clear();
                    }
                }
                return a;
            };
        }
        int phases = r.Range(1, 4);
        for (int ph = 0; ph < phases; ++ph) {
            w.Svc->RunFor(milliseconds(r.Range(100, 6000)));
            for (size_t di = 0; di < w.Devs.size(); ++di) {
                auto& s = st[di];
                if (s.Offline && w.Svc->Rec->DeviceError(w.Devs[di].Id).size()) {
                    if (r.Chance(70)) {
                        randomize(di); // it was restarted
                        mon::Count("restarts");
                    }
                }
                s.Offline = r.Chance(45);
                s.OkPercent = r.Of({100, 100, 95, 80, 30});
                if (r.Chance(30) && !w.Devs[di].Chans.empty()) {
                    auto& c = r.Pick(w.Devs[di].Chans);
                    std::string v;
                    for (auto& x: c.Parts) {
                        v += (v.empty() ? "" : ";") + w.RandomText(x);
                    }
                    w.Svc->Write(w.Devs[di].Id, c.Name, c.OnOff() ? "1" : v);
                }
            }
        }
        for (auto& s: st) {
            s.Offline = false;
            s.OkPercent = 100;
        }
        w.Svc->RunFor(30s);
        auto reads = w.ReadsDelivered;
        w.Svc->RunFor(10s);
        for (size_t di = 0; di < w.Devs.size(); ++di) {
            auto& d = w.Devs[di];
            for (auto& c: d.Chans) {
                mon::Count("controls-checked");
                for (auto& x: c.Parts) {
                    MON_EXPECT(w.ReadsDelivered[&x] > reads[&x], "not-polled", c.Name << " of " << d.Id << " is not polled;" << why(di) << Describe(d));
                }
            }
        }
        mon::Count("histories");
        mon::Sample(why(0).substr(0, 300));
    }
    MON_CHECK("M05", Case);
}
