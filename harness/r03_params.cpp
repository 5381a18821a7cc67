// R03: device/Load, device/LoadConfig and device/Set agree with the memory of the device
#include "msys.h"
#include "rpcenv.h"
#include <filesystem>

namespace
{
    using namespace msys;
    using namespace sim;
    namespace fs = std::filesystem;

    // ---------------------------------------------------------------- conditions: a disjunction of conjunctions
    struct TCmp
    {
        std::string Param;
        std::string Op;
        int Const;
    };
    using TCond = std::vector<std::vector<TCmp>>;
    using TKnown = std::map<std::string, long long>;

    std::string Text(const TCond& c)
    {
        std::string s;
        for (size_t i = 0; i < c.size(); ++i) {
            s += i ? "||" : "";
            for (size_t j = 0; j < c[i].size(); ++j) {
                auto& x = c[i][j];
                s += (j ? "&&" : "") + x.Param + x.Op + std::to_string(x.Const);
            }
        }
        return s;
    }

    bool Holds(const TCond& c, const TKnown& known)
    {
        if (c.empty()) {
            return true;
        }
        for (auto& a: c) {
            bool all = true;
            for (auto& x: a) {
                auto it = known.find(x.Param);
                if (it == known.end()) {
                    all = all && x.Op == "!=";
                    continue;
                }
                auto v = it->second;
                all = all && (x.Op == "==" ? v == x.Const : x.Op == "!=" ? v != x.Const : x.Op == "<" ? v < x.Const : v > x.Const);
            }
            if (all) {
                return true;
            }
        }
        return false;
    }

    // ---------------------------------------------------------------- templates
    struct TItem
    {
        std::string Id;
        TPart Part;
        bool ReadOnly = false, WriteOnly = false, NoAddress = false;
        TCond Cond;
        std::string Fw;
        bool Control = false; // its value is used in conditions
        bool Readable() const
        {
            return !WriteOnly && !NoAddress;
        }
    };

    struct THw
    {
        std::string Signature, Fw;
    };

    struct TTemplate
    {
        std::string Type;
        std::vector<TItem> Params, Chans;
        std::vector<THw> Hw;
        bool Continuous = false, ParamsAsObject = false;
        int MaxRead = -1, MaxWrite = -1, RegHole = -1;
        bool Wb() const
        {
            return Continuous || !Hw.empty();
        }
    };

    struct TDevice // configured or only connected to the bus
    {
        int Port = 0, Slave = 1;
        std::string Id; // empty: not configured
        int Template = 0;
        Json::Value Config = Json::Value(Json::objectValue);
        PModbusSlave Sim;
        std::string Model, Fw;
        bool ShortModel = false;
        Json::Value Cache; // what the previous answer was
        std::chrono::steady_clock::time_point LostAt;
        uint64_t Changes = 0; // of the state of connection
    };

    int CompareVersions(const std::string& a, const std::string& b) // the generated ones are simple
    {
        int x[3] = {0, 0, 0}, y[3] = {0, 0, 0};
        sscanf(a.c_str(), "%d.%d.%d", x, x + 1, x + 2);
        sscanf(b.c_str(), "%d.%d.%d", y, y + 1, y + 2);
        for (int i = 0; i < 3; ++i) {
            if (x[i] != y[i]) {
                return x[i] < y[i] ? -1 : 1;
            }
        }
        return 0;
    }

    class TWbSlave: public TModbusSlave
    {
    public:
        using TModbusSlave::TModbusSlave;
        bool HasContinuous = false;
        TBytes Execute(const TModbusRequest& q) override
        {
            if (HasContinuous && q.IsRead() && q.Fn >= 3 && Get(EType::HOLDING, 114) == 1) {
                auto bad = Illegal[EType(q.Fn)];
                bool any = false;
                for (uint32_t i = 0; i < q.Count; ++i) {
                    if (bad.count(q.Addr + i)) {
                        any = true;
                        Set(EType(q.Fn), q.Addr + i, 0xFFFE);
                        Illegal[EType(q.Fn)].erase(q.Addr + i);
                    }
                }
                auto r = TModbusSlave::Execute(q);
                if (any) {
                    Illegal[EType(q.Fn)] = bad;
                }
                return r;
            }
            return TModbusSlave::Execute(q);
        }
        void SetText(uint32_t addr, unsigned regs, const std::string& t)
        {
            for (unsigned i = 0; i < regs; ++i) {
                Set(EType::HOLDING, addr + i, i < t.size() ? uint8_t(t[i]) : 0);
            }
        }
    };

    Json::Value ItemJson(const TItem& x, bool channel)
    {
        Json::Value j(Json::objectValue);
        if (!x.NoAddress) {
            PutPart(j, x.Part);
        }
        if (x.WriteOnly) {
            j.removeMember("address");
        }
        if (x.ReadOnly) {
            j["readonly"] = true;
        }
        if (!x.Cond.empty()) {
            j["condition"] = Text(x.Cond);
        }
        if (!x.Fw.empty()) {
            j["fw"] = x.Fw;
        }
        if (channel) {
            j["name"] = x.Id;
            j["type"] = x.Part.Spec.IsString() && !x.Part.IsBit() ? "text" : "value";
        } else {
            j["title"] = "Title of " + x.Id;
        }
        return j;
    }

    Json::Value TemplateJson(const TTemplate& t)
    {
        Json::Value j(Json::objectValue);
        j["device_type"] = t.Type;
        for (auto& h: t.Hw) {
            Json::Value x(Json::objectValue);
            x["signature"] = h.Signature;
            if (!h.Fw.empty()) {
                x["fw"] = h.Fw;
            }
            j["hw"].append(x);
        }
        auto& d = j["device"];
        d = Json::Value(Json::objectValue);
        d["name"] = t.Type;
        d["id"] = t.Type;
        if (t.Continuous) {
            d["enable_wb_continuous_read"] = true;
        }
        if (t.MaxRead >= 0) {
            d["max_read_registers"] = t.MaxRead;
        }
        if (t.MaxWrite >= 0) {
            d["max_write_registers"] = t.MaxWrite;
        }
        if (t.RegHole >= 0) {
            d["max_reg_hole"] = t.RegHole;
        }
        Json::Value c(Json::arrayValue), p(t.ParamsAsObject ? Json::objectValue : Json::arrayValue);
        for (auto& x: t.Chans) {
            c.append(ItemJson(x, true));
        }
        for (auto& x: t.Params) {
            auto y = ItemJson(x, false);
            if (t.ParamsAsObject) {
                p[x.Id] = y;
            } else {
                y["id"] = x.Id;
                p.append(y);
            }
        }
        d["channels"] = c;
        if (!t.Params.empty()) {
            d["parameters"] = p;
        }
        return j;
    }

    TTemplate GenTemplate(Rng& r, int n)
    {
        TTemplate t;
        t.Type = "tpl" + std::to_string(n);
        t.ParamsAsObject = r.Chance(50);
        auto wb = r.Below(10);
        static const char* signs[] = {"WBMR6", "WBMAP12", "X", "WB-MSW-V4"};
        if (wb < 5) {
            std::set<std::string> used;
            for (int i = r.Range(1, 2); i > 0; --i) {
                THw h;
                h.Signature = signs[r.Below(4)];
                if (!used.insert(h.Signature).second) {
                    continue;
                }
                if (r.Chance(60)) {
                    h.Fw = r.Of({std::string("1.0.0"), std::string("1.2.0"), std::string("1.5.3")});
                }
                t.Hw.push_back(h);
            }
            t.Continuous = r.Chance(50);
        }
        t.MaxRead = r.Of({-1, -1, 0, 1, 5, 20});
        t.RegHole = r.Of({-1, -1, 0, 3, 20});
        t.MaxWrite = r.Of({-1, -1, 1, 5, 100});
        TProfile p;
        p.Overlap = false;
        uint32_t addr[5] = {0, 1000, 1000, 1000, 1000};
        auto part = [&](bool plain) {
            EType type = EType::HOLDING;
            if (!plain) {
                auto k = r.Below(10);
                type = k < 1 ? EType::COIL : k < 2 ? EType::INPUT : k < 3 ? EType::DISCRETE : EType::HOLDING;
            }
            auto& a = addr[int(type)];
            if (r.Chance(30)) {
                a += r.Of({1, 2, 5, 30});
            }
            TPart x;
            if (plain) {
                x.RegType = "holding";
                x.Addr = a;
                x.Spec.Format = U16;
            } else {
                x = GenPart(r, p, type, a);
            }
            a += x.Words();
            return x;
        };
        int controls = r.Of({0, 1, 2, 3});
        std::vector<std::string> control;
        auto cond = [&]() {
            TCond c;
            for (int i = r.Range(1, 2); i > 0; --i) {
                std::vector<TCmp> a;
                for (int k = r.Range(1, 2); k > 0; --k) {
                    a.push_back({r.Pick(control), r.Of({std::string("=="), std::string("!="), std::string("<"), std::string(">")}), int(r.Range(0, 3))});
                }
                c.push_back(a);
            }
            return c;
        };
        auto common = [&](TItem& x) {
            if (x.Part.Type == EType::INPUT || x.Part.Type == EType::DISCRETE) {
                x.ReadOnly = true;
            } else {
                x.ReadOnly = r.Chance(20);
            }
            if (!control.empty() && r.Chance(45)) {
                x.Cond = cond();
            }
            if (r.Chance(20)) {
                x.Fw = r.Of({std::string("0.9"), std::string("1.2.0"), std::string("1.4.1"), std::string("2.0.0")});
            }
        };
        for (int i = 0; i < controls; ++i) {
            TItem x;
            x.Id = "p" + std::to_string(i);
            x.Part = part(true);
            x.Control = true;
            if (!control.empty() && r.Chance(30)) {
                x.Cond = cond(); // chains of conditions
            }
            t.Params.push_back(x);
            control.push_back(x.Id);
        }
        for (int i = r.Below(12); i > 0; --i) {
            TItem x;
            x.Id = "q" + std::to_string(i);
            x.Part = part(false);
            common(x);
            if (r.Chance(6)) {
                x.NoAddress = x.ReadOnly = true;
            }
            t.Params.push_back(x);
            // another field of the same register
            if (!x.NoAddress && x.Part.Spec.BitWidth && !x.Part.IsBit() && x.Part.Spec.BitOffset + x.Part.Spec.BitWidth < 16) {
                TItem y = x;
                y.Id += "b";
                y.Part.Spec.BitOffset += y.Part.Spec.BitWidth;
                y.Part.Spec.BitWidth = r.Range(1, 16 - y.Part.Spec.BitOffset);
                t.Params.push_back(y);
            }
        }
        for (int i = r.Below(10); i > 0; --i) {
            TItem x;
            x.Id = "c" + std::to_string(i);
            x.Part = part(false);
            common(x);
            if (x.Part.Type == EType::HOLDING && !x.ReadOnly && !x.Part.Spec.BitWidth && !x.Part.Spec.IsString() && x.Part.Spec.FormatBits() % 16 == 0 && r.Chance(10)) {
                x.Part.WriteAddr = 40000 + i * 10;
                x.WriteOnly = r.Chance(50);
            }
            t.Chans.push_back(x);
        }
        if (t.Params.size() > 1 && r.Chance(50)) {
            for (size_t i = t.Params.size() - 1; i > 0; --i) {
                std::swap(t.Params[i], t.Params[r.Below(i + 1)]);
            }
        }
        return t;
    }

    // ---------------------------------------------------------------- values
    std::string JsonText(const Json::Value& v)
    {
        if (v.isString()) {
            return v.asString();
        }
        if (v.type() == Json::realValue) {
            char b[40];
            snprintf(b, sizeof(b), "%.17g", v.asDouble());
            return b;
        }
        return v.asString();
    }

    struct TCall
    {
        enum EKind
        {
            LOAD, CONFIG, SET
        } Kind = LOAD;
        Json::Value Request;
        TDevice* Dev = nullptr;
        bool ByConfig = false, Force = false, Refused = false, MayExpire = false;
        const TTemplate* Template = nullptr;
        std::vector<std::string> Chans, Params;
        std::vector<std::pair<const TItem*, std::string>> Items; // to be set
        bool Fails = false; // the device refuses to write something
        rpcenv::PReply Reply;
        uint64_t Changes = 0, Faults = 0;
        TTime Started{};
        bool Writes = false;
        std::string Str() const
        {
            Json::FastWriter w;
            auto s = w.write(Request);
            return (Kind == LOAD ? "Load " : Kind == CONFIG ? "LoadConfig " : "Set ") + s.substr(0, std::min<size_t>(s.size() - 1, 500)) + " -> " +
                   (Reply ? Reply->Str().substr(0, 700) : "none");
        }
    };

    void Case(Rng& r, uint64_t)
    {
        sim::Reset();
        bool tcp = r.Chance(20);
        auto dir = mon::Scratch() + "/templates";
        fs::remove_all(fs::path(dir));
        fs::create_directories(dir);
        std::vector<TTemplate> tpls;
        for (int i = r.Range(1, 3); i > 0; --i) {
            tpls.push_back(GenTemplate(r, i));
            std::ostringstream o;
            o << TemplateJson(tpls.back());
            sys::WriteFile(dir + "/config-" + tpls.back().Type + ".json", o.str());
        }
        auto templates =
            std::make_shared<TTemplateMap>(LoadConfigTemplatesSchema(mon::Repo() + "/wb-mqtt-serial-device-template.schema.json", sys::Static().Common), "");
        templates->AddTemplatesDir(dir);

        TWorld w(r); // for values only
        // ports and devices
        int nPorts = tcp ? 1 : r.Range(1, 2);
        const char* names[] = {"/dev/ttySIM", "/dev/ttySIB"};
        std::vector<PSimPort> ports;
        std::vector<PModbusBus> buses;
        sys::TPortMap map;
        Json::Value cfg(Json::objectValue);
        cfg["debug"] = false;
        cfg["rate_limit"] = 100000;
        cfg["ports"] = Json::Value(Json::arrayValue);
        for (int i = 0; i < nPorts; ++i) {
            auto name = tcp ? std::string("sim:502") : std::string(names[i]);
            ports.push_back(std::make_shared<TSimPort>(name, 9600));
            ports[i]->Serial = !tcp;
            buses.push_back(std::make_shared<TModbusBus>(tcp));
            ports[i]->Wire = buses[i];
            map[name] = std::make_shared<TFeaturePort>(ports[i], tcp);
            Json::Value p(Json::objectValue);
            if (tcp) {
                p["port_type"] = "modbus tcp";
                p["address"] = "sim";
                p["port"] = 502;
            } else {
                p["port_type"] = "serial";
                p["path"] = name;
                p["baud_rate"] = 9600;
            }
            p["devices"] = Json::Value(Json::arrayValue);
            cfg["ports"].append(p);
        }
        std::deque<TDevice> devs;
        std::map<TDevice*, std::map<std::pair<EType, uint32_t>, TTime>> changed;
        auto illegalItems = std::map<TDevice*, std::set<const TItem*>>();
        auto poke = [&](TDevice& d, EType t, uint32_t a, uint16_t v) {
            d.Sim->Set(t, a, v);
            changed[&d][{t, a}] = Now();
        };
        auto fill = [&](TDevice& d, const TItem& x) {
            if (x.NoAddress) {
                return;
            }
            for (unsigned i = 0; i < x.Part.Words(); ++i) {
                auto v = x.Control ? uint16_t(r.Below(4)) : w.RandomWord(x.Part);
                poke(d, x.Part.Type, x.Part.Addr + i, v);
            }
        };
        int slave = r.Range(1, 100);
        for (int i = r.Range(2, 5); i > 0; --i) {
            devs.emplace_back();
            auto& d = devs.back();
            d.Port = r.Below(nPorts);
            bool sameSlave = false;
            if (nPorts == 2 && devs.size() > 1 && r.Chance(40)) { // the same address on another port
                auto& o = devs[r.Below(devs.size() - 1)];
                d.Port = 1 - o.Port;
                d.Slave = o.Slave;
                sameSlave = true;
                for (auto& z: devs) {
                    if (&z != &d && z.Port == d.Port && z.Slave == d.Slave) {
                        sameSlave = false;
                    }
                }
            }
            if (!sameSlave) {
                d.Slave = slave += r.Range(1, 20);
            }
            d.Template = r.Below(tpls.size());
            auto& t = tpls[d.Template];
            auto s = std::make_shared<TWbSlave>(uint8_t(d.Slave));
            s->HasContinuous = t.Wb();
            d.Sim = s;
            buses[d.Port]->Slaves[d.Slave] = s;
            d.Model = t.Hw.empty() || r.Chance(15) ? "OTHER" : r.Pick(t.Hw).Signature;
            d.Fw = r.Of({std::string("1.0.0"), std::string("1.2.0"), std::string("1.3.1"), std::string("1.10.0"), std::string("2.1.4")});
            s->SetText(200, 20, d.Model);
            s->SetText(250, 16, d.Fw);
            if (d.Model.size() <= 6 && r.Chance(50)) {
                d.ShortModel = true;
                for (uint32_t a = 206; a < 220; ++a) {
                    s->Illegal[EType::HOLDING].insert(a);
                }
            }
            for (auto* list: {&t.Params, &t.Chans}) {
                for (auto& x: *list) {
                    fill(d, x);
                }
            }
            // some registers are not supported by this device
            bool mayIllegal = true;
            if (mayIllegal && r.Chance(50)) {
                for (auto* list: {&t.Params, &t.Chans}) {
                    for (auto& x: *list) {
                        if (!x.Control && x.Readable() && !x.Part.IsBit() && !x.Part.Spec.ByteLE && x.Part.Spec.Format != String8 && r.Chance(15)) {
                            for (unsigned k = 0; k < x.Part.Words(); ++k) {
                                s->Illegal[x.Part.Type].insert(x.Part.Addr + k);
                            }
                        }
                    }
                }
                for (auto* list: {&t.Params, &t.Chans}) {
                    for (auto& x: *list) {
                        if (s->Illegal[x.Part.Type].count(x.Part.Addr) && !x.NoAddress) {
                            illegalItems[&d].insert(&x); // there may be several in the same register
                        }
                    }
                }
            }
            // or have contents which look so
            for (auto* list: {&t.Params, &t.Chans}) {
                for (auto& x: *list) {
                    if (!x.Control && x.Readable() && !x.Part.IsBit() && !x.Part.Spec.IsString() && r.Chance(4)) {
                        for (unsigned k = 0; k < x.Part.Words(); ++k) {
                            poke(d, x.Part.Type, x.Part.Addr + k, 0xFFFE);
                        }
                    }
                }
            }
            s->Fault = [&r](const TModbusRequest&) {
                TAnswer a;
                a.Delay = milliseconds(r.Below(8));
                return a;
            };
            if (r.Chance(65)) {
                d.Id = "dev" + std::to_string(devs.size());
                auto& c = d.Config;
                c["slave_id"] = std::to_string(d.Slave);
                c["id"] = d.Id;
                c["name"] = d.Id;
                c["device_type"] = t.Type;
                for (auto& x: t.Params) {
                    if (x.NoAddress || x.ReadOnly || x.Part.Spec.IsString() || x.Part.Spec.Format == Char8 || x.Part.Spec.IsFloat() || r.Chance(75)) {
                        continue;
                    }
                    if (x.Control) {
                        c[x.Id] = r.Range(0, 3);
                    } else if (x.Part.Spec.Scale == 1 && x.Part.Spec.Offset == 0 && x.Part.Spec.Round == 0 && x.Part.Spec.Format == U16 &&
                               !x.Part.Spec.BitWidth)
                    {
                        c[x.Id] = r.Range(0, 1000);
                    }
                }
                cfg["ports"][d.Port]["devices"].append(c);
            }
        }
        sys::TService svc(cfg, map, templates);
        rpcenv::TRpc rpc(svc, templates);
        std::deque<TCall> calls;
        bool faults = r.Chance(20), faultsNow = false;
        uint64_t faultCount = 0;
        for (auto& d: devs) {
            auto* pd = &d;
            d.Sim->OnWritten = [&, pd](EType t, uint32_t a, uint16_t) { changed[pd][{t, a}] = Now(); };
            if (auto dev = d.Id.empty() ? nullptr : svc.Device(d.Id)) {
                dev->AddOnConnectionStateChangedCallback([pd](PSerialDevice s) {
                    ++pd->Changes;
                    if (s->GetConnectionState() == TDeviceConnectionState::DISCONNECTED) {
                        pd->Cache = Json::Value();
                        pd->LostAt = Now();
                    }
                });
            }
            if (faults) {
                d.Sim->Fault = [&, pd](const TModbusRequest&) {
                    TAnswer a;
                    a.Delay = milliseconds(r.Below(8));
                    if (faultsNow && r.Chance(8)) {
                        a.Kind = r.Chance(50) ? TAnswer::SILENCE : TAnswer::LOST;
                        ++faultCount;
                        mon::Count("faults");
                    }
                    return a;
                };
            }
        }
        auto words = [&](const TDevice& d, const TPart& p, bool write) {
            std::vector<uint16_t> v;
            for (unsigned i = 0; i < p.Words(); ++i) {
                v.push_back(d.Sim->Get(p.Type, (write ? p.WAddr() : p.Addr) + i));
            }
            return v;
        };
        auto value = [&](const TDevice& d, const TPart& p, bool write = false) {
            auto v = words(d, p, write);
            if (p.IsBit()) {
                codec::TValue x;
                x.Text = v[0] ? "1" : "0";
                return x;
            }
            return codec::Decode(p.Spec, v);
        };
        auto changedSince = [&](TDevice& d, const TPart& p, TTime t) {
            for (unsigned i = 0; i < p.Words(); ++i) {
                auto it = changed[&d].find({p.Type, p.Addr + i});
                if (it != changed[&d].end() && it->second > t) {
                    return true;
                }
            }
            return false;
        };
        // Compares a returned value with the memory
        auto judge = [&](TCall& c, const TItem& x, const Json::Value& v, const char* what) {
            auto& d = *c.Dev;
            mon::Count("values");
            if (changedSince(d, x.Part, c.Reply->Called)) {
                mon::Count("values-changing");
                return;
            }
            bool illegal = illegalItems[&d].count(&x);
            if (illegal) {
                mon::Count("unsupported-registers");
                MON_EXPECT(v.isString() && v.asString() == "unsupported", "unsupported-register", what << " " << x.Id << " " << x.Part.Str() << " is not supported by the device, returned " << JsonText(v) << ": " << c.Str());
                return;
            }
            auto e = value(d, x.Part);
            MON_EXPECT(e.Matches(JsonText(v)), "value", what << " " << x.Id << " " << x.Part.Str() << " registers " << [&] {
                std::string s;
                for (auto q: words(d, x.Part, false)) {
                    s += std::to_string(q) + " ";
                }
                return s;
            }() << "must be " << e.Str() << ", returned " << JsonText(v) << ": " << c.Str());
            bool text = x.Part.Spec.IsString() && !x.Part.IsBit();
            if (text) {
                MON_EXPECT(v.isString(), "type", what << " " << x.Id << ": " << c.Str());
            } else if (!e.NaN && !e.Inf && x.Part.Spec.Format != Char8 && !e.Any) {
                MON_EXPECT(v.isNumeric(), "type", what << " " << x.Id << ": " << c.Str());
            }
            mon::Distinct(x.Part.Str() + JsonText(v));
        };
        auto fwOk = [&](const TCall& c, const TItem& x) {
            return !c.Template->Wb() || x.Fw.empty() || CompareVersions(x.Fw, c.Dev->Fw) <= 0;
        };

        auto fwUnclear = [&](const TCall& c, const TItem& x) { // it could be not read because of a fault
            return faultCount && !fwOk(c, x);
        };
        auto done = [&](TCall& c) {
            auto& R = *c.Reply;
            auto& d = *c.Dev;
            MON_EXPECT(R.Count() == 1, "replies", c.Str());
            mon::Count(c.Kind == TCall::LOAD ? "loads" : c.Kind == TCall::CONFIG ? "config-loads" : "sets");
            bool faulty = c.Faults != faultCount;
            auto& t = *c.Template;
            bool expectedError = c.Refused;
            if (c.Kind == TCall::SET) {
                if (c.ByConfig) {
                    d.Cache = Json::Value();
                }
                if (!R.Errors) {
                    MON_EXPECT(!expectedError, "not-refused", c.Str());
                    MON_EXPECT(!c.Fails, "failure-hidden", c.Str());
                    for (auto& [x, text]: c.Items) {
                        auto raw = w.RawOf(x->Part, text);
                        auto v = words(d, x->Part, true);
                        bool same = true;
                        if (x->Part.IsBit()) {
                            same = v[0] == *raw;
                        } else if (x->Part.Spec.IsFloat()) {
                            same = value(d, x->Part, true).Matches(text);
                        } else if (raw) {
                            auto& s = x->Part.Spec;
                            auto bits = s.BitWidth ? s.BitWidth : std::min(64u, s.FormatBits());
                            auto m = bits >= 64 ? ~0ull : (1ull << bits) - 1;
                            same = (codec::RawBits(s, v) & m) == (*raw & m);
                        } else if (x->Part.Spec.IsString()) {
                            same = value(d, x->Part, true).Matches(text);
                        }
                        mon::Count("written-values");
                        MON_EXPECT(same, "not-written", x->Id << " " << x->Part.Str() << " must be " << text << ", is " << value(d, x->Part, true).Str() << ": " << c.Str());
                    }
                }
                if (R.Errors && !expectedError && !c.Fails && !faulty) {
                    MON_EXPECT(c.MayExpire && R.Code == -32600, "set-failed", c.Str());
                }
                if (!faulty && c.Changes == d.Changes) {
                    for (auto& e: d.Sim->MemEvents) {
                        if (e.At < c.Started) {
                            continue;
                        }
                        bool ok = e.Type == EType::HOLDING && e.Addr == 114;
                        for (auto& [x, text]: c.Items) {
                            auto a = x->Part.WAddr();
                            ok = ok || e.Type == x->Part.Type && e.Addr >= a && e.Addr < a + x->Part.Words();
                        }
                        MON_EXPECT(ok, "foreign-write", TypeName(e.Type) << " " << e.Addr << " = " << e.Value << ": " << c.Str());
                        MON_EXPECT(!c.Refused || e.Addr == 114, "refused-written", TypeName(e.Type) << " " << e.Addr << " = " << e.Value << ": " << c.Str());
                    }
                }
                mon::Count(R.Errors ? "sets-failed" : "sets-done");
                return;
            }
            if (!faulty && d.Sim->Online) {
                for (auto it = d.Sim->MemEvents.rbegin(); it != d.Sim->MemEvents.rend() && it->At >= c.Started; ++it) {
                    if (it->Addr == 114 && it->Type == EType::HOLDING) {
                        MON_EXPECT(it->Value == t.Continuous, it->Value ? "continuous-read-on" : "continuous-read-off", c.Str());
                        break;
                    }
                }
            }
            if (c.Kind == TCall::LOAD) {
                if (R.Errors) {
                    mon::Count("loads-failed");
                    MON_EXPECT(expectedError || faulty || c.MayExpire && R.Code == -32600, "load-failed", c.Str());
                    return;
                }
                MON_EXPECT(!expectedError, "not-refused", c.Str());
                TKnown known;
                bool condParams = false;
                for (auto& ch: t.Chans) {
                    for (auto& a: ch.Cond) {
                        for (auto& x: a) {
                            for (auto& p: t.Params) {
                                if (p.Id == x.Param) {
                                    if (changedSince(d, p.Part, R.Called)) {
                                        return; // which value was used is not known
                                    }
                                    known[p.Id] = d.Sim->Get(EType::HOLDING, p.Part.Addr);
                                    condParams = true;
                                }
                            }
                        }
                    }
                }
                std::set<std::string> expect, got, ro, gotRo;
                bool unclearFw = false;
                for (auto& x: t.Chans) {
                    if (fwUnclear(c, x)) {
                        unclearFw = true;
                        continue;
                    }
                    bool wanted = c.Chans.empty() || std::find(c.Chans.begin(), c.Chans.end(), x.Id) != c.Chans.end();
                    if (!wanted || !x.Readable() || condParams && !Holds(x.Cond, known) || !fwOk(c, x)) {
                        mon::Count("omitted");
                        MON_EXPECT(!R.Result["channels"].isMember(x.Id), "must-be-omitted", x.Id << ": " << c.Str());
                        continue;
                    }
                    expect.insert(x.Id);
                    if (x.ReadOnly) {
                        ro.insert(x.Id);
                    }
                    MON_EXPECT(R.Result["channels"].isMember(x.Id), "missing", "channel " << x.Id << ": " << c.Str());
                    if (R.Result["channels"].isMember(x.Id)) {
                        judge(c, x, R.Result["channels"][x.Id], "channel");
                    }
                }
                for (auto& x: t.Params) {
                    if (fwUnclear(c, x)) {
                        unclearFw = true;
                        continue;
                    }
                    bool wanted = std::find(c.Params.begin(), c.Params.end(), x.Id) != c.Params.end();
                    if (!wanted || !fwOk(c, x)) {
                        MON_EXPECT(!R.Result["parameters"].isMember(x.Id), "must-be-omitted", x.Id << ": " << c.Str());
                        continue;
                    }
                    MON_EXPECT(R.Result["parameters"].isMember(x.Id), "missing", "parameter " << x.Id << ": " << c.Str());
                    if (x.ReadOnly) {
                        ro.insert(x.Id);
                    }
                    if (R.Result["parameters"].isMember(x.Id)) {
                        judge(c, x, R.Result["parameters"][x.Id], "parameter");
                    }
                }
                for (auto& v: R.Result["readonly"]) {
                    gotRo.insert(v.asString());
                }
                MON_EXPECT(ro == gotRo || unclearFw, "readonly-list", c.Str());
                return;
            }
            // LoadConfig
            bool any = !t.Params.empty();
            if (any && t.Wb()) {
                bool fits = false;
                for (auto& h: t.Hw) {
                    if (h.Signature == d.Model) {
                        fits = h.Fw.empty() || CompareVersions(d.Fw, h.Fw) >= 0;
                    }
                }
                if (!fits) {
                    mon::Count("misfits");
                    MON_EXPECT(R.Errors || c.ByConfig && !c.Force && !d.Cache["model"].asString().empty(), "misfit-loaded",
                               d.Model << " " << d.Fw << ": " << c.Str());
                    if (R.Errors) {
                        return;
                    }
                }
            }
            if (R.Errors) {
                mon::Count("loads-failed");
                MON_EXPECT(expectedError || faultCount && R.Error.find("firmware") != std::string::npos || faulty || c.MayExpire && R.Code == -32600, "load-failed", c.Str());
                return;
            }
            MON_EXPECT(!expectedError, "not-refused", c.Str());
            if (!any) {
                return;
            }
            auto& P = R.Result["parameters"];
            MON_EXPECT(R.Result["fw"].asString() == (t.Wb() ? d.Fw : "") || faultCount && R.Result["fw"].isNull(), "fw", d.Fw << ": " << c.Str());
            MON_EXPECT(R.Result["model"].asString() == (t.Wb() ? d.Model : ""), "model", d.Model << ": " << c.Str());
            Json::Value given(Json::objectValue);
            bool cached = false;
            if (c.ByConfig && !c.Force) {
                cached = d.Cache.isObject() && !d.Cache["parameters"].isNull();
                given = cached ? d.Cache["parameters"] : d.Config;
            }
            mon::Count(cached ? "cached" : "not-cached");
            std::map<std::string, Json::Value> result;
            TKnown known;
            bool unclear = d.LostAt >= R.Called; // the cached answer could be used before the loss
            for (auto& x: t.Params) {
                if (unclear) {
                    break;
                }
                unclear = unclear || fwUnclear(c, x);
                if (given.isMember(x.Id)) {
                    MON_EXPECT(P[x.Id] == given[x.Id], "known-value", x.Id << ": " << c.Str());
                    if (x.Control) {
                        known[x.Id] = given[x.Id].asInt64();
                    }
                } else if (x.Control && changedSince(d, x.Part, R.Called)) {
                    unclear = true;
                }
            }
            if (unclear) {
                d.Cache = R.Result;
                if (!c.ByConfig) {
                    d.Cache = Json::Value();
                }
                return;
            }
            std::vector<const TItem*> order;
            for (auto& x: t.Params) {
                order.push_back(&x);
            }
            std::sort(order.begin(), order.end(), [](auto* a, auto* b) { return a->Id < b->Id; }); // a control depends on previous ones
            {
                for (auto* px: order) {
                    auto& x = *px;
                    if (given.isMember(x.Id) || result.count(x.Id) || !x.Readable() || x.ReadOnly || !fwOk(c, x) || !Holds(x.Cond, known) ||
                        illegalItems[&d].count(&x) && !t.Continuous)
                    {
                        continue;
                    }
                    result[x.Id] = Json::Value();
                    if (x.Control) {
                        known[x.Id] = d.Sim->Get(EType::HOLDING, x.Part.Addr);
                    }
                }
            }
            for (auto& x: t.Params) {
                if (given.isMember(x.Id)) {
                    if (P.isMember(x.Id) && !d.Config.isMember(x.Id)) {
                        judge(c, x, P[x.Id], "cached parameter");
                    }
                    continue;
                }
                if (illegalItems[&d].count(&x)) {
                    if (P.isMember(x.Id)) {
                        judge(c, x, P[x.Id], "parameter");
                    }
                    continue;
                }
                if (result.count(x.Id)) {
                    MON_EXPECT(P.isMember(x.Id), "missing", "parameter " << x.Id << ": " << c.Str());
                    if (P.isMember(x.Id)) {
                        judge(c, x, P[x.Id], "parameter");
                    }
                } else {
                    mon::Count("omitted");
                    MON_EXPECT(!P.isMember(x.Id), "must-be-omitted", x.Id << " (" << Text(x.Cond) << "): " << c.Str());
                }
            }
            for (auto& id: P.getMemberNames()) {
                bool param = given.isMember(id);
                for (auto& x: t.Params) {
                    param = param || x.Id == id;
                }
                MON_EXPECT(param, "foreign-parameter", id << ": " << c.Str());
            }
            if (c.ByConfig) {
                d.Cache = R.Result;
            }
        };

        auto start = [&]() {
            calls.emplace_back();
            auto& c = calls.back();
            c.Dev = &devs[r.Below(devs.size())];
            auto& d = *c.Dev;
            c.ByConfig = !d.Id.empty();
            c.Template = &tpls[d.Template];
            auto& q = c.Request;
            q = Json::Value(Json::objectValue);
            auto k = r.Below(10);
            c.Kind = k < 3 ? TCall::LOAD : k < 7 ? TCall::CONFIG : TCall::SET;
            if (c.ByConfig && r.Chance(60)) {
                q["device_id"] = d.Id;
            } else {
                if (tcp) {
                    q["ip"] = "sim";
                    q["port"] = 502;
                    q["modbus_mode"] = "TCP";
                } else {
                    q["path"] = names[d.Port];
                    q["baud_rate"] = 9600;
                    q["parity"] = "N";
                    q["data_bits"] = 8;
                    q["stop_bits"] = 2;
                }
                if (r.Chance(50)) {
                    q["slave_id"] = d.Slave;
                } else {
                    q["slave_id"] = std::to_string(d.Slave);
                }
                if (!c.ByConfig && r.Chance(10)) {
                    // another template for the same device
                    c.Template = &tpls[r.Below(tpls.size())];
                    if (c.Template != &tpls[d.Template]) {
                        c.Template = &tpls[d.Template];
                    }
                }
                q["device_type"] = c.Template->Type;
                if (r.Chance(20)) {
                    q["response_timeout"] = r.Of({100, 500, 800});
                }
                if (r.Chance(20)) {
                    q["frame_timeout"] = r.Of({20, 40});
                }
                if (r.Chance(10)) {
                    q["total_timeout"] = r.Of({1, 50, 20000});
                    c.MayExpire = q["total_timeout"].asInt() < 20000;
                }
            }
            auto& t = *c.Template;
            if (c.Kind == TCall::LOAD) {
                bool badChan = r.Chance(5), badParam = r.Chance(5);
                if (r.Chance(60)) {
                    for (auto& x: t.Chans) {
                        if (r.Chance(40) && (x.Readable() || r.Chance(10))) {
                            c.Chans.push_back(x.Id);
                            c.Refused = c.Refused || !x.Readable();
                        }
                    }
                    if (badChan) {
                        c.Chans.push_back("c99");
                        c.Refused = true;
                    }
                }
                for (auto& x: t.Params) {
                    if (r.Chance(30) && (x.Readable() || r.Chance(10))) {
                        c.Params.push_back(x.Id);
                        c.Refused = c.Refused || !x.Readable();
                    }
                }
                if (badParam) {
                    c.Params.push_back("zzz");
                    c.Refused = true;
                }
                for (auto& x: c.Chans) {
                    q["channels"].append(x);
                }
                for (auto& x: c.Params) {
                    q["parameters"].append(x);
                }
            } else if (c.Kind == TCall::CONFIG) {
                c.Force = r.Chance(30);
                if (c.Force || r.Chance(20)) {
                    q["force"] = c.Force;
                }
            } else {
                std::set<std::string> regs;
                auto add = [&](const TItem& x, Json::Value& into) {
                    if (x.NoAddress || !x.Part.Writable() || x.Part.Spec.Round > 0) {
                        return;
                    }
                    if (x.ReadOnly) {
                        if (r.Chance(90)) {
                            return;
                        }
                        c.Refused = true;
                        into[x.Id] = 1;
                        return;
                    }
                    if (illegalItems[&d].count(&x)) {
                        if (r.Chance(90)) {
                            return;
                        }
                        c.Fails = x.Part.WriteAddr < 0 || c.Fails;
                    }
                    auto text = x.Control ? std::to_string(r.Below(4)) : w.RandomText(x.Part);
                    if (r.Chance(3) && !x.Part.IsBit() && !x.Part.Spec.IsString() && x.Part.Spec.Format != Char8) {
                        into[x.Id] = "abc";
                        c.Refused = true;
                        return;
                    }
                    char* end = nullptr;
                    strtod(text.c_str(), &end);
                    bool number = !*end && !x.Part.Spec.IsString() && x.Part.Spec.Format != Char8;
                    if (number && r.Chance(50)) {
                        into[x.Id] = sys::Json("[" + text + "]")[0];
                    } else {
                        into[x.Id] = text;
                    }
                    c.Items.emplace_back(&x, text);
                };
                for (auto& x: t.Chans) {
                    if (r.Chance(20)) {
                        add(x, q["channels"]);
                    }
                }
                for (auto& x: t.Params) {
                    if (r.Chance(30)) {
                        add(x, q["parameters"]);
                    }
                }
                if (r.Chance(4)) {
                    q[r.Chance(50) ? "parameters" : "channels"]["nope"] = 1;
                    c.Refused = true;
                }
                for (auto n: {"channels", "parameters"}) {
                    if (q.isMember(n) && q[n].isNull()) {
                        q.removeMember(n);
                    }
                }
            }
            c.Changes = d.Changes;
            c.Faults = faultCount;
            c.Started = Now();
            auto* pc = &c;
            c.Reply = rpc.Call("device", c.Kind == TCall::LOAD ? "Load" : c.Kind == TCall::CONFIG ? "LoadConfig" : "Set", q, [&, pc] {
                if (pc->Reply) {
                    done(*pc);
                }
            });
            if (c.Reply->Count()) {
                mon::Count("immediate");
                done(c);
            }
        };

        svc.RunFor(milliseconds(r.Of({0, 300, 3000, 6000})));
        for (int round = 0; round < 8; ++round) {
            faultsNow = faults && r.Chance(60);
            start();
            if (calls.size() > 200) {
                break;
            }
            auto limit = Now() + 40s;
            while (!calls.back().Reply->Count() && Now() < limit) {
                svc.Cycle();
            }
            auto& c = calls.back();
            MON_EXPECT(c.Reply->Count() == 1, c.Reply->Count() ? "replies" : "no-reply", c.Str());
            if (c.Reply->Count() != 1) {
                break;
            }
            if (r.Chance(30)) {
                svc.RunFor(milliseconds(r.Of({50, 500, 2000})));
            }
            if (r.Chance(12)) {
                // a device disappears, is changed and comes back
                auto& d = devs[r.Below(devs.size())];
                auto was = d.Changes;
                d.Sim->Online = false;
                svc.RunFor(8s);
                bool lost = d.Id.empty() || d.Changes != was;
                if (lost) {
                    mon::Count("disconnections");
                    auto& t = tpls[d.Template];
                    for (auto& x: t.Params) {
                        if (r.Chance(50) && !illegalItems[&d].count(&x)) {
                            fill(d, x);
                        }
                    }
                    d.Sim->Set(EType::HOLDING, 114, 0);
                }
                d.Sim->Online = true;
                svc.RunFor(25s);
            }
        }
        svc.RunFor(2s);
        for (auto& c: calls) {
            MON_EXPECT(c.Reply->Count() == 1, "replies", c.Str());
        }
        if (!calls.empty() && calls.front().Reply) {
            mon::Sample(calls.front().Str().substr(0, 300));
        }
    }
}

MON_CHECK("R03", Case);
