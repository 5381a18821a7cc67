// T01, T02: what a configuration and its templates become
#include "config_merge_template.h"
#include "refcfg.h"
#include "port/serial_port.h"
#include "sys.h"

#include <algorithm>
#include <filesystem>

namespace fs = std::filesystem;
using mon::Rng;
using namespace refcfg;

namespace
{
    std::string Text(const Json::Value& v)
    {
        Json::FastWriter w;
        auto s = w.write(v);
        while (!s.empty() && s.back() == '\n') {
            s.pop_back();
        }
        return s;
    }

    // numbers of JSON texts may come as different types: 1 and 1u
    bool Same(const Json::Value& a, const Json::Value& b)
    {
        if (a.isArray() && b.isArray()) {
            if (a.size() != b.size()) {
                return false;
            }
            for (Json::ArrayIndex i = 0; i < a.size(); ++i) {
                if (!Same(a[i], b[i])) {
                    return false;
                }
            }
            return true;
        }
        if (a.isObject() && b.isObject()) {
            if (a.getMemberNames() != b.getMemberNames()) {
                return false;
            }
            for (const auto& k: a.getMemberNames()) {
                if (!Same(a[k], b[k])) {
                    return false;
                }
            }
            return true;
        }
        return a == b || Text(a) == Text(b);
    }

    std::string Diff(const Json::Value& got, const Json::Value& exp, const std::string& where)
    {
        if (got.isArray() && exp.isArray()) {
            for (Json::ArrayIndex i = 0; i < std::max(got.size(), exp.size()); ++i) {
                auto at = where + "[" + std::to_string(i) + "]";
                if (i >= got.size()) {
                    return at + " is missing: " + Text(exp[i]).substr(0, 300);
                }
                if (i >= exp.size()) {
                    return at + " is not expected: " + Text(got[i]).substr(0, 300);
                }
                if (!Same(got[i], exp[i])) {
                    return Diff(got[i], exp[i], at);
                }
            }
        }
        if (got.isObject() && exp.isObject()) {
            std::set<std::string> keys;
            for (auto& k: got.getMemberNames()) {
                keys.insert(k);
            }
            for (auto& k: exp.getMemberNames()) {
                keys.insert(k);
            }
            for (auto& k: keys) {
                if (!got.isMember(k)) {
                    return where + "." + k + " is missing: " + Text(exp[k]).substr(0, 300);
                }
                if (!exp.isMember(k)) {
                    return where + "." + k + " is not expected: " + Text(got[k]).substr(0, 300);
                }
                if (!Same(got[k], exp[k])) {
                    return Diff(got[k], exp[k], where + "." + k);
                }
            }
        }
        return where + ": " + Text(got).substr(0, 300) + " instead of " + Text(exp).substr(0, 300);
    }

    // leaves what decides the behaviour: conditions are already applied
    Json::Value Clean(const Json::Value& channels)
    {
        Json::Value res(Json::arrayValue);
        for (auto c: channels) {
            if (c.isMember("channels") || c.isMember("device_type")) {
                auto sub = Clean(c["channels"]);
                c["channels"] = sub;
                for (auto k: {"subdevices", "groups", "parameters", "translations"}) {
                    c.removeMember(k);
                }
            }
            c.removeMember("condition");
            c.removeMember("dependencies"); // an annotation for the web interface
            res.append(c);
        }
        return res;
    }

    Json::Value CleanSetup(const Json::Value& setup)
    {
        Json::Value res(Json::arrayValue);
        for (auto s: setup) {
            s.removeMember("condition");
            s.removeMember("dependencies");
            s.removeMember("id"); // parameters may be an array or an object
            res.append(s);
        }
        return res;
    }

    // ---- templates

    struct TShipped
    {
        std::string File, Type;
        Json::Value Root;
        bool Deprecated = false;
    };

    TProto Proto(const std::string& name)
    {
        TProto p;
        p.Protocol = sys::Static().Factory.GetProtocol(name);
        static const std::set<std::string> own{"lls", "mercury200", "mercury230", "energomera_iec_mode_c", "energomera_iec", "somfy", "iec_mode_c", "dlms", "energomera_ce"};
        p.NumberAddresses = !own.count(name);
        static const std::set<std::string> words{"modbus", "modbus_io", "modbus-tcp", "modbus_io-tcp"};
        p.BytesPerAddress = words.count(name) ? 2 : 1;
        return p;
    }

    struct TShippedSet
    {
        PTemplateMap Map;
        std::vector<TShipped> List;
        TShippedSet()
        {
            Map = std::make_shared<TTemplateMap>(
                LoadConfigTemplatesSchema(mon::Repo() + "/wb-mqtt-serial-device-template.schema.json", sys::Static().Common), "");
            std::map<std::string, std::string> preferred;
            for (auto dir: {mon::Repo() + "/templates", std::string(getenv("VERIF_TEMPLATES") ? getenv("VERIF_TEMPLATES") : "")}) {
                if (dir.empty()) {
                    continue;
                }
                Map->AddTemplatesDir(dir, false);
                for (auto& e: fs::directory_iterator(dir)) {
                    if (e.path().extension() == ".json") {
                        TShipped t;
                        t.File = e.path().filename();
                        t.Root = WBMQTT::JSON::Parse(e.path());
                        t.Type = t.Root["device_type"].asString();
                        t.Deprecated = t.Root.isMember("deprecated") && t.Root["deprecated"].asBool();
                        // the program has no DLMS here: the library is missing
                        if (t.Root["device"].isMember("protocol") && t.Root["device"]["protocol"].asString() == "dlms") {
                            continue;
                        }
                        List.push_back(t);
                    }
                }
            }
            std::sort(List.begin(), List.end(), [](auto& a, auto& b) { return a.File < b.File; });
        }
    };

    TShippedSet& Shipped()
    {
        static TShippedSet s;
        return s;
    }

    // The program converts numbers of "enum" to texts and nothing else in channels
    Json::Value Plain(Json::Value dev)
    {
        std::function<void(Json::Value&)> fix = [&](Json::Value& d) {
            for (auto& c: d["channels"]) {
                if (c.isMember("enum")) {
                    for (auto& e: c["enum"]) {
                        if (e.isNumeric()) {
                            e = e.asString();
                        }
                    }
                }
            }
            if (d.isMember("subdevices")) {
                for (auto& s: d["subdevices"]) {
                    if (s["device"].isMember("channels")) {
                        fix(s["device"]);
                    }
                }
            }
        };
        if (dev.isMember("channels")) {
            fix(dev);
        }
        return dev;
    }

    struct TWarnings
    {
        std::vector<std::string> Ignored;
        TWarnings()
        {
            WBMQTT::TLogger::Mute = false;
            WBMQTT::TLogger::Sink = [this](const std::string&, const std::string& text) {
                if (text.find("\" is ignored: ") != std::string::npos) {
                    Ignored.push_back(text);
                }
            };
        }
        ~TWarnings()
        {
            WBMQTT::TLogger::Sink = nullptr;
            WBMQTT::TLogger::Mute = true;
        }
    };

    PFeaturePort AnyPort(const std::string& name)
    {
        return std::make_shared<TFeaturePort>(std::make_shared<sim::TSimPort>(name, 9600), false);
    }

    Json::Value OnePort(const Json::Value& device)
    {
        auto cfg = sys::Json(R"({"ports":[{"port_type":"serial","path":"/dev/ttyA","baud_rate":9600,"devices":[]}]})");
        cfg["ports"][0]["devices"].append(device);
        return cfg;
    }

    // What the program made of a device against the description of the merged configuration
    struct TPortDefaults
    {
        long Guard = 0;
        std::optional<long> Rate;
        std::string Id;
        bool Tcp = false;
        std::optional<bool> Wb;
    };

    size_t Judge(const TSerialDeviceWithChannels& d, const TMerged& m, const Json::Value& tmpl, const std::string& who, bool withTemplate,
                 const std::vector<std::string>* ignored, const TPortDefaults& port = TPortDefaults())
    {
        auto protoName = m.Props.isMember("protocol") && !m.Props["protocol"].asString().empty() ? m.Props["protocol"].asString() : "modbus";
        if (port.Tcp) {
            protoName += "-tcp";
        }
        auto proto = Proto(protoName);
        TDeviceText exp;
        auto rate = port.Rate;
        if (m.Props.isMember("read_rate_limit_ms") && m.Props["read_rate_limit_ms"].asInt() >= 0) {
            rate = m.Props["read_rate_limit_ms"].asInt();
        }
        static const Json::Value none;
        const auto& tr = withTemplate && tmpl.isMember("translations") ? tmpl["translations"] : none;
        Load(m.Channels, m.Setup, proto, tr, TPlace(), rate, exp);
        auto got = Describe(d, proto);
        for (size_t i = 0; i < std::max(got.Channels.size(), exp.Channels.size()); ++i) {
            auto g = i < got.Channels.size() ? got.Channels[i] : "nothing", e = i < exp.Channels.size() ? exp.Channels[i] : "nothing";
            if (g != e) {
                mon::Violation("channel", "got " + g + "\n    instead of " + e + "\n in " + who);
                break;
            }
        }
        mon::Count("channels", got.Channels.size());
        for (size_t i = 0; i < d.Channels.size(); ++i) {
            if (d.Channels[i]->Order != int(i + 1)) {
                mon::Violation("order", who + ": " + d.Channels[i]->MqttId + " has order " + std::to_string(d.Channels[i]->Order));
            }
        }
        if (ignored) {
            if (ignored->size() != exp.Ignored.size()) {
                mon::Violation("ignored", who + ": " + std::to_string(ignored->size()) + " channels are ignored instead of " +
                                              std::to_string(exp.Ignored.size()) + (ignored->empty() ? "" : " " + ignored->front()));
            }
            mon::Count("ignored-channels", ignored->size());
        }
        if (exp.Unclear) {
            mon::Count("setup-unclear");
        } else {
            bool ordered = m.Props.isMember("preserve_setup_order") && m.Props["preserve_setup_order"].asBool();
            auto g = SetupLines(got, ordered), e = SetupLines(exp, ordered);
            if (g != e) {
                std::string diff;
                for (size_t i = 0; i < std::max(g.size(), e.size()) && diff.empty(); ++i) {
                    auto x = i < g.size() ? g[i] : "nothing", y = i < e.size() ? e[i] : "nothing";
                    if (x != y) {
                        diff = x + "\n    instead of " + y;
                    }
                }
                mon::Violation("setup", who + ": " + diff);
            }
            mon::Count("setup-items", g.size());
            mon::Count("setup-replaced", exp.Replaced);
            mon::Count("setup-ordered", ordered && g.size() > 1);
        }
        auto& cfg = *d.Device->DeviceConfig();
        auto eq = [&](const char* k, const std::string& g, const std::string& e) {
            if (g != e) {
                mon::Violation(std::string("device:") + k, who + ": " + mon::Quote(g) + " instead of " + mon::Quote(e));
            }
        };
        auto str = [&](const char* k) { return m.Props.isMember(k) ? m.Props[k].asString() : ""; };
        eq("name", cfg.Name, str("name"));
        if (m.Props.isMember("id") || !port.Id.empty()) {
            eq("id", cfg.Id, m.Props.isMember("id") ? str("id") : port.Id);
        }
        eq("slave_id", cfg.SlaveId, str("slave_id"));
        eq("device_type", cfg.DeviceType, str("device_type"));
        eq("protocol", d.Device->Protocol()->GetName(), protoName);
        TDeviceConfig def;
        auto num = [&](const char* k, long long g, long long dflt) {
            eq(k, std::to_string(g), std::to_string(m.Props.isMember(k) ? m.Props[k].asInt64() : dflt));
        };
        num("device_timeout_ms", cfg.DeviceTimeout.count(), def.DeviceTimeout.count());
        num("device_max_fail_cycles", cfg.DeviceMaxFailCycles, def.DeviceMaxFailCycles);
        num("max_write_fail_time_s", cfg.MaxWriteFailTime.count(), def.MaxWriteFailTime.count());
        num("max_reg_hole", cfg.MaxRegHole, def.MaxRegHole);
        num("max_bit_hole", cfg.MaxBitHole, def.MaxBitHole);
        num("max_read_registers", cfg.MaxReadRegisters, def.MaxReadRegisters);
        num("min_read_registers", cfg.MinReadRegisters, def.MinReadRegisters);
        bool own = m.Props.isMember("guard_interval_us") && m.Props["guard_interval_us"].asInt64() != 0;
        eq("guard_interval_us", std::to_string(cfg.RequestDelay.count()), std::to_string(own ? m.Props["guard_interval_us"].asInt64() : port.Guard));
        num("stride", cfg.Stride, def.Stride);
        num("shift", cfg.Shift, def.Shift);
        for (auto k: {"response_timeout_ms", "frame_timeout_ms"}) {
            if (m.Props.isMember(k) && m.Props[k].asInt64() > 0) {
                num(k, *k == 'r' ? cfg.ResponseTimeout.count() : cfg.FrameTimeout.count(), 0);
            }
        }
        if (m.Props.isMember("max_write_registers") || port.Wb) {
            num("max_write_registers", cfg.MaxWriteRegisters, port.Wb && *port.Wb ? 123 : 1);
        }
        num("access_level", cfg.AccessLevel, def.AccessLevel);
        num("min_request_interval", cfg.MinRequestInterval.count(), def.MinRequestInterval.count());
        mon::Count("devices");
        return exp.Ignored.size();
    }

    // ---- user's settings over a template

    std::string HexText(unsigned v)
    {
        char b[16];
        snprintf(b, sizeof(b), "0x%x", v);
        return b;
    }

    std::string SlaveFor(Rng& r, const std::string& protocol, int i = 0)
    {
        if (protocol == "somfy") {
            return HexText(65536 + r.Below(1 << 22) * 2 + i);
        }
        if (protocol == "modbus_io") {
            return std::to_string(1 + i) + ":" + std::to_string(1 + r.Below(4));
        }
        return std::to_string(1 + i + r.Below(5) * 8);
    }

    double ParamValue(Rng& r, const Json::Value& p)
    {
        if (p.isMember("enum") && p["enum"].size()) {
            return p["enum"][Json::ArrayIndex(r.Below(p["enum"].size()))].asDouble();
        }
        double lo = p.isMember("min") ? p["min"].asDouble() : 0;
        double hi = p.isMember("max") ? p["max"].asDouble() : lo + 20;
        if (hi < lo) {
            hi = lo;
        }
        auto v = r.Chance(30) ? lo : r.Chance(30) ? hi : std::floor(lo + r.Unit() * (hi - lo));
        return std::max(v, lo);
    }

    Json::Value Number(double d)
    {
        if (d == std::floor(d) && std::fabs(d) < 1e9) {
            return Json::Value(int(d));
        }
        return Json::Value(d);
    }

    // Settings accepted by the scheme of the template
    Json::Value UserFor(Rng& r, const Json::Value& tmpl, const std::string& type, int index = 0, bool tame = false)
    {
        Json::Value u(Json::objectValue);
        auto protocol = tmpl.isMember("protocol") ? tmpl["protocol"].asString() : "modbus";
        u["device_type"] = type;
        u["slave_id"] = SlaveFor(r, protocol, index);
        if (r.Chance(25)) {
            u["name"] = "Name " + std::to_string(r.Below(100));
        }
        if (r.Chance(25)) {
            u["id"] = "user" + std::to_string(index) + "_" + std::to_string(r.Below(100));
        }
        if (r.Chance(20)) {
            u["device_timeout_ms"] = int(r.Below(9000));
        }
        if (r.Chance(20)) {
            u["read_rate_limit_ms"] = int(r.Below(9000));
        }
        if (r.Chance(15)) {
            u["guard_interval_us"] = int(r.Below(9000));
        }
        if (r.Chance(15)) {
            u["preserve_setup_order"] = true;
        }
        unsigned share = r.Of<unsigned>({0, 10, 50, 90});
        std::set<std::string> seen;
        EachParam(tmpl, [&](const std::string& id, const Json::Value& p) {
            bool need = p.isMember("required") && p["required"].asBool();
            if ((need || r.Chance(share)) && seen.insert(id).second) {
                u[id] = Number(ParamValue(r, p));
            }
        });
        share = r.Of<unsigned>({0, 10, 50, 90});
        std::set<std::string> used;
        if (tmpl.isMember("channels") && !tmpl.isMember("subdevices")) {
            Json::Value list(Json::arrayValue);
            for (const auto& c: tmpl["channels"]) {
                if (!r.Chance(share) || !used.insert(c["name"].asString()).second) {
                    continue;
                }
                Json::Value o(Json::objectValue);
                o["name"] = c["name"];
                if (r.Chance(40)) {
                    o["enabled"] = r.Chance(50);
                }
                if (r.Chance(30)) {
                    o["read_period_ms"] = int(10 + r.Below(5000));
                }
                if (r.Chance(30)) {
                    o["read_rate_limit_ms"] = int(r.Below(5000));
                }
                if (r.Chance(25)) {
                    o["readonly"] = r.Chance(50);
                }
                if (r.Chance(15)) {
                    o["units"] = "u" + std::to_string(r.Below(5));
                }
                if (!tame && r.Chance(25)) { // not for the user to change
                    static const std::vector<std::string> keys(Fixed().begin(), Fixed().end());
                    auto k = r.Pick(keys);
                    if (k != "name") {
                        o[k] = k == "id" || k == "type" || k == "reg_type" || k == "format" || k.find("order") != std::string::npos
                                   ? Json::Value("little_endian")
                               : k == "consists_of" ? Json::Value(Json::arrayValue)
                                                    : Json::Value(int(r.Below(9)));
                    }
                }
                list.append(o);
            }
            if (protocol == "modbus") {
                for (int n = r.Below(3); n > 0; --n) {
                    Json::Value o(Json::objectValue);
                    o["name"] = "Extra " + std::to_string(n);
                    o["address"] = int(r.Below(1000));
                    o["reg_type"] = r.Of<const char*>({"holding", "input", "coil", "discrete"});
                    if (r.Chance(30)) {
                        o["readonly"] = true;
                    }
                    if (r.Chance(30)) {
                        o["id"] = "extra_" + std::to_string(n);
                    }
                    if (r.Chance(30)) {
                        o["format"] = r.Of<const char*>({"u16", "s32", "float", "u64"});
                        o["reg_type"] = "input";
                    }
                    list.insert(r.Below(list.size() + 1), o);
                }
            }
            if (!list.empty() || r.Chance(20)) {
                u["channels"] = list;
            }
        }
        if (protocol == "modbus" && r.Chance(40)) {
            Json::Value list(Json::arrayValue);
            for (int n = 1 + r.Below(3); n > 0; --n) {
                Json::Value s(Json::objectValue);
                s["title"] = "Mine " + std::to_string(n);
                s["reg_type"] = "holding";
                s["address"] = int(r.Below(300));
                s["value"] = int(r.Below(1000));
                // the address of an item of the template: the user's one wins
                if (tmpl.isMember("setup") && !tmpl["setup"].empty() && r.Chance(40)) {
                    const auto& t = tmpl["setup"][Json::ArrayIndex(r.Below(tmpl["setup"].size()))];
                    s["address"] = t["address"];
                    if (t.isMember("reg_type")) {
                        s["reg_type"] = t["reg_type"];
                    } else {
                        s.removeMember("reg_type");
                    }
                }
                list.append(s);
            }
            u["setup"] = list;
        }
        return u;
    }

    // One user's configuration over one template by both ways into the program
    void MergeOne(const Json::Value& user, const Json::Value& plain, const Json::Value& given, const std::string& type,
                  const std::string& who)
    {
        TMerged m;
        std::string refused;
        try {
            m = Merge(user, plain);
        } catch (const TRefused& e) {
            refused = e.Why;
        }
        auto before = given;
        Json::Value got;
        std::string error;
        try {
            got = MergeDeviceConfigWithTemplate(user, type, given);
            auto again = MergeDeviceConfigWithTemplate(user, type, given);
            if (again != got) {
                mon::Violation("not-repeatable", who);
            }
        } catch (const std::exception& e) {
            error = e.what();
            if (error.empty()) {
                error = "(no text)";
            }
        }
        if (given != before) {
            mon::Violation("template-changed", who + ": " + Diff(given, before, "template"));
        }
        mon::Count("merges");
        mon::Distinct(who + Text(user).substr(0, 2000));
        if (!refused.empty()) {
            mon::Count("refused");
            if (error.empty()) {
                mon::Violation("not-refused", who + ": " + refused + "\n" + Text(user).substr(0, 1500));
            }
            return;
        }
        if (!error.empty()) {
            mon::Violation("refused", who + ": " + error + "\n" + Text(user).substr(0, 1500));
            return;
        }
        auto judge = [&](const char* what, const Json::Value& g, const Json::Value& e) {
            if (!Same(g, e)) {
                mon::Violation(what, who + ": " + Diff(g, e, what) + "\nuser: " + Text(user).substr(0, 1500));
            }
        };
        judge("channels", Clean(got["channels"]), Clean(m.Channels));
        static const Json::Value none(Json::arrayValue);
        judge("setup", CleanSetup(got.isMember("setup") ? got["setup"] : none), CleanSetup(m.Setup));
        Json::Value props(got);
        std::set<std::string> params{"channels", "setup", "parameters", "subdevices"};
        EachParam(plain, [&](const std::string& id, const Json::Value&) { params.insert(id); });
        for (auto& k: params) {
            props.removeMember(k);
        }
        auto exp = m.Props;
        for (auto k: {"groups", "translations"}) {
            props.removeMember(k);
            exp.removeMember(k);
        }
        judge("properties", props, exp);
        mon::Count("merged-channels", m.Channels.size());
        mon::Count("merged-setup", m.Setup.size());
        uint64_t all = (plain.isMember("channels") ? plain["channels"].size() : 0);
        mon::Count("absent-channels", all > m.Channels.size() ? all - m.Channels.size() : 0);
    }

    // ---- generated templates

    const char* PARAMS[] = {"p1", "p2", "p3", "mode", "in1_type"};

    std::string GenCond(Rng& r, int depth = 2)
    {
        auto atom = [&]() -> std::string {
            std::string p = r.Chance(90) ? r.Pick(PARAMS) : "unknown";
            switch (r.Below(4)) {
                case 0:
                    return "isDefined(" + p + ")";
                case 1:
                    return p + "!=" + std::to_string(r.Below(4));
                case 2:
                    return p + r.Of<const char*>({"<", ">", "<=", ">="}) + std::to_string(r.Below(4));
                default:
                    return p + "==" + std::to_string(r.Below(4));
            }
        };
        if (depth == 0 || r.Chance(50)) {
            return atom();
        }
        auto s = GenCond(r, depth - 1) + r.Of<const char*>({"&&", "||"}) + GenCond(r, depth - 1);
        return r.Chance(30) ? "(" + s + ")" : s;
    }

    Json::Value GenSimple(Rng& r, const std::string& name, bool sub)
    {
        Json::Value c(Json::objectValue);
        c["name"] = name;
        c["reg_type"] = r.Of<const char*>({"holding", "input", "coil", "discrete", "holding"});
        bool word = c["reg_type"] == "holding" || c["reg_type"] == "input";
        c["address"] = r.Chance(70) ? Json::Value(int(r.Below(2000))) : Json::Value(HexText(r.Below(65536)));
        if (word) {
            if (r.Chance(50)) {
                c["format"] = r.Of<const char*>({"u8", "s16", "u32", "s32", "float", "u64", "double", "bcd32", "s24"});
            }
            if (r.Chance(20)) {
                c["scale"] = 0.1 * (1 + r.Below(30));
            }
            if (r.Chance(20)) {
                c["offset"] = int(r.Below(10));
            }
            if (r.Chance(20)) {
                c["round_to"] = 0.01;
            }
            if (r.Chance(15)) {
                c["error_value"] = "0xFFFF";
            }
            if (r.Chance(10)) {
                c["unsupported_value"] = "0xFFFE";
            }
            if (r.Chance(15)) {
                c["word_order"] = "little_endian";
            }
            if (r.Chance(15)) {
                c["byte_order"] = "little_endian";
            }
            if (r.Chance(15)) {
                c["format"] = "u16";
                c["address"] = std::to_string(r.Below(500)) + ":" + std::to_string(r.Below(12)) + ":" + std::to_string(1 + r.Below(4));
            }
            if (r.Chance(10) && c["reg_type"] == "holding") {
                c["write_address"] = int(r.Below(2000));
                if (c["address"].isString() && c["address"].asString().find(':') != std::string::npos) {
                    c.removeMember("write_address");
                }
            }
        }
        if (r.Chance(40)) {
            c["type"] = r.Of<const char*>({"value", "switch", "range", "text", "temperature", "wo-switch", "pushbutton"});
            if (c["reg_type"] == "input" || c["reg_type"] == "discrete") {
                c["type"] = "value";
            }
        }
        if (r.Chance(25)) {
            c["readonly"] = r.Chance(70);
        }
        if (r.Chance(25)) {
            c["enabled"] = r.Chance(40);
        }
        if (r.Chance(10)) {
            c["hidden"] = true;
        }
        if (r.Chance(25)) {
            c["id"] = "id_" + std::to_string(r.Below(1000));
        }
        if (r.Chance(15)) {
            c["max"] = int(r.Below(500));
        }
        if (r.Chance(15)) {
            c["min"] = -int(r.Below(500));
        }
        if (r.Chance(15)) {
            c["on_value"] = r.Chance(50) ? Json::Value(int(r.Below(9))) : Json::Value("0xF0");
            c["off_value"] = 0;
        }
        if (r.Chance(15)) {
            c["units"] = "V";
        }
        if (r.Chance(15)) {
            c["fw"] = "1." + std::to_string(r.Below(9)) + ".0";
        }
        if (r.Chance(15)) {
            c["read_rate_limit_ms"] = int(r.Below(3000));
        }
        if (r.Chance(10)) {
            c["read_period_ms"] = int(10 + r.Below(3000));
        }
        if (r.Chance(12)) {
            c[r.Chance(50) ? "sporadic" : "semi-sporadic"] = true;
        }
        if (r.Chance(15)) {
            for (int i = 0; i < 3; ++i) {
                c["enum"].append(i * 2);
                c["enum_titles"].append("Title " + std::to_string(i));
            }
            if (r.Chance(15)) {
                // Titles that do not correspond to values are ignored
                c["enum"].append(7);
            } else if (r.Chance(15)) {
                c["enum_titles"].append("One more");
            } else if (r.Chance(15)) {
                c.removeMember("enum_titles");
            }
        }
        if (word && !sub && r.Chance(8)) {
            c.removeMember("address");
            c.removeMember("write_address");
            for (int i = 0; i < 2; ++i) {
                Json::Value p(Json::objectValue);
                p["reg_type"] = c["reg_type"];
                p["address"] = int(r.Below(300));
                c["consists_of"].append(p);
            }
            for (auto k: {"reg_type", "format", "scale", "offset", "round_to", "error_value", "unsupported_value", "word_order", "byte_order", "on_value", "off_value", "readonly", "fw", "sporadic", "semi-sporadic"}) {
                c.removeMember(k);
            }
        }
        if (!sub && r.Chance(35)) {
            c["condition"] = GenCond(r);
        }
        return c;
    }

    Json::Value GenSetup(Rng& r, const char* title, bool cond)
    {
        Json::Value list(Json::arrayValue);
        for (int n = 1 + r.Below(4); n > 0; --n) {
            Json::Value s(Json::objectValue);
            s["title"] = title + std::string(" ") + std::to_string(n);
            s["address"] = int(r.Below(12));
            if (r.Chance(70)) {
                s["reg_type"] = "holding";
            }
            s["value"] = r.Chance(80) ? Json::Value(int(r.Below(1000))) : Json::Value("0x1F");
            if (cond && r.Chance(40)) {
                s["condition"] = GenCond(r);
            }
            list.append(s);
        }
        return list;
    }

    Json::Value GenParams(Rng& r, bool cond)
    {
        bool arr = r.Chance(50);
        Json::Value res(arr ? Json::arrayValue : Json::objectValue);
        int a = 20;
        for (auto id: PARAMS) {
            if (r.Chance(25)) {
                continue;
            }
            Json::Value p(Json::objectValue);
            p["title"] = std::string("Param ") + id;
            if (r.Chance(10)) {
                p["readonly"] = true;
            }
            p["address"] = r.Chance(85) ? a++ : int(r.Below(12));
            if (r.Chance(60)) {
                p["reg_type"] = "holding";
            }
            if (r.Chance(50)) {
                p["default"] = int(r.Below(4));
            }
            if (r.Chance(20)) {
                p["scale"] = 0.5;
            }
            if (cond && r.Chance(30)) {
                p["condition"] = GenCond(r, 1);
            }
            if (arr) {
                p["id"] = id;
                res.append(p);
                if (r.Chance(15)) {
                    p["condition"] = std::string(r.Pick(PARAMS)) + "==1";
                    if (!cond) {
                        p.removeMember("condition");
                        continue;
                    }
                    res.append(p);
                }
            } else {
                res[id] = p;
            }
        }
        return res;
    }

    struct TGen
    {
        Json::Value Device;
        bool Subs = false;
    };

    Json::Value GenSubChannel(Rng& r, const std::string& name, const std::vector<std::string>& types)
    {
        Json::Value c(Json::objectValue);
        c["name"] = name;
        if (r.Chance(40)) {
            for (auto& t: types) {
                if (r.Chance(60)) {
                    c["oneOf"].append(t);
                }
            }
            if (!c.isMember("oneOf")) {
                c["oneOf"].append(types[0]);
            }
            c["device_type"] = c["oneOf"][Json::ArrayIndex(r.Below(c["oneOf"].size()))];
        } else {
            c["device_type"] = r.Pick(types);
        }
        if (r.Chance(60)) {
            c["shift"] = r.Chance(70) ? Json::Value(int(r.Below(200))) : Json::Value("0x20");
        }
        if (r.Chance(30)) {
            c["stride"] = int(r.Below(10));
        }
        if (r.Chance(40)) {
            c["id"] = r.Chance(20) ? "" : "sub_" + std::to_string(r.Below(100));
        }
        return c;
    }

    TGen GenTemplate(Rng& r)
    {
        TGen g;
        Json::Value& d = g.Device;
        d = Json::Value(Json::objectValue);
        d["name"] = "Device";
        if (r.Chance(80)) {
            d["id"] = "dev";
        }
        for (auto k: {"max_read_registers", "response_timeout_ms", "frame_timeout_ms", "device_timeout_ms", "guard_interval_us", "max_reg_hole"}) {
            if (r.Chance(20)) {
                d[k] = int(1 + r.Below(50));
            }
        }
        g.Subs = r.Chance(35);
        std::vector<std::string> types;
        if (g.Subs) {
            // a type contains only types after it: no cycles
            int n = 1 + r.Below(3);
            for (int i = 0; i < n; ++i) {
                types.push_back("sub" + std::to_string(i));
            }
            for (int i = 0; i < n; ++i) {
                Json::Value s(Json::objectValue);
                s["device_type"] = types[i];
                auto& sd = s["device"];
                sd = Json::Value(Json::objectValue);
                sd["channels"] = Json::Value(Json::arrayValue);
                for (int c = 1 + r.Below(3); c > 0; --c) {
                    sd["channels"].append(GenSimple(r, "Inner " + std::to_string(c), true));
                }
                if (i + 1 < n && r.Chance(50)) {
                    sd["channels"].append(GenSubChannel(r, "Nested", {types.begin() + i + 1, types.end()}));
                }
                if (r.Chance(40)) {
                    sd["setup"] = GenSetup(r, "Inner setup", false);
                }
                if (r.Chance(40)) {
                    sd["parameters"] = GenParams(r, false);
                }
                d["subdevices"].append(s);
            }
        }
        d["channels"] = Json::Value(Json::arrayValue);
        int n = r.Below(8);
        for (int i = 0; i < n; ++i) {
            auto name = "Channel " + std::to_string(r.Chance(85) ? i : 0); // same names with different conditions
            if (g.Subs && r.Chance(50)) {
                d["channels"].append(GenSubChannel(r, "Sub " + std::to_string(i), types));
            } else {
                d["channels"].append(GenSimple(r, name, false));
            }
        }
        if (r.Chance(70)) {
            d["parameters"] = GenParams(r, true);
        }
        if (r.Chance(60)) {
            d["setup"] = GenSetup(r, "Template setup", true);
        }
        if (r.Chance(50)) {
            for (auto lang: {"en", "ru"}) {
                for (auto name: {"Channel 0", "Channel 1", "Sub 1", "Sub 2", "Inner 1", "Inner 2", "Nested", "Title 1", "Device"}) {
                    if (r.Chance(50)) {
                        d["translations"][lang][name] = std::string(lang) + "-" + name;
                    }
                }
            }
        }
        return g;
    }

    Json::Value UserSub(Rng& r, const Json::Value& tmplChannel, const Json::Value& root, int depth);

    Json::Value UserChannels(Rng& r, const Json::Value& own, const Json::Value& root, int depth, bool custom)
    {
        Json::Value list(Json::arrayValue);
        std::set<std::string> used;
        for (const auto& c: own) {
            if (!r.Chance(55) || !used.insert(c["name"].asString()).second) {
                continue;
            }
            if (IsSub(c)) {
                list.append(UserSub(r, c, root, depth));
                continue;
            }
            Json::Value o(Json::objectValue);
            o["name"] = c["name"];
            if (r.Chance(40)) {
                o["enabled"] = r.Chance(50);
            }
            if (r.Chance(40)) {
                o["readonly"] = r.Chance(50);
            }
            if (r.Chance(30)) {
                o["read_period_ms"] = int(10 + r.Below(500));
            }
            if (r.Chance(30)) {
                static const std::vector<std::string> keys(Fixed().begin(), Fixed().end());
                auto k = r.Pick(keys);
                if (k != "name" && k != "consists_of") {
                    o[k] = r.Chance(50) ? Json::Value("changed") : Json::Value(int(r.Below(100)));
                }
            }
            if (r.Chance(20)) {
                o["units"] = "mine";
            }
            if (r.Chance(3)) {
                o["device_type"] = "sub0"; // a simple channel can't have it
            }
            list.append(o);
        }
        if (custom) {
            for (int n = r.Below(3); n > 0; --n) {
                auto c = GenSimple(r, "Extra " + std::to_string(n), true);
                if (r.Chance(3)) {
                    c["device_type"] = "sub0";
                }
                list.insert(r.Below(list.size() + 1), c);
            }
        }
        return list;
    }

    Json::Value UserSub(Rng& r, const Json::Value& c, const Json::Value& root, int depth)
    {
        Json::Value o(Json::objectValue);
        o["name"] = c["name"];
        if (!r.Chance(4)) {
            if (c.isMember("oneOf")) {
                o["device_type"] = c["oneOf"][Json::ArrayIndex(r.Below(c["oneOf"].size()))];
            } else {
                o["device_type"] = c["device_type"];
            }
            if (r.Chance(4)) {
                o["device_type"] = r.Of<const char*>({"sub0", "sub1", "sub2", "none"});
            }
        }
        if (r.Chance(15)) {
            o["id"] = "changed";
        }
        if (r.Chance(10)) {
            o["shift"] = int(r.Below(50));
        }
        auto sub = o.isMember("device_type") ? Subdevice(root, o["device_type"].asString()) : nullptr;
        if (sub) {
            EachParam(*sub, [&](const std::string& id, const Json::Value&) {
                if (r.Chance(50)) {
                    o[id] = int(r.Below(5));
                }
            });
            if (r.Chance(60)) {
                o["channels"] = UserChannels(r, (*sub)["channels"], root, depth + 1, r.Chance(20));
            }
            if (r.Chance(20)) {
                o["setup"] = GenSetup(r, "User inner setup", false);
            }
        }
        return o;
    }

    // The scheme of a template takes the values of a parameter from its definitions in effect, which depend on other values
    bool Settle(Rng& r, Json::Value& user, const Json::Value& tmpl)
    {
        for (int round = 0; round < 12; ++round) {
            refexpr::TEnv env;
            for (const auto& k: user.getMemberNames()) {
                env[k] = AsParam(user[k]);
            }
            bool changed = false;
            EachParam(tmpl, [&](const std::string& id, const Json::Value& p) {
                if (!True(p, env)) {
                    return;
                }
                bool need = p.isMember("required") && p["required"].asBool();
                if (!user.isMember(id)) {
                    if (need) {
                        user[id] = Number(ParamValue(r, p));
                        changed = true;
                    }
                    return;
                }
                auto v = user[id].asDouble();
                bool ok = !(p.isMember("min") && v < p["min"].asDouble()) && !(p.isMember("max") && v > p["max"].asDouble());
                if (p.isMember("enum")) {
                    bool in = false;
                    for (const auto& e: p["enum"]) {
                        in = in || e.asDouble() == v;
                    }
                    ok = ok && in;
                }
                if (!ok) {
                    user[id] = Number(ParamValue(r, p));
                    changed = true;
                }
            });
            if (!changed) {
                return true;
            }
        }
        return false;
    }

    // By the whole way: nothing there is a reason to refuse
    void LoadShipped(const Json::Value& user, const TShipped& t, const Json::Value& plain)
    {
        auto who = t.File + " with " + Text(user).substr(0, 2000);
        TMerged m;
        try {
            m = Merge(user, plain);
        } catch (const TRefused& e) {
            mon::Violation("model", who + ": " + e.Why);
            return;
        }
        PHandlerConfig cfg;
        TWarnings w;
        try {
            cfg = sys::Load(OnePort(user), {{"/dev/ttyA", AnyPort("/dev/ttyA")}}, Shipped().Map);
        } catch (const std::exception& e) {
            mon::Violation("valid-refused", who + ": " + e.what());
            return;
        }
        try {
            Judge(*cfg->PortConfigs.at(0)->Devices.at(0), m, plain, who, true, &w.Ignored);
        } catch (const TRefused& e) {
            mon::Violation("load-not-refused", e.Why + " in " + who);
        }
        mon::Count("shipped-loaded");
    }

    void CaseMerge(Rng& r, uint64_t n)
    {
        if (n % 4 == 0) {
            // a shipped template
            auto& all = Shipped().List;
            const auto& t = all[(n / 4 + r.Below(all.size())) % all.size()];
            auto map = Shipped().Map->GetTemplate(t.Type);
            if (map->GetFilePath().find("/" + t.File) == std::string::npos) {
                return; // another file of the same type is in use
            }
            auto plain = Plain(t.Root["device"]);
            for (int i = 0; i < 3; ++i) {
                auto user = UserFor(r, plain, t.Type);
                MergeOne(user, plain, map->GetTemplate(), t.Type, t.File);
                mon::Count("shipped");
            }
            if (n % 8 == 0 && !t.Deprecated) {
                auto user = UserFor(r, plain, t.Type, 0, true);
                if (Settle(r, user, plain)) {
                    LoadShipped(user, t, plain);
                }
            }
            return;
        }
        auto g = GenTemplate(r);
        auto tmpl = g.Device;
        auto who = "generated";
        Json::Value user(Json::objectValue);
        user["device_type"] = "gen";
        if (!r.Chance(5)) {
            user["slave_id"] = std::to_string(1 + r.Below(200));
        }
        if (r.Chance(30)) {
            user["name"] = "Mine";
        }
        if (r.Chance(30)) {
            user["id"] = "mine";
        }
        if (r.Chance(10)) {
            user["protocol"] = "modbus";
        }
        if (r.Chance(30)) {
            user["max_read_registers"] = int(r.Below(30));
        }
        if (r.Chance(20)) {
            user["preserve_setup_order"] = true;
        }
        if (r.Chance(20)) {
            user["device_timeout_ms"] = int(r.Below(3000));
        }
        if (r.Chance(80)) {
            user["channels"] = UserChannels(r, tmpl["channels"], tmpl, 0, r.Chance(60));
        }
        if (r.Chance(50)) {
            user["setup"] = GenSetup(r, "User setup", false);
            if (r.Chance(4)) {
                user["setup"][0].removeMember("address");
            }
        }
        bool odd = r.Chance(10);
        for (auto p: PARAMS) {
            if (r.Chance(40)) {
                user[p] = !odd || r.Chance(50) ? Json::Value(int(r.Below(4))) : r.Of<Json::Value>({Json::Value(1.5), Json::Value("2"), Json::Value(true), Json::Value(-1), Json::Value(3000000000u), Json::Value(2.0)});
            }
        }
        MergeOne(user, tmpl, tmpl, "gen", who);
        mon::Count("generated");
        mon::Count("with-subdevices", g.Subs);

        // the whole way: the template is a file, the configuration is another
        auto dir = mon::Scratch() + "/gen";
        fs::create_directories(dir);
        Json::Value root(Json::objectValue);
        root["device_type"] = "gen";
        root["title"] = "Generated";
        root["device"] = tmpl;
        std::ostringstream s;
        s << root;
        sys::WriteFile(dir + "/gen.json", s.str());
        static const auto schema = LoadConfigTemplatesSchema(mon::Repo() + "/wb-mqtt-serial-device-template.schema.json", sys::Static().Common);
        auto map = std::make_shared<TTemplateMap>(schema, "");
        map->AddTemplatesDir(dir);
        TMerged m;
        std::string refused;
        try {
            m = Merge(user, Plain(tmpl));
        } catch (const TRefused& e) {
            refused = e.Why;
        }
        PHandlerConfig cfg;
        std::string error;
        TWarnings w;
        auto port = AnyPort("/dev/ttyA");
        try {
            cfg = sys::Load(OnePort(user), {{"/dev/ttyA", port}}, map);
        } catch (const std::exception& e) {
            error = e.what();
        }
        if (!error.empty()) {
            // the schemes refuse more than the merging does: only the accepted ones are judged
            mon::Count("load-refused");
            mon::Sample("load-refused " + error.substr(0, 200));
            return;
        }
        if (!refused.empty()) {
            mon::Violation("load-not-refused", refused + "\n" + Text(user));
            return;
        }
        try {
            Judge(*cfg->PortConfigs.at(0)->Devices.at(0), m, Plain(tmpl), "generated " + Text(user).substr(0, 1000) + "\n  over " + Text(tmpl).substr(0, 3000), true, &w.Ignored);
        } catch (const TRefused& e) {
            mon::Violation("load-not-refused", e.Why + "\n" + Text(user) + "\n" + Text(tmpl));
        }
        mon::Count("loaded");
    }
    MON_CHECK("T02", CaseMerge);

    // ---- T01: configurations as a whole

    struct TLoaded
    {
        PHandlerConfig Config;
        std::string Error, Kind;
        std::vector<std::string> Ignored;
        PRPCConfig Rpc = std::make_shared<TRPCConfig>();
    };

    // as the service does it, with the real ports (nothing opens them)
    TLoaded LoadText(const std::string& text)
    {
        auto file = mon::Scratch() + "/service.json";
        sys::WriteFile(file, text);
        TLoaded res;
        TWarnings w;
        try {
            res.Config = LoadConfig(file, sys::Static().Factory, sys::Static().Common, *Shipped().Map, res.Rpc, sys::Static().Ports,
                                    *sys::Static().Protocols);
        } catch (const std::exception& e) {
            res.Error = e.what();
            res.Kind = typeid(e).name();
            if (res.Error.empty()) {
                mon::Violation("refused-without-message", text.substr(0, 3000));
                res.Error = "(no text)";
            }
        }
        res.Ignored = w.Ignored;
        return res;
    }

    std::string Pretty(const Json::Value& v)
    {
        std::ostringstream s;
        s << v;
        return s.str();
    }

    struct TExpDevice
    {
        const TShipped* T;
        Json::Value User, Plain;
        TMerged M;
        TPortDefaults Defaults;
    };

    struct TExpPort
    {
        Json::Value Json;
        std::vector<TExpDevice> Devices;
        bool Enabled = true;
    };

    bool Modbus(const Json::Value& plain)
    {
        return !plain.isMember("protocol") || plain["protocol"] == "modbus" || plain["protocol"] == "modbus_io";
    }

    struct TWhole
    {
        Json::Value Root{Json::objectValue};
        std::vector<TExpPort> Ports;
        std::string MustRefuse;
        bool Good = false;
    };

    const TShipped& AnyShipped(Rng& r)
    {
        static const auto small = [] { // big ones take time
            std::vector<size_t> v;
            auto& all = Shipped().List;
            for (size_t i = 0; i < all.size(); ++i) {
                const auto& d = all[i].Root["device"];
                if (d["channels"].size() < 40 && (!d.isMember("parameters") || d["parameters"].size() < 40)) {
                    v.push_back(i);
                }
            }
            return v;
        }();
        return Shipped().List[r.Pick(small)];
    }

    bool InUse(const TShipped& t)
    {
        return Shipped().Map->GetTemplate(t.Type)->GetFilePath().find("/" + t.File) != std::string::npos;
    }

    TWhole GenWhole(Rng& r, const TShipped* first, bool defaults)
    {
        TWhole w;
        if (r.Chance(50)) {
            w.Root["debug"] = false;
        }
        if (r.Chance(30)) {
            w.Root["max_unchanged_interval"] = int(r.Below(100)) - 2;
        }
        if (r.Chance(30)) {
            w.Root["rate_limit"] = int(1 + r.Below(1000));
        }
        w.Root["ports"] = Json::Value(Json::arrayValue);
        int nports = first && defaults ? 1 : 1 + r.Below(3);
        std::set<std::string> ids;
        for (int pi = 0; pi < nports; ++pi) {
            TExpPort p;
            auto& j = p.Json;
            j = Json::Value(Json::objectValue);
            int kind = defaults ? 0 : r.Below(4);
            if (kind < 2) {
                if (r.Chance(70)) {
                    j["port_type"] = "serial";
                }
                j["path"] = "/dev/ttyX" + std::to_string(pi);
                if (r.Chance(70)) {
                    j["baud_rate"] = r.Of<int>({110, 300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200});
                }
                if (r.Chance(70)) {
                    j["parity"] = r.Of<const char*>({"N", "E", "O"});
                }
                if (r.Chance(70)) {
                    j["data_bits"] = int(5 + r.Below(4));
                }
                if (r.Chance(70)) {
                    j["stop_bits"] = int(1 + r.Below(2));
                }
            } else {
                j["port_type"] = kind == 2 ? "tcp" : "modbus tcp";
                j["address"] = "192.168.0." + std::to_string(1 + pi);
                j["port"] = int(1 + r.Below(65535));
                if (r.Chance(30)) {
                    j["connection_timeout_ms"] = int(r.Below(9000)) - 1;
                }
                if (r.Chance(30)) {
                    j["connection_max_fail_cycles"] = int(r.Below(90)) - 1;
                }
                if (kind == 3 && r.Chance(30)) {
                    j["connected_to_mge"] = r.Chance(50);
                }
            }
            if (r.Chance(20)) {
                j["response_timeout_ms"] = int(r.Below(2000));
            }
            if (r.Chance(20)) {
                j["guard_interval_us"] = int(r.Below(2000));
            }
            if (r.Chance(20)) {
                j[r.Chance(60) ? "read_rate_limit_ms" : "poll_interval"] = int(r.Below(2000));
            }
            if (r.Chance(30) || (r.Chance(20) && !first)) {
                p.Enabled = first != nullptr || r.Chance(70);
                j["enabled"] = p.Enabled;
            }
            j["devices"] = Json::Value(Json::arrayValue);
            int n = first && defaults ? 1 : r.Below(5);
            for (int di = 0; di < n; ++di) {
                TExpDevice d;
                d.T = first && pi == 0 && di == 0 ? first : &AnyShipped(r);
                if (!InUse(*d.T) || (d.T->Deprecated && d.T != first)) {
                    continue;
                }
                d.Plain = Plain(d.T->Root["device"]);
                if (kind == 3 && !Modbus(d.Plain)) {
                    continue;
                }
                if (defaults) {
                    d.User["device_type"] = d.T->Type;
                    d.User["slave_id"] = SlaveFor(r, d.Plain.isMember("protocol") ? d.Plain["protocol"].asString() : "modbus");
                } else {
                    d.User = UserFor(r, d.Plain, d.T->Type, di, true);
                }
                if (!Settle(r, d.User, d.Plain)) {
                    continue;
                }
                d.M = Merge(d.User, d.Plain);
                if (ids.count(d.M.Props.isMember("id") ? d.M.Props["id"].asString() : "")) {
                    d.User["id"] = "dev" + std::to_string(pi) + "_" + std::to_string(di);
                    d.M = Merge(d.User, d.Plain);
                }
                ids.insert(d.M.Props.isMember("id") ? d.M.Props["id"].asString() : "");
                d.Defaults.Guard = j.isMember("guard_interval_us") ? j["guard_interval_us"].asInt() : 0;
                for (auto k: {"read_rate_limit_ms", "poll_interval"}) {
                    if (j.isMember(k)) {
                        d.Defaults.Rate = j[k].asInt();
                    }
                }
                d.Defaults.Tcp = kind == 3;
                d.Defaults.Id = "wb-modbus-" + std::to_string(pi) + "-" + std::to_string(j["devices"].size());
                d.Defaults.Wb = (d.T->Root.isMember("hw") && !d.T->Root["hw"].empty()) ||
                                (d.Plain.isMember("enable_wb_continuous_read") && d.Plain["enable_wb_continuous_read"].asBool());
                auto text = d.User;
                // old ways of writing the same
                if (text.isMember("read_rate_limit_ms") && r.Chance(20)) {
                    text["poll_interval"] = text["read_rate_limit_ms"];
                    text.removeMember("read_rate_limit_ms");
                }
                auto slave = text["slave_id"].asString();
                if (r.Chance(30) && slave.find_first_not_of("0123456789") == std::string::npos) {
                    text["slave_id"] = std::stoi(slave);
                }
                if (r.Chance(10) && !(d.T == first && defaults)) {
                    text["enabled"] = false;
                    j["devices"].append(text);
                    continue;
                }
                if (r.Chance(10)) {
                    text["enabled"] = true;
                }
                j["devices"].append(text);
                p.Devices.push_back(d);
                w.Good = true;
            }
            w.Root["ports"].append(j);
            w.Ports.push_back(p);
        }
        return w;
    }

    void JudgeWhole(const TWhole& w, const TLoaded& got, const std::string& text)
    {
        if (!got.Config) {
            mon::Violation("valid-refused", got.Error + "\n" + text.substr(0, 3000));
            return;
        }
        auto& c = *got.Config;
        auto eq = [&](const std::string& k, const std::string& g, const std::string& e) {
            if (g != e) {
                mon::Violation("port:" + k, mon::Quote(g) + " instead of " + mon::Quote(e) + " in\n" + text.substr(0, 3000));
            }
        };
        auto num = [&](const std::string& k, long long g, long long e) { eq(k, std::to_string(g), std::to_string(e)); };
        size_t n = 0;
        for (auto& p: w.Ports) {
            n += p.Enabled;
        }
        num("count", c.PortConfigs.size(), n);
        if (w.Root.isMember("rate_limit")) {
            num("rate_limit", c.LowPriorityRegistersRateLimit, w.Root["rate_limit"].asInt());
        }
        n = 0;
        size_t ignored = 0;
        for (auto& p: w.Ports) {
            if (!p.Enabled || n >= c.PortConfigs.size()) {
                continue;
            }
            auto& g = *c.PortConfigs[n++];
            const auto& j = p.Json;
            bool serial = j.isMember("path");
            if (serial) {
                eq("path", g.Port->GetDescription(false), j["path"].asString());
                auto base = std::dynamic_pointer_cast<TSerialPort>(g.Port->GetBasePort());
                if (!base) {
                    mon::Violation("port:kind", text.substr(0, 3000));
                } else {
                    auto& s = base->GetSettings();
                    num("baud_rate", s.BaudRate, j.get("baud_rate", 9600).asInt());
                    eq("parity", std::string(1, s.Parity), j.get("parity", "N").asString());
                    num("data_bits", s.DataBits, j.get("data_bits", 8).asInt());
                    num("stop_bits", s.StopBits, j.get("stop_bits", 1).asInt());
                }
            } else {
                eq("address", g.Port->GetDescription(false), j["address"].asString() + ":" + std::to_string(j["port"].asInt()));
                num("connection_timeout_ms", g.OpenCloseSettings.MaxFailTime.count(), j.get("connection_timeout_ms", 5000).asInt());
                num("connection_max_fail_cycles", g.OpenCloseSettings.ConnectionMaxFailCycles, j.get("connection_max_fail_cycles", 2).asInt());
            }
            bool mbtcp = j.isMember("port_type") && j["port_type"] == "modbus tcp";
            num("modbus-tcp", g.Port->IsModbusTcp(), mbtcp);
            num("fast-modbus", g.Port->SupportsFastModbus(), !mbtcp || (j.isMember("connected_to_mge") && j["connected_to_mge"].asBool()));
            if (j.isMember("response_timeout_ms")) {
                num("response_timeout_ms", g.Port->GetMinimalResponseTimeout().count(), j["response_timeout_ms"].asInt() * 1000LL);
            }
            num("devices", g.Devices.size(), p.Devices.size());
            for (size_t i = 0; i < std::min(g.Devices.size(), p.Devices.size()); ++i) {
                auto& d = p.Devices[i];
                try {
                    ignored += Judge(*g.Devices[i], d.M, d.Plain, d.T->File + " with " + Text(d.User).substr(0, 1500), true, nullptr, d.Defaults);
                } catch (const TRefused& e) {
                    mon::Violation("not-refused", e.Why + " in " + d.T->File);
                }
            }
        }
        if (got.Ignored.size() != ignored) {
            mon::Violation("ignored", std::to_string(got.Ignored.size()) + " channels are ignored instead of " + std::to_string(ignored) +
                                          (got.Ignored.empty() ? "" : " " + got.Ignored.front()) + "\n" + text.substr(0, 3000));
        }
    }

    std::string Everything(const PHandlerConfig& c)
    {
        std::string s;
        for (auto& p: c->PortConfigs) {
            s += p->Port->GetDescription(true) + "\n";
            for (auto& d: p->Devices) {
                auto proto = Proto(d->Device->Protocol()->GetName());
                auto t = Describe(*d, proto);
                s += d->Device->DeviceConfig()->Id + " " + d->Device->DeviceConfig()->SlaveId + "\n";
                for (auto& l: t.Channels) {
                    s += l + "\n";
                }
                for (auto& l: SetupLines(t, true)) {
                    s += l + "\n";
                }
            }
        }
        return s;
    }

    // One mistake that can't be overlooked. False: there is no place for it
    bool Mistake(Rng& r, Json::Value& root, std::string& what, std::string& note)
    {
        std::vector<Json::Value*> ports, devices;
        for (auto& p: root["ports"]) {
            if (p.get("enabled", true).asBool()) {
                ports.push_back(&p);
                for (auto& d: p["devices"]) {
                    if (d.get("enabled", true).asBool()) {
                        devices.push_back(&d);
                    }
                }
            }
        }
        if (ports.empty() || devices.empty()) {
            return false;
        }
        auto& p = *r.Pick(ports);
        auto& d = *r.Pick(devices);
        static const std::vector<const char*> all{
            "unknown-template", "unknown-protocol", "unknown-port-type", "duplicate-port", "duplicate-slave", "duplicate-id", "wrong-type",
            "negative", "bad-enum", "no-path", "missing-slave", "bad-slave", "setup-no-address", "setup-no-value", "channel-unknown-type",
            "ports-not-array", "devices-not-array", "bad-device", "param-type", "tcp-protocol", "bad-setup-value", "mixed-composite"};
        what = r.Pick(all);
        if (what == "unknown-template") {
            d["device_type"] = d["device_type"].asString() + r.Of<const char*>({"?", " ", "x"});
        } else if (what == "unknown-protocol") {
            Json::Value x(Json::objectValue);
            x["protocol"] = "unknown";
            x["slave_id"] = "200";
            p["devices"].append(x);
        } else if (what == "unknown-port-type") {
            p["port_type"] = r.Of<const char*>({"serial ", "udp", "modbus-tcp", ""});
        } else if (what == "duplicate-port") {
            auto c = p;
            c["devices"] = Json::Value(Json::arrayValue);
            for (auto k: {"baud_rate", "parity", "guard_interval_us"}) {
                if (r.Chance(50)) {
                    c.removeMember(k);
                }
            }
            root["ports"].append(c);
        } else if (what == "duplicate-slave") {
            auto c = d;
            if (c["slave_id"].asString().find(':') != std::string::npos) {
                return false;
            }
            c["id"] = "another_id_of_it";
            // the same address written in another way
            auto n = std::stoul(c["slave_id"].asString(), nullptr, 0);
            auto proto = c["device_type"].asString();
            static const std::set<std::string> hexless{"energomera_iec", "energomera_iec_mode_c", "iec_mode_c", "somfy", "neva"};
            auto protocol = Shipped().Map->GetTemplate(proto)->GetTemplate().get("protocol", "modbus").asString();
            if (r.Chance(50) && !hexless.count(protocol)) {
                c["slave_id"] = HexText(n);
            }
            for (auto& x: root["ports"]) {
                for (auto& y: x["devices"]) {
                    if (&y == &d) {
                        x["devices"].append(c);
                        return true;
                    }
                }
            }
            return false;
        } else if (what == "duplicate-id") {
            if (devices.size() < 2) {
                return false;
            }
            auto& a = *devices[0];
            auto& b = *devices[1];
            a["id"] = "same";
            b["id"] = "same";
        } else if (what == "wrong-type") {
            auto bad = r.Of<Json::Value>({Json::Value("text"), Json::Value(Json::arrayValue), Json::Value(Json::objectValue), Json::Value(1.5)});
            switch (r.Below(5)) {
                case 0:
                    d["device_timeout_ms"] = bad;
                    break;
                case 1:
                    d["guard_interval_us"] = bad;
                    break;
                case 2:
                    p["response_timeout_ms"] = bad;
                    break;
                case 3:
                    root["max_unchanged_interval"] = bad;
                    break;
                case 4:
                    d["name"] = r.Chance(50) ? Json::Value(5) : Json::Value(Json::arrayValue);
            }
        } else if (what == "negative") {
            (r.Chance(50) ? p : d)["guard_interval_us"] = -5;
        } else if (what == "bad-enum") {
            if (!p.isMember("path")) {
                return false;
            }
            p[r.Of<const char*>({"baud_rate", "data_bits", "stop_bits"})] = 12345;
        } else if (what == "no-path") {
            p.removeMember("path");
            p.removeMember("address");
        } else if (what == "missing-slave") {
            auto protocol = Shipped().Map->GetTemplate(d["device_type"].asString())->GetTemplate().get("protocol", "modbus").asString();
            if (protocol != "modbus") {
                return false;
            }
            d.removeMember("slave_id");
        } else if (what == "bad-slave") {
            auto protocol = Shipped().Map->GetTemplate(d["device_type"].asString())->GetTemplate().get("protocol", "modbus").asString();
            if (protocol != "modbus") {
                return false;
            }
            d["slave_id"] = r.Of<const char*>({"abc", "-1", "0xZZ", "1 2", "99999999999999"});
            note = d["slave_id"].asString() + " for " + d["device_type"].asString();
        } else if (what == "setup-no-address" || what == "setup-no-value" || what == "bad-setup-value") {
            if (!Modbus(Shipped().Map->GetTemplate(d["device_type"].asString())->GetTemplate())) {
                return false;
            }
            Json::Value s(Json::objectValue);
            s["title"] = "t";
            s["address"] = 5;
            s["value"] = 1;
            if (what == "bad-setup-value") {
                s["value"] = r.Of<const char*>({"abc", "0xZZ", "1.5.5", ""});
            } else {
                s.removeMember(what == "setup-no-address" ? "address" : "value");
            }
            d["setup"].append(s);
        } else if (what == "channel-unknown-type") {
            auto& t = Shipped().Map->GetTemplate(d["device_type"].asString())->GetTemplate();
            if (t.get("protocol", "modbus").asString() != "modbus" || t.isMember("subdevices")) {
                return false;
            }
            Json::Value c(Json::objectValue);
            c["name"] = "Mistaken";
            c["address"] = 1;
            c["reg_type"] = "unknown";
            d["channels"].append(c);
        } else if (what == "mixed-composite") {
            auto& t = Shipped().Map->GetTemplate(d["device_type"].asString())->GetTemplate();
            if (t.get("protocol", "modbus").asString() != "modbus" || t.isMember("subdevices")) {
                return false;
            }
            // one can be written and another can't
            auto c = sys::Json(R"({"name":"Mistaken","consists_of":[{"reg_type":"holding","address":1},{"reg_type":"input","address":2}]})");
            d["channels"].append(c);
        } else if (what == "ports-not-array") {
            root["ports"] = r.Of<Json::Value>({Json::Value("x"), Json::Value(5), Json::Value(true)});
        } else if (what == "devices-not-array") {
            p["devices"] = r.Of<Json::Value>({Json::Value("x"), Json::Value(5), Json::Value(true)});
        } else if (what == "bad-device") {
            p["devices"].append(r.Of<Json::Value>({Json::Value("x"), Json::Value(5), Json::Value(Json::arrayValue)}));
        } else if (what == "param-type") {
            std::vector<std::string> ids;
            EachParam(Shipped().Map->GetTemplate(d["device_type"].asString())->GetTemplate(), [&](const std::string& id, const Json::Value& p) {
                if (!p.isMember("condition")) {
                    ids.push_back(id);
                }
            });
            if (ids.empty()) {
                return false;
            }
            d[r.Pick(ids)] = "text";
        } else if (what == "tcp-protocol") {
            if (p.get("port_type", "serial").asString() != "modbus tcp") {
                return false;
            }
            for (auto& t: Shipped().List) {
                if (!Modbus(t.Root["device"]) && !t.Deprecated) {
                    Json::Value x(Json::objectValue);
                    x["device_type"] = t.Type;
                    x["slave_id"] = SlaveFor(r, t.Root["device"]["protocol"].asString());
                    p["devices"].append(x);
                    return true;
                }
            }
            return false;
        } else {
            return false;
        }
        return true;
    }

    Json::Value AnyJson(Rng& r, int depth = 2)
    {
        switch (r.Below(depth ? 12 : 9)) {
            case 0:
                return Json::Value();
            case 1:
                return Json::Value(r.Chance(50));
            case 2:
                return Json::Value(int(r.Below(300)) - 20);
            case 3:
                return Json::Value(r.Of<double>({0.5, -1.5, 1e30, 1e300, -0.0, 4294967296.0}));
            case 4:
                return Json::Value(Json::Int64(r.Next()));
            case 5:
                return Json::Value(Json::UInt64(r.Next()));
            case 6:
                return Json::Value(r.Of<const char*>({"", "0", "-1", "0x10", "1:2:3", "1:2", "abc", "0x", "99999999999999999999", "modbus", "1:70:5", "0x10:1:1", "\xD0\xBF", "#", "a/b"}));
            case 7:
                return Json::Value(Json::arrayValue);
            case 8:
                return Json::Value(Json::objectValue);
            case 9:
            case 10: {
                Json::Value v(Json::arrayValue);
                for (int n = 1 + r.Below(3); n > 0; --n) {
                    v.append(AnyJson(r, depth - 1));
                }
                return v;
            }
            default: {
                Json::Value v(Json::objectValue);
                for (int n = 1 + r.Below(3); n > 0; --n) {
                    v[r.Of<const char*>({"name", "address", "reg_type", "slave_id", "channels", "setup", "device_type", "protocol", "x"})] = AnyJson(r, depth - 1);
                }
                return v;
            }
        }
    }

    void Collect(Json::Value& v, std::vector<Json::Value*>& out)
    {
        out.push_back(&v);
        if (v.isArray() || v.isObject()) {
            for (auto& x: v) {
                Collect(x, out);
            }
        }
    }

    void Damage(Rng& r, Json::Value& root)
    {
        std::vector<Json::Value*> all;
        Collect(root, all);
        auto& v = *r.Pick(all);
        static const char* const names[] = {"enabled", "slave_id", "name", "id", "protocol", "device_type", "channels", "setup", "password", "poll_interval", "read_rate_limit_ms", "address", "write_address", "consists_of", "reg_type", "format", "enum", "enum_titles", "error_value", "unsupported_value", "scale", "offset", "round_to", "on_value", "off_value", "string_data_size", "word_order", "byte_order", "max", "min", "type", "readonly", "fw", "stride", "shift", "max_read_registers", "devices", "ports", "port", "path", "baud_rate", "parity", "port_type", "title", "value", "read_period_ms", "oneOf", "sporadic", "subdevices", "parameters", "condition", "frame_timeout_ms", "access_level"};
        if (v.isObject() && r.Chance(70)) {
            auto keys = v.getMemberNames();
            if (!keys.empty() && r.Chance(40)) {
                auto k = r.Pick(keys);
                if (r.Chance(40)) {
                    v.removeMember(k);
                } else {
                    v[k] = AnyJson(r);
                }
            } else {
                v[names[r.Below(std::size(names))]] = AnyJson(r);
            }
        } else if (v.isArray() && r.Chance(70)) {
            if (!v.empty() && r.Chance(50)) {
                auto c = v[Json::ArrayIndex(r.Below(v.size()))];
                v.append(c);
            } else {
                v.append(AnyJson(r));
            }
        } else {
            v = AnyJson(r);
        }
    }

    // a device of a protocol without a template
    Json::Value Custom(Rng& r, std::string& protocol)
    {
        static const std::vector<std::string> protocols{"modbus", "modbus_io", "uniel", "milur", "mercury230", "mercury200", "ivtm", "pulsar", "s2k", "neva", "energomera_iec", "lls", "iec_mode_c", "energomera_iec_mode_c"};
        protocol = r.Pick(protocols);
        Json::Value d(Json::objectValue);
        d["protocol"] = protocol;
        d["slave_id"] = SlaveFor(r, protocol);
        d["id"] = "custom";
        for (int n = r.Below(3); n > 0; --n) {
            d["channels"].append(GenSimple(r, "C" + std::to_string(n), true));
        }
        return d;
    }

    void CaseWhole(Rng& r, uint64_t n)
    {
        auto& list = Shipped().List;
        if (n == 0) {
            std::vector<std::string> files{mon::Repo() + "/config.sample.json"};
            for (auto& e: fs::directory_iterator(mon::Repo() + "/configs")) {
                files.push_back(e.path());
            }
            for (auto& f: files) {
                auto got = LoadText(sys::ReadFile(f));
                // the sample is an old one: its templates are not shipped any more
                if (!got.Config && got.Error.find("MSU") == std::string::npos) {
                    mon::Violation("sample-refused", f + ": " + got.Error);
                } else if (!got.Config) {
                    mon::Count("sample-without-template");
                } else {
                    mon::Count("samples");
                    auto j = WBMQTT::JSON::Parse(f);
                    size_t expected = 0;
                    for (auto& p: j["ports"]) {
                        expected += p.get("enabled", true).asBool();
                    }
                    MON_EXPECT(got.Config->PortConfigs.size() == expected, "sample-ports", f);
                }
            }
            return;
        }
        // every shipped template in turn, with nothing but an address and then with the user's settings
        const auto& t = list[(n - 1) % list.size()];
        if (InUse(t)) {
            for (bool defaults: {true, false}) {
                auto w = GenWhole(r, &t, defaults);
                auto text = Pretty(w.Root);
                auto got = LoadText(text);
                JudgeWhole(w, got, text);
                if (got.Config && n % 8 == 0) {
                    auto again = LoadText(text);
                    if (!again.Config || Everything(again.Config) != Everything(got.Config)) {
                        mon::Violation("not-repeatable", text.substr(0, 3000));
                    }
                    if (defaults && !got.Ignored.empty()) {
                        mon::Violation("template-channel-ignored", t.File + ": " + got.Ignored.front());
                    }
                }
                mon::Count(defaults ? "shipped" : "with-settings");
                mon::Distinct(t.File + (defaults ? " default" : Text(w.Root).substr(0, 1000)));
                if (!defaults) {
                    break;
                }
                // the limits of every parameter
                auto& d = w.Ports.at(0).Devices.at(0);
                for (auto k: {"min", "max"}) {
                    EachParam(d.Plain, [&](const std::string& id, const Json::Value& p) {
                        if (p.isMember(k)) {
                            d.User[id] = p[k];
                        } else if (p.isMember("enum") && p["enum"].size()) {
                            d.User[id] = p["enum"][*(k + 1) == 'i' ? 0 : p["enum"].size() - 1];
                        }
                    });
                    if (Settle(r, d.User, d.Plain)) {
                        d.M = Merge(d.User, d.Plain);
                        auto& text = w.Root["ports"][0]["devices"];
                        text.clear();
                        text.append(d.User);
                        if (d.M.Setup.empty()) {
                            break;
                        }
                        JudgeWhole(w, LoadText(Pretty(w.Root)), Pretty(w.Root));
                        mon::Count("limits");
                    }
                }
                if (n % 3) {
                    break;
                }
            }
        } else {
            mon::Count("shadowed");
        }
        // mistakes
        for (int i = 0; i < 2; ++i) {
            auto w = GenWhole(r, nullptr, false);
            if (!w.Good) {
                continue;
            }
            auto good = w.Root;
            std::string what, note;
            if (!Mistake(r, w.Root, what, note)) {
                continue;
            }
            auto text = Pretty(w.Root);
            auto got = LoadText(text);
            if (got.Config) {
                mon::Violation("accepted:" + what, note + " in " + text.substr(0, 4000));
            }
            mon::Count("mistakes");
            mon::Count("mistake-" + what);
            mon::Distinct(what + got.Error.substr(0, 200));
            if (n % 4 == 0) { // nothing is left of a refused configuration
                auto after = LoadText(Pretty(good));
                JudgeWhole(w, after, Pretty(good));
                mon::Count("after-mistake");
            }
        }
        // anything
        for (int i = 0; i < 6; ++i) {
            Json::Value root;
            std::string protocol;
            if (r.Chance(60)) {
                root = OnePort(Custom(r, protocol));
            } else {
                root = GenWhole(r, nullptr, false).Root;
            }
            for (int k = 1 + r.Below(3); k > 0; --k) {
                Damage(r, root);
            }
            std::string text;
            if (r.Chance(20)) {
                text = r.Chance(50) ? Pretty(root) : Text(root);
                for (int k = 1 + r.Below(3); k > 0 && !text.empty(); --k) {
                    switch (r.Below(4)) {
                        case 0:
                            text.resize(r.Below(text.size()));
                            break;
                        case 1:
                            text[r.Below(text.size())] = char(r.Byte());
                            break;
                        case 2:
                            text.insert(r.Below(text.size()), r.Of<const char*>({"{", "}", "[", "]", ",", "\"", "//", "/*", "null", "1e999", "\\u0000"}));
                            break;
                        default:
                            text.erase(r.Below(text.size()), 1 + r.Below(10));
                    }
                }
            } else {
                text = Text(root);
            }
            auto got = LoadText(text);
            mon::Count(got.Config ? "damaged-loaded" : "damaged-refused");
            if (got.Config) {
                try {
                    auto s = Everything(got.Config);
                    auto again = LoadText(text);
                    if (!again.Config || Everything(again.Config) != s) {
                        mon::Violation("not-repeatable", text.substr(0, 3000));
                    }
                } catch (const std::exception& e) {
                    mon::Count("not-described"); // write-only registers have no address to read
                }
            }
            mon::Distinct(got.Config ? "ok" + std::to_string(n) : got.Error.substr(0, 300));
        }
    }
    MON_CHECK("T01", CaseWhole);
}
