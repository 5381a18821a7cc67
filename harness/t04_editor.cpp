// T04: what the configuration editor gets: the whole configuration with only the old formats converted,
// every device type exactly once with its title, group and properties, and the template in effect of every type
#include "codec.h"
#include "rpcenv.h"
#include "confed_config_generator.h"
#include "confed_device_schemas_map.h"

#include <filesystem>

namespace fs = std::filesystem;
using mon::Rng;

namespace
{
    std::string Text(const Json::Value& v)
    {
        auto s = Json::FastWriter().write(v);
        return s.substr(0, s.size() - 1);
    }

    // The first difference
    std::string Differ(const Json::Value& got, const Json::Value& exp, const std::string& at = "")
    {
        if (got == exp) {
            return "";
        }
        if (got.isObject() && exp.isObject()) {
            for (auto& k: exp.getMemberNames()) {
                if (!got.isMember(k)) {
                    return at + "/" + k + " is lost";
                }
                auto d = Differ(got[k], exp[k], at + "/" + k);
                if (!d.empty()) {
                    return d;
                }
            }
            for (auto& k: got.getMemberNames()) {
                if (!exp.isMember(k)) {
                    return at + "/" + k + " has appeared";
                }
            }
        }
        if (got.isArray() && exp.isArray()) {
            for (Json::ArrayIndex i = 0; i < std::min(got.size(), exp.size()); ++i) {
                auto d = Differ(got[i], exp[i], at + "/" + std::to_string(i));
                if (!d.empty()) {
                    return d;
                }
            }
            return at + ": " + std::to_string(got.size()) + " items instead of " + std::to_string(exp.size());
        }
        return at + ": " + Text(got).substr(0, 200) + " instead of " + Text(exp).substr(0, 200);
    }

    struct TType
    {
        std::string Path;
        Json::Value Root;
        bool User = false;
    };

    // Names used in a condition
    std::set<std::string> Names(const std::string& c)
    {
        std::set<std::string> res;
        for (size_t i = 0; i < c.size();) {
            if (isalpha((unsigned char)c[i]) || c[i] == '_') {
                size_t e = i;
                while (e < c.size() && (isalnum((unsigned char)c[e]) || c[e] == '_')) {
                    ++e;
                }
                auto w = c.substr(i, e - i);
                if (w != "isDefined") {
                    res.insert(w);
                }
                i = e;
            } else if (isdigit((unsigned char)c[i])) {
                while (i < c.size() && (isalnum((unsigned char)c[i]) || c[i] == '.')) {
                    ++i;
                }
            } else {
                ++i;
            }
        }
        return res;
    }

    // The annotation of conditions is checked and removed
    void Unannotate(Json::Value& dev, const std::string& type)
    {
        for (auto s: {"channels", "setup", "parameters"}) {
            if (!dev.isMember(s)) {
                continue;
            }
            for (auto& x: dev[s]) {
                if (!x.isObject()) {
                    continue;
                }
                std::set<std::string> got, exp = Names(x.get("condition", "").asString());
                for (auto& d: x["dependencies"]) {
                    if (!got.insert(d.asString()).second) {
                        mon::Violation("dependencies", type + ": repeated in " + Text(x));
                    }
                }
                x.removeMember("dependencies");
                if (got != exp) {
                    mon::Violation("dependencies", type + ": " + std::to_string(got.size()) + " names in " + Text(x));
                }
                if (!exp.empty()) {
                    mon::Count("conditions");
                }
            }
        }
    }

    void EnumTexts(Json::Value& v)
    {
        if (v.isObject()) {
            if (v.isMember("channels") && v["channels"].isArray()) {
                for (auto& c: v["channels"]) {
                    if (c.isMember("enum")) {
                        for (auto& e: c["enum"]) {
                            if (e.isNumeric()) {
                                e = e.asString();
                            }
                        }
                    }
                }
            }
            for (auto& m: v.getMemberNames()) {
                EnumTexts(v[m]);
            }
        } else if (v.isArray()) {
            for (auto& x: v) {
                EnumTexts(x);
            }
        }
    }

    // Every local reference leads somewhere
    void CheckRefs(const Json::Value& v, const Json::Value& root, const std::string& type)
    {
        if (v.isObject()) {
            for (auto& m: v.getMemberNames()) {
                if (m == "device") {
                    continue; // the template itself
                }
                if (m == "$ref" && v[m].isString()) {
                    auto ref = v[m].asString();
                    mon::Count("references");
                    if (ref.compare(0, 14, "#/definitions/") || !root["definitions"].isMember(ref.substr(14))) {
                        mon::Violation("reference", type + ": " + ref);
                    }
                    continue;
                }
                CheckRefs(v[m], root, type);
            }
        } else if (v.isArray()) {
            for (auto& x: v) {
                CheckRefs(x, root, type);
            }
        }
    }




    struct TWorld
    {
        Rng& R;
        bool Real;
        std::string Base = mon::Scratch() + "/t04", System, User, ConfigFile;
        std::map<std::string, std::map<std::string, TType>> Files; // by folder, by path
        Json::Value Groups;
        std::shared_ptr<TTemplateMap> Templates;
        std::unique_ptr<TDevicesConfedSchemasMap> Schemas;
        WBMQTT::PMqttRpcServer Server;
        std::unique_ptr<TRPCConfigHandler> Handler;
        std::string Error;
        Json::Value Result;

        TWorld(Rng& r, bool real): R(r), Real(real)
        {
            System = Base + "/system";
            User = Base + "/user";
            ConfigFile = Base + "/config.json";
            fs::remove_all(Base);
            fs::create_directories(System);
            fs::create_directories(User);
            Groups = WBMQTT::JSON::Parse(mon::Repo() + "/groups.json");
            if (R.Chance(20)) {
                Groups.removeMember("ru");
            }
            if (Real) {
                for (auto& e: fs::directory_iterator(mon::Repo() + "/templates")) {
                    if (e.path().extension() == ".json" && R.Chance(20)) {
                        auto p = System + "/" + e.path().filename().string();
                        fs::copy_file(e.path(), p);
                        Files[System][p].Root = WBMQTT::JSON::Parse(p);
                    }
                }
            } else {
                for (int i = R.Range(0, 14); i > 0; --i) {
                    Put(System, R.Below(20), R.Below(12));
                }
            }
            for (int i = R.Chance(60) ? R.Range(1, 4) : 0; i > 0; --i) {
                Put(User, R.Below(20), R.Below(12));
            }
            Templates = std::make_shared<TTemplateMap>(LoadConfigTemplatesSchema(mon::Repo() + "/wb-mqtt-serial-device-template.schema.json", sys::Static().Common), User);
            Templates->AddTemplatesDir(System);
            Templates->AddTemplatesDir(User);
            Schemas = std::make_unique<TDevicesConfedSchemasMap>(*Templates, sys::Static().Factory, sys::Static().Common);
            Server = WBMQTT::NewMqttRpcServer(nullptr, "wb-mqtt-serial");
            Handler = std::make_unique<TRPCConfigHandler>(ConfigFile, sys::Static().Ports, Templates, *Schemas, *sys::Static().Protocols, Groups, Server);
        }

        std::string Put(const std::string& dir, int file, int type)
        {
            TType t;
            auto& v = t.Root;
            v["device_type"] = "type " + std::to_string(type);
            static int num = 0;
            auto mark = std::to_string(++num);
            if (R.Chance(85)) {
                v["title"] = R.Chance(20) ? "key_" + mark : R.Chance(8) ? "type " + std::to_string(R.Below(12)) : R.Of<const char*>({"Device ", "A ", "Датчик ", "zz", "1"}) + mark;
            }
            auto g = R.Of<const char*>({"", "g-wb", "g-wb-old", "g-custom", "g-relay", "g-level", "mygroup", "Another"});
            if (*g) {
                v["group"] = g;
            }
            if (R.Chance(15)) {
                v["deprecated"] = true;
            }
            for (int i = R.Chance(40) ? R.Range(1, 3) : 0; i > 0; --i) {
                Json::Value h;
                h["signature"] = "sig" + std::to_string(i) + mark;
                if (R.Chance(50)) {
                    h["fw"] = std::to_string(R.Below(5)) + ".2.3";
                }
                v["hw"].append(h);
            }
            auto& d = v["device"];
            d["name"] = "name " + mark;
            d["id"] = "id" + mark;
            auto proto = R.Of<const char*>({"", "", "modbus", "modbus_io", "mercury230", "pulsar", "uniel", "lls"});
            if (*proto) {
                d["protocol"] = proto;
            }
            bool modbus = !*proto || !strncmp(proto, "modbus", 6);
            d["channels"] = Json::Value(Json::arrayValue);
            for (int i = R.Range(1, 4); i > 0; --i) {
                Json::Value c;
                c["name"] = "ch " + std::to_string(i);
                c["reg_type"] = modbus ? "holding" : std::string(proto) == "mercury230" || std::string(proto) == "neva" ? "array" : "default";
                c["address"] = int(R.Below(1000));
                if (R.Chance(25)) {
                    c["enum"].append(R.Chance(50) ? Json::Value(3) : Json::Value("3"));
                    c["enum"].append(7);
                    c["enum_titles"].append("x");
                    c["enum_titles"].append("y");
                }
                if (R.Chance(30)) {
                    c["condition"] = R.Of<const char*>({"p1==1", "p1==1||p2!=16", "isDefined(p2)&&p1>0", "(p1==1)&&(p1!=3)", "1==1"});
                }
                d["channels"].append(c);
            }
            bool sub = R.Chance(12) && modbus;
            if (R.Chance(60) && modbus) {
                bool array = !sub && R.Chance(40);
                for (int i = R.Range(1, 3); i > 0; --i) {
                    Json::Value p;
                    p["title"] = "P" + std::to_string(i);
                    p["address"] = int(R.Below(500));
                    p["enum"].append(1);
                    p["enum"].append(2);
                    if (R.Chance(30) && i > 1) {
                        p["condition"] = "p1==2";
                    }
                    auto id = "p" + std::to_string(i);
                    if (array) {
                        p["id"] = id;
                        d["parameters"].append(p);
                    } else {
                        d["parameters"][id] = p;
                    }
                }
            }
            if (R.Chance(30) && modbus) {
                d["setup"] = sys::Json("[{\"title\":\"s\",\"address\":9,\"value\":\"0x3\",\"condition\":\"p2>4\"},{\"title\":\"t\",\"address\":\"0x10\",\"value\":1}]");
            }
            if (sub) {
                d["subdevices"] = sys::Json("[{\"title\":\"sub\",\"device_type\":\"inner\",\"device\":{\"channels\":[{\"name\":\"i\",\"reg_type\":\"coil\",\"address\":3}]}}]");
                d["channels"].append(sys::Json("{\"name\":\"S\",\"device_type\":\"inner\"}"));
            }
            if (v.isMember("title")) {
                auto key = v["title"].asString();
                for (auto l: {"en", "ru"}) {
                    if (R.Chance(40)) {
                        d["translations"][l][key] = std::string(l) + " " + key;
                    }
                    if (R.Chance(20)) {
                        d["translations"][l]["other"] = "other";
                    }
                }
            }
            t.User = dir == User;
            auto path = dir + "/f" + std::to_string(file) + ".json";
            sys::WriteFile(path, v.toStyledString());
            Files[dir][path] = t;
            return path;
        }

        // A file has been changed, added or removed by hand, the service has been told (see main.cpp)
        void Edit()
        {
            auto& files = Files[User];
            if (!files.empty() && R.Chance(40)) {
                auto it = std::next(files.begin(), R.Below(files.size()));
                auto path = it->first;
                fs::remove(path);
                files.erase(it);
                Schemas->InvalidateCache(Templates->DeleteTemplate(path));
                mon::Count("removed");
                return;
            }
            auto path = Put(User, R.Below(20), R.Below(12));
            for (auto& type: Templates->UpdateTemplate(path)) {
                Schemas->InvalidateCache(type);
            }
            Last = path;
            mon::Count("edited");
        }
        std::string Last; // the file changed last comes into effect

        bool Call(const std::string& method, const Json::Value& p)
        {
            int results = 0, errors = 0;
            Server->Call(
                "config",
                method,
                p,
                [&](const Json::Value& v) {
                    ++results;
                    Result = v;
                },
                [&](auto, const std::string& e) {
                    ++errors;
                    Error = e;
                });
            MON_EXPECT(results + errors == 1, "replies", std::to_string(results) << " " << errors);
            return results == 1;
        }

        // types -> candidates for the template in effect
        std::map<std::string, std::vector<const TType*>> Types()
        {
            std::map<std::string, std::vector<const TType*>> res;
            for (auto dir: {System, User}) {
                std::map<std::string, std::vector<const TType*>> m;
                for (auto& f: Files[dir]) {
                    m[f.second.Root["device_type"].asString()].push_back(&f.second);
                }
                for (auto& x: m) {
                    res[x.first] = x.second; // templates of the user hide the ones of the package
                }
            }
            return res;
        }

        std::string Title(const Json::Value& root, const std::string& lang)
        {
            auto key = root.get("title", "").asString();
            auto& tr = root["device"]["translations"];
            for (auto& l: {lang, std::string("en")}) {
                auto s = tr.isMember(l) ? tr[l].get(key, "").asString() : "";
                if (!s.empty() && !key.empty()) {
                    return s;
                }
            }
            return key.empty() ? root["device_type"].asString() : key;
        }

        Json::Value TypeJson(const TType& t, const std::string& lang)
        {
            Json::Value e;
            auto& d = t.Root["device"];
            e["type"] = t.Root["device_type"];
            e["name"] = Title(t.Root, lang);
            e["deprecated"] = t.Root.get("deprecated", false);
            e["protocol"] = d.get("protocol", "modbus");
            e["mqtt-id"] = d.get("id", "");
            e["with-subdevices"] = d.isMember("subdevices");
            if (t.User) {
                e["user-defined"] = true;
            }
            if (t.Root.isMember("hw") && t.Root["hw"].size()) {
                for (auto& h: t.Root["hw"]) {
                    Json::Value x;
                    x["signature"] = h["signature"];
                    if (!h.get("fw", "").asString().empty()) {
                        x["fw"] = h["fw"];
                    }
                    e["hw"].append(x);
                }
            }
            return e;
        }

        std::string GroupName(const std::string& g, const std::string& lang)
        {
            auto s = Groups.isMember(lang) ? Groups[lang].get(g, "").asString() : "";
            return s.empty() ? g : s;
        }

        void CheckTypes(const Json::Value& list, const std::string& lang)
        {
            auto types = Types();
            std::map<std::string, int> seen;
            std::set<std::string> groups;
            std::string last;
            size_t gi = 0;
            bool protocols = false;
            for (auto& g: list) {
                auto name = g["name"].asString();
                MON_EXPECT(groups.insert(name).second, "group-twice", name);
                if (gi == 0) {
                    MON_EXPECT(name == GroupName("g-wb", lang), "group-order", "the first is " << name);
                } else if (gi == 1) {
                    MON_EXPECT(name == GroupName("g-wb-old", lang), "group-order", "the second is " << name);
                } else {
                    // the group of protocols is the last if there are no templates in it
                    bool only = name == GroupName("g-custom", lang) && gi + 1 == list.size();
                    MON_EXPECT(gi == 2 || only || last <= name, "group-order", last << " before " << name);
                    last = name;
                }
                ++gi;
                std::string lastTitle, lastProtocol;
                bool tail = false;
                for (auto& t: g["types"]) {
                    auto type = t["type"].asString();
                    auto title = t["name"].asString();
                    if (type.compare(0, 9, "protocol:") == 0 && !types.count(type)) {
                        tail = protocols = true;
                        MON_EXPECT(name == GroupName("g-custom", lang), "protocol-group", name);
                        MON_EXPECT(lastProtocol <= title, "protocol-order", lastProtocol << " before " << title);
                        MON_EXPECT(t["protocol"].asString() == type.substr(9) && !t["deprecated"].asBool(), "protocol", Text(t));
                        lastProtocol = title;
                        auto pt = ProtocolTypes().find(type.substr(9));
                        if (pt != ProtocolTypes().end()) {
                            auto key = pt->second.get("title", pt->first).asString();
                            auto& tr = pt->second["translations"];
                            auto exp = tr[lang].get(key, "").asString();
                            if (exp.empty()) {
                                exp = tr["en"].get(key, "").asString();
                            }
                            MON_EXPECT(title == (exp.empty() ? key : exp), "protocol-title", type << " in " << lang << ": " << title);
                            mon::Count("protocol-titles");
                        }
                        ++seen[type];
                        continue;
                    }
                    MON_EXPECT(!tail, "type-order", title << " is among protocols");
                    MON_EXPECT(lastTitle <= title, "type-order", lastTitle << " before " << title);
                    lastTitle = title;
                    ++seen[type];
                    auto it = types.find(type);
                    if (it == types.end()) {
                        mon::Violation("type-gone", Text(t));
                        continue;
                    }
                    std::string d;
                    bool ok = false;
                    for (auto c: it->second) {
                        auto key = c->Root.get("group", "").asString();
                        auto exp = TypeJson(*c, lang);
                        d = Differ(t, exp);
                        if (d.empty() && name == GroupName(key.empty() ? "g-custom" : key, lang)) {
                            ok = true;
                            break;
                        }
                        d = d.empty() ? "group " + name : d;
                    }
                    MON_EXPECT(ok, "type", type << " in " << lang << ": " << d << ", " << Text(t));
                    mon::Count("types");
                    mon::Distinct(lang + Text(t).substr(0, 300));
                }
            }
            for (auto& t: types) {
                MON_EXPECT(seen[t.first] == 1, "type-count", t.first << " is " << seen[t.first] << " times");
            }
            for (auto& p: ProtocolTypes()) {
                MON_EXPECT(seen["protocol:" + p.first] == 1, "protocol-count", p.first << " is " << seen["protocol:" + p.first] << " times");
            }
            MON_EXPECT(protocols, "no-protocols", lang);
        }

        static const std::map<std::string, Json::Value>& ProtocolTypes()
        {
            static std::map<std::string, Json::Value> res;
            if (res.empty()) {
                for (auto& e: fs::directory_iterator(mon::Repo() + "/protocols")) {
                    auto v = WBMQTT::JSON::Parse(e.path());
                    res[v["properties"]["protocol"]["enum"][0].asString()] = v;
                }
            }
            return res;
        }

        void CheckSchema(const std::string& type, const std::vector<const TType*>& effective)
        {
            Json::Value p;
            p["type"] = type;
            if (!Call("GetSchema", p)) {
                mon::Violation("schema-refused", type + ": " + Error);
                return;
            }
            mon::Count("schemas");
            auto schema = Result;
            for (auto c: effective) {
                if (c->Root["device"].isMember("subdevices")) {
                    return; // has no such schema
                }
            }
            CheckRefs(schema, schema, type);
            MON_EXPECT(schema["definitions"]["units"]["options"]["enum_values"].size() > 10, "units", type);
            auto dt = schema["properties"]["device_type"];
            MON_EXPECT(dt["enum"].size() == 1 && dt["enum"][0] == type && dt["default"] == type, "schema-type", Text(dt));
            bool deprecated = false;
            for (auto c: effective) {
                deprecated = deprecated || c->Root.get("deprecated", false).asBool();
            }
            if (deprecated && effective.size() > 1) {
                return;
            }
            auto got = schema["device"];
            if (!deprecated) { // templates of old devices are given as they are
                Unannotate(got, type);
            }
            std::string d;
            bool same = false;
            for (auto c: effective) {
                auto exp = c->Root["device"];
                EnumTexts(exp);
                if (!deprecated && exp.isMember("parameters") && exp["parameters"].isObject()) {
                    Json::Value a(Json::arrayValue);
                    for (auto& id: exp["parameters"].getMemberNames()) {
                        auto x = exp["parameters"][id];
                        x["id"] = id;
                        a.append(x);
                    }
                    exp["parameters"] = a;
                }
                d = Differ(got, exp);
                if (d.empty()) {
                    same = true;
                    auto proto = exp.get("protocol", "modbus").asString();
                    bool required = false, typeRequired = false;
                    for (auto& q: schema["required"]) {
                        required = required || q == "slave_id";
                        typeRequired = typeRequired || q == "device_type";
                    }
                    MON_EXPECT(required == !sys::Static().Factory.GetProtocol(proto)->SupportsBroadcast(), "schema-slave-id", type << " " << proto);
                    bool ref = false;
                    for (auto& q: schema["allOf"]) {
                        ref = ref || (q.isMember("$ref") && q["$ref"] == sys::Static().Factory.GetCommonDeviceSchemaRef(proto));
                    }
                    MON_EXPECT(ref, "schema-protocol", type << " " << proto << " " << Text(schema["allOf"]));
                    break;
                }
            }
            MON_EXPECT(same, "schema", type << ": " << d);
        }

        // ---- the configuration

        static void Period(Json::Value& v)
        {
            if (v.isMember("poll_interval")) {
                if (!v.isMember("read_rate_limit_ms")) {
                    v["read_rate_limit_ms"] = v["poll_interval"];
                }
                v.removeMember("poll_interval");
            }
        }

        // What the old formats mean now
        Json::Value Modern(Json::Value c, const std::map<std::string, std::vector<const TType*>>& types)
        {
            for (auto& port: c["ports"]) {
                Period(port);
                for (auto& dev: port["devices"]) {
                    Period(dev);
                    if (dev.isMember("password") && dev["password"].isArray()) {
                        for (auto& b: dev["password"]) {
                            if (b.isNumeric()) {
                                b = b.asString();
                            }
                        }
                    }
                    if (dev.isMember("slave_id")) {
                        if (dev["slave_id"].isNumeric()) {
                            dev["slave_id"] = dev["slave_id"].asString();
                        } else if (dev["slave_id"] == "") {
                            dev.removeMember("slave_id");
                        }
                    }
                    const TType* t = nullptr;
                    if (dev.isMember("device_type")) {
                        auto it = types.find(dev["device_type"].asString());
                        if (it == types.end()) {
                            continue;
                        }
                        t = it->second.front();
                    }
                    Json::Value keep;
                    for (auto x: dev["channels"]) {
                        bool own = x.isMember("address") || x.isMember("consists_of") || x.isMember("write_address"), known = false;
                        if (t) {
                            for (auto& q: t->Root["device"]["channels"]) {
                                known = known || q["name"] == x["name"];
                            }
                        }
                        if (own || known) {
                            Period(x);
                            if (x.isMember("enum") && x["enum"].isArray()) {
                                for (auto& e: x["enum"]) {
                                    if (e.isNumeric()) {
                                        e = e.asString();
                                    }
                                }
                            }
                            keep.append(x);
                        }
                    }
                    dev.removeMember("channels");
                    if (keep.size()) {
                        dev["channels"] = keep;
                    }
                }
            }
            return c;
        }

        Json::Value Any(int depth = 2)
        {
            switch (R.Below(depth ? 8 : 6)) {
                case 0:
                    return int(R.Below(100000)) - 5000;
                case 1:
                    return R.Chance(50);
                case 2:
                    return "text " + std::to_string(R.Below(100));
                case 3:
                    return R.Below(1000) / 8.0;
                case 4:
                    return "0x1F";
                case 5:
                    return "имя \"\\ \n";
                case 6: {
                    Json::Value a(Json::arrayValue);
                    for (int i = R.Below(3); i > 0; --i) {
                        a.append(Any(depth - 1));
                    }
                    return a;
                }
                default: {
                    Json::Value o(Json::objectValue);
                    for (int i = R.Below(3); i > 0; --i) {
                        o["k" + std::to_string(i)] = Any(depth - 1);
                    }
                    return o;
                }
            }
        }

        void Extras(Json::Value& v, std::initializer_list<const char*> names)
        {
            for (auto n: names) {
                if (R.Chance(15)) {
                    v[n] = Any();
                }
            }
        }

        Json::Value GenConfig(const std::map<std::string, std::vector<const TType*>>& types)
        {
            Json::Value c(Json::objectValue);
            Extras(c, {"debug", "max_unchanged_interval", "rate_limit", "anything"});
            c["ports"] = Json::Value(Json::arrayValue);
            for (int p = R.Range(0, 3); p > 0; --p) {
                Json::Value port(Json::objectValue);
                port["path"] = "/dev/ttyX" + std::to_string(p);
                if (R.Chance(50)) {
                    port["port_type"] = R.Of<const char*>({"serial", "tcp", "modbus tcp"});
                }
                Extras(port, {"poll_interval", "read_rate_limit_ms", "baud_rate", "enabled", "port_type", "guard_interval_us"});
                if (R.Chance(90)) {
                    port["devices"] = Json::Value(Json::arrayValue);
                }
                for (int i = port.isMember("devices") ? R.Range(0, 4) : 0; i > 0; --i) {
                    Json::Value d(Json::objectValue);
                    const TType* t = nullptr;
                    if (!types.empty() && R.Chance(70)) {
                        auto it = std::next(types.begin(), R.Below(types.size()));
                        t = it->second.front();
                        d["device_type"] = it->first;
                    } else if (R.Chance(30)) {
                        d["device_type"] = "no such type";
                    } else {
                        d["protocol"] = "modbus";
                    }
                    switch (R.Below(5)) {
                        case 0:
                            d["slave_id"] = int(R.Below(300));
                            break;
                        case 1:
                            d["slave_id"] = "";
                            break;
                        case 2:
                            break;
                        default:
                            d["slave_id"] = std::to_string(1 + R.Below(200));
                    }
                    if (R.Chance(20)) {
                        for (int k = R.Range(0, 6); k > 0; --k) {
                            d["password"].append(R.Chance(60) ? Json::Value(int(R.Below(256))) : Json::Value("0x12"));
                        }
                    }
                    Extras(d, {"poll_interval", "read_rate_limit_ms", "name", "id", "enabled", "setup", "p1", "p2", "frame_timeout_ms", "device_timeout_ms", "unknown"});
                    for (int k = R.Chance(70) ? R.Range(0, 4) : 0; k > 0; --k) {
                        Json::Value x(Json::objectValue);
                        x["name"] = "ch " + std::to_string(R.Range(1, 6));
                        if (t && R.Chance(50)) {
                            auto& ch = t->Root["device"]["channels"];
                            if (ch.size()) {
                                x["name"] = ch[Json::ArrayIndex(R.Below(ch.size()))]["name"];
                            }
                        }
                        if (R.Chance(30)) {
                            x[R.Of<const char*>({"address", "write_address", "consists_of"})] = Any();
                        }
                        if (R.Chance(20)) {
                            x["enum"].append(4);
                            x["enum"].append("5");
                            x["enum"].append(-6);
                        }
                        Extras(x, {"poll_interval", "read_rate_limit_ms", "enabled", "read_period_ms", "scale", "title"});
                        d["channels"].append(x);
                    }
                    port["devices"].append(d);
                }
                c["ports"].append(port);
            }
            return c;
        }

        void CheckConfig(const std::string& lang)
        {
            auto types = Types();
            for (auto it = types.begin(); it != types.end();) {
                // which of the templates is in effect is judged elsewhere
                it = it->second.size() > 1 ? types.erase(it) : std::next(it);
            }
            auto cfg = GenConfig(types);
            auto text = R.Chance(50) ? cfg.toStyledString() : Text(cfg);
            cfg = sys::Json(text);
            sys::WriteFile(ConfigFile, text);
            Json::Value p(Json::objectValue);
            if (!lang.empty()) {
                p["lang"] = lang;
            }
            if (!Call("Load", p)) {
                mon::Violation("load-refused", Error + ": " + text);
                return;
            }
            auto res = Result;
            mon::Count("configurations");
            mon::Distinct(Text(res["config"]));
            auto exp = Modern(cfg, types);
            if (!exp.isMember("ports")) {
                exp["ports"] = Json::Value();
            }
            auto got = res["config"];
            for (auto c: {&got, &exp}) { // an empty list is the same as no list
                for (auto& port: (*c)["ports"]) {
                    if (port["devices"].isNull()) {
                        port.removeMember("devices");
                    }
                }
            }
            auto d = Differ(got, exp);
            MON_EXPECT(d.empty(), "config", d << " for " << text);
            MON_EXPECT(sys::ReadFile(ConfigFile) == text, "file-changed", text);
            MON_EXPECT(res["schema"] == sys::Static().Ports, "ports-schema", "");
            // saved as it is and loaded again
            std::istringstream in(Text(res["config"]));
            auto saved = MakeConfigFromConfed(in, *Templates);
            MON_EXPECT(saved == res["config"], "saved", Differ(saved, res["config"]));
            sys::WriteFile(ConfigFile, Text(saved));
            if (Call("Load", p)) {
                MON_EXPECT(Result["config"] == res["config"], "second-conversion", Differ(Result["config"], res["config"]));
            } else {
                mon::Violation("load-refused", Error + ": " + Text(saved));
            }
            CheckTypes(res["types"], lang.empty() ? "en" : lang);
        }
    };

    void CaseEditor(Rng& r, uint64_t n)
    {
        TWorld w(r, n % 12 == 0);
        for (int step = 0; step < 4; ++step) {
            if (step && r.Chance(70)) {
                w.Edit();
            }
            w.CheckConfig(r.Of<const char*>({"en", "ru", "de", ""}));
            for (auto& t: w.Types()) {
                // the library of DLMS is missing here
                bool dlms = false;
                for (auto x: t.second) {
                    dlms = dlms || x->Root["device"].get("protocol", "").asString() == "dlms";
                }
                if (!dlms && r.Chance(w.Real ? 15 : 60)) {
                    w.CheckSchema(t.first, t.second);
                }
            }
            for (auto& p: TWorld::ProtocolTypes()) {
                if (!r.Chance(10)) {
                    continue;
                }
                Json::Value q;
                q["type"] = "protocol:" + p.first;
                if (!w.Call("GetSchema", q)) {
                    mon::Violation("protocol-schema", p.first + ": " + w.Error);
                    continue;
                }
                auto s = w.Result;
                CheckRefs(s, s, p.first);
                for (auto& m: p.second.getMemberNames()) {
                    if (m != "definitions" && m != "translations") {
                        MON_EXPECT(s[m] == p.second[m], "protocol-schema", p.first << ": " << Differ(s[m], p.second[m], m));
                    }
                }
                auto tr = p.second["translations"];
                auto& common = sys::Static().Common["translations"];
                for (auto& l: common.getMemberNames()) {
                    for (auto& m: common[l].getMemberNames()) {
                        tr[l][m] = common[l][m];
                    }
                }
                for (auto& l: tr.getMemberNames()) {
                    for (auto& m: tr[l].getMemberNames()) {
                        auto got = s["translations"][l][m];
                        MON_EXPECT(got == tr[l][m] || (!got.isNull() && got == p.second["translations"][l][m]), "protocol-translation",
                                   p.first << " in " << l << ": " << m);
                    }
                }
                mon::Count("protocol-schemas");
            }
            if (r.Chance(20)) {
                std::string text = r.Of<const char*>({"", "[]", "null", "12", "\"text\"", "true", "{", "[{\"ports\":[]}]"});
                sys::WriteFile(w.ConfigFile, text);
                MON_EXPECT(!w.Call("Load", Json::Value(Json::objectValue)) && !w.Error.empty(), "broken-file", text << " is answered with " << Text(w.Result["config"]));
                MON_EXPECT(sys::ReadFile(w.ConfigFile) == text, "file-changed", text);
                mon::Count("broken-files");
            }
            if (r.Chance(20)) {
                Json::Value q;
                q["type"] = r.Of<const char*>({"no such type", "", "protocol:none", "protocol:"});
                MON_EXPECT(!w.Call("GetSchema", q) && !w.Error.empty(), "unknown-type", Text(q) << " is answered with " << Text(w.Result).substr(0, 200));
                mon::Count("unknown-types");
            }
        }
        fs::remove_all(w.Base);
    }
    MON_CHECK("T04", CaseEditor);
}
