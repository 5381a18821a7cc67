// T03: upload and removal of user templates: only files of the user folder change, invalid templates change nothing,
// the effective template of every type is known at any moment, faults and crashes leave the earlier template intact
#include "codec.h"
#include "rpcenv.h"
#include "file_utils.h"
#include "rpc/rpc_templates_handler.h"
#include "confed_device_schemas_map.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace fs = std::filesystem;
using mon::Rng;

namespace
{
    // what the program asks the file system to do
    struct TCalls
    {
        bool On = false;
        int FailRename = 0, FailRemove = 0; // errno
        int DieAt = -1;                     // the number of the call a crash happens before
        int Count = 0;
        std::vector<std::string> Paths;
    } Calls;

    void Crash()
    {
        if (Calls.DieAt >= 0 && Calls.Count++ == Calls.DieAt) {
            _exit(99);
        }
    }
}

extern "C" int rename(const char* from, const char* to)
{
    if (Calls.On) {
        Crash();
        Calls.Paths.push_back(from);
        Calls.Paths.push_back(to);
        if (Calls.FailRename) {
            errno = Calls.FailRename;
            return -1;
        }
    }
    auto res = syscall(SYS_renameat, AT_FDCWD, from, AT_FDCWD, to);
    if (Calls.On) {
        Crash();
    }
    return int(res);
}

extern "C" int remove(const char* path)
{
    if (Calls.On) {
        Crash();
        Calls.Paths.push_back(path);
        if (Calls.FailRemove) {
            errno = Calls.FailRemove;
            return -1;
        }
    }
    auto res = syscall(SYS_unlinkat, AT_FDCWD, path, 0);
    if (res && errno == EISDIR) {
        res = syscall(SYS_unlinkat, AT_FDCWD, path, AT_REMOVEDIR);
    }
    if (Calls.On) {
        Crash();
    }
    return int(res);
}

namespace
{
    template<class... T> std::string Fmt(const char* f, T... a)
    {
        char b[600];
        snprintf(b, sizeof(b), f, a...);
        return b;
    }

    struct TFile
    {
        std::string Content;
        bool Good = false; // is a template
        bool Deprecated = false;
        std::string Type, Title, Marker, Group;
    };
    using TSnap = std::map<std::string, std::string>; // path -> content

    void Collect(const fs::path& base, const fs::path& p, TSnap& res)
    {
        for (auto& e: fs::directory_iterator(p)) {
            auto name = e.path().string().substr(base.string().size() + 1);
            if (name.compare(0, 5, "user/") == 0 && name.size() > 9 && name.substr(name.size() - 9) == ".json.tmp") {
                continue; // not read by the program, may be left by a crash
            }
            if (e.is_symlink()) {
                res[name] = "link " + fs::read_symlink(e.path()).string();
            } else if (e.is_directory()) {
                res[name] = "folder";
                Collect(base, e.path(), res);
            } else {
                res[name] = "file " + sys::ReadFile(e.path().string());
            }
        }
    }
    TSnap Snapshot(const std::string& base)
    {
        TSnap s;
        Collect(base, base, s);
        return s;
    }
    std::string Diff(const TSnap& was, const TSnap& now)
    {
        std::string d;
        for (auto& x: was) {
            auto it = now.find(x.first);
            if (it == now.end()) {
                d += "-" + x.first + " ";
            } else if (it->second != x.second) {
                d += "*" + x.first + " ";
            }
        }
        for (auto& x: now) {
            if (!was.count(x.first)) {
                d += "+" + x.first + " ";
            }
        }
        return d;
    }

    const char* TYPES[] = {"t0", "t1", "t2", "t3", "a/../t4", "тип", "../../outside/o", "t 5\n"};

    Json::Value Root(const TFile& f)
    {
        Json::Value t(Json::objectValue);
        t["device_type"] = f.Type;
        t["title"] = f.Title;
        if (!f.Group.empty()) {
            t["group"] = f.Group;
        }
        if (f.Deprecated) {
            t["deprecated"] = true;
        }
        auto& d = t["device"];
        d["name"] = f.Title;
        d["id"] = "id" + f.Marker;
        return t;
    }

    // A good template
    TFile MakeGood(Rng& r, const std::string& type, bool deprecated = false)
    {
        static uint64_t number = 0;
        TFile f;
        f.Good = true;
        f.Deprecated = deprecated;
        f.Type = type;
        f.Marker = Fmt("m%llu", (unsigned long long)++number);
        f.Title = "Title " + f.Marker;
        f.Group = r.Of<const char*>({"", "g-wb", "g-custom", "mygroup"});
        auto t = Root(f);
        auto& d = t["device"];
        if (r.Chance(30)) {
            d["protocol"] = "modbus";
        }
        d["channels"] = sys::Json("[{\"name\":\"C " + f.Marker + "\",\"reg_type\":\"holding\",\"address\":" + std::to_string(r.Range(0, 65535)) + "}]");
        for (int i = r.Range(0, 3); i > 0; --i) {
            d["channels"].append(sys::Json(Fmt("{\"name\":\"x%d\",\"reg_type\":\"%s\",\"address\":\"0x%x\",\"type\":\"value\"%s}", i, r.Of<const char*>({"input", "coil", "holding"}), int(r.Range(0, 65535)),
                                               r.Of<const char*>({"", ",\"condition\":\"p1==1\"", ",\"readonly\":true", ",\"enabled\":false"}))));
        }
        bool array = r.Chance(30);
        if (r.Chance(60)) {
            d["parameters"] = Json::Value(array ? Json::arrayValue : Json::objectValue);
            for (int i = 1; i <= 2; ++i) {
                auto p = sys::Json(Fmt("{\"title\":\"P %d %s\",\"address\":%d,\"default\":1}", i, f.Marker.c_str(), int(r.Range(0, 500))));
                if (array) {
                    p["id"] = Fmt("p%d", i);
                    d["parameters"].append(p);
                } else {
                    d["parameters"][Fmt("p%d", i)] = p;
                }
            }
        }
        if (r.Chance(30)) {
            d["setup"] = sys::Json("[{\"title\":\"s\",\"address\":9,\"value\":3,\"condition\":\"p2>4\"}]");
        }
        if (r.Chance(20)) {
            t["hw"] = sys::Json("[{\"signature\":\"sig\",\"fw\":\"1.2\"}]");
        }
        if (r.Chance(20)) {
            d["subdevices"] = sys::Json("[{\"title\":\"sub\",\"device_type\":\"inner\",\"device\":{\"channels\":[{\"name\":\"i\",\"reg_type\":\"coil\",\"address\":3}]}}]");
            d["channels"].append(sys::Json("{\"name\":\"S\",\"device_type\":\"inner\"}"));
        }
        f.Content = r.Chance(50) ? t.toStyledString() : Json::FastWriter().write(t);
        if (r.Chance(20)) {
            f.Content = "// a comment\n" + f.Content;
        }
        return f;
    }

    // A template with one mistake the documentation says is refused
    TFile MakeBad(Rng& r, const std::string& type, std::string& kind)
    {
        auto f = MakeGood(r, type);
        auto t = sys::Json(f.Content);
        auto& d = t["device"];
        auto& ch = d["channels"][0];
        f.Good = false;
        int k = int(r.Below(20));
        kind = Fmt("bad-%d", k);
        switch (k) {
            case 0:
                f.Content.resize(r.Below(f.Content.size() - 2) + 1);
                f.Content = f.Content.substr(0, f.Content.rfind('}')) + "\"";
                return f;
            case 1:
                f.Content = r.Of<const char*>({"[]", "1", "\"t0\"", "null", "true", "[{\"device_type\":\"t0\"}]"});
                return f;
            case 2:
                t.removeMember("device_type");
                break;
            case 3:
                t["device_type"] = r.Chance(50) ? Json::Value("") : r.Chance(50) ? Json::Value(5) : Json::Value(Json::nullValue);
                break;
            case 4:
                t["deprecated"] = true;
                break;
            case 5:
                ch["name"] = r.Of<const char*>({"a/b", "a#", "\"", ""});
                break;
            case 6:
                ch["address"] = Json::Value(Json::objectValue);
                break;
            case 7:
                ch["condition"] = r.Of<const char*>({"p1 ==", "&&", "(p1==1", "p1==1)", "1 2"});
                break;
            case 8:
                d["setup"] = sys::Json("[{\"title\":\"s\",\"address\":9,\"value\":3,\"condition\":\"p2>\"}]");
                break;
            case 9:
                d["parameters"] = sys::Json("[{\"id\":\"q\",\"title\":\"a\",\"address\":1},{\"id\":\"q\",\"title\":\"b\",\"address\":2}]");
                break;
            case 10:
                d["channels"].append(sys::Json("{\"name\":\"w\",\"reg_type\":\"holding\",\"address\":\"5:0:4\",\"write_address\":\"6:1:4\"}"));
                break;
            case 11:
                d["channels"].append(sys::Json("{\"name\":\"no such\",\"device_type\":\"nowhere\"}"));
                d["subdevices"] = sys::Json("[{\"title\":\"sub\",\"device_type\":\"inner\",\"device\":{\"channels\":[]}}]");
                break;
            case 12:
                d["channels"].append(sys::Json("{\"name\":\"self\",\"device_type\":\"inner\"}"));
                d["subdevices"] = sys::Json("[{\"title\":\"sub\",\"device_type\":\"inner\",\"device\":{\"channels\":[{\"name\":\"again\",\"device_type\":\"inner\"}]}}]");
                break;
            case 13:
                t.removeMember("device");
                break;
            case 14:
                t["device"] = r.Chance(50) ? Json::Value("x") : Json::Value(Json::arrayValue);
                break;
            case 15:
                d["channels"] = "x";
                break;
            case 16:
                ch["scale"] = "much";
                break;
            case 17:
                ch["reg_type"] = 5;
                break;
            case 18:
                d["parameters"] = sys::Json("[{\"id\":\"q\",\"title\":\"a\",\"address\":1,\"fw\":\"1.0.0\"},{\"id\":\"q\",\"title\":\"b\",\"address\":1}]");
                break;
            default:
                d["channels"].append(sys::Json("{\"name\":\"w\",\"reg_type\":\"holding\",\"write_address\":\"6:1:4\"}"));
                break;
        }
        f.Content = Json::FastWriter().write(t);
        return f;
    }

    // Anything: whether it is a template is not known
    TFile MakeMutated(Rng& r, const std::string& type)
    {
        auto f = MakeGood(r, type);
        auto& s = f.Content;
        for (int i = r.Range(1, 3); i > 0; --i) {
            switch (r.Below(6)) {
                case 0:
                    s[r.Below(s.size())] = char(r.Byte());
                    break;
                case 1:
                    s.erase(r.Below(s.size()), r.Range(1, 10));
                    break;
                case 2:
                    s.insert(r.Below(s.size()), r.Of<const char*>({"[", "{", "}", "\"", ",", "null", "1e999", "\\u0000", "-", "\"device\":5,", "\"title\":[],", "\"hw\":7,", "\"group\":{},", "\"device_type\":\"t1\","}));
                    break;
                case 3:
                    s += s.substr(r.Below(s.size()));
                    break;
                case 4:
                    s = std::string(r.Range(1, 3000), '[');
                    break;
                default: { // a value of another type
                    auto p = s.find(':', r.Below(s.size()));
                    if (p != std::string::npos) {
                        auto e = s.find_first_of(",}]", p);
                        s.replace(p + 1, e == std::string::npos ? 0 : e - p - 1, r.Of<const char*>({"null", "[]", "{}", "5", "\"x\"", "true", "-1.5", "[[]]", "{\"en\":5}", "99999999999999999999"}));
                    }
                }
            }
            if (s.empty()) {
                s = " ";
            }
        }
        return f;
    }

    std::string MakeName(Rng& r)
    {
        switch (r.Below(12)) {
            case 0:
                return r.Of<const char*>({"../../outside/o.json", "../system/config-t0.json", "/etc/passwd", "..", ".", "../", "a/", ".json", "..json", "../.json", "/", "a/../../outside/o.json", "..\\..\\outside\\o.json",
                                          "%2e%2e/o.json", "o.json/", "~", "$HOME", "*", "`id`", "-rf", "x.JSON", "x.json.tmp", "x.json.json", "json", "имя.json", "a b\n.json", "t0.json\n", "|x", "x..json"});
            case 1: {
                std::string s = "../../outside/";
                s += char(0);
                return s + "o.json";
            }
            case 2:
                return std::string(r.Range(200, 300), 'n') + (r.Chance(50) ? ".json" : "");
            case 3: {
                std::string s;
                for (int i = r.Range(1, 30); i > 0; --i) {
                    s += r.Chance(20) ? '/' : r.Chance(20) ? '.' : char(r.Range(1, 127));
                }
                return s;
            }
            case 4:
                return "n1"; // the extension is added
            default:
                return r.Of<const char*>({"n0.json", "n1.json", "n2.json", "config-t0.json", "n0-1.json", "n 0.json", "n_0.json"});
        }
    }

    // "" - there is no such name
    std::string Sanitized(const std::string& s)
    {
        auto p = s.rfind('/');
        auto n = p == std::string::npos ? s : s.substr(p + 1);
        if (n.empty()) {
            return n;
        }
        for (auto& c: n) {
            if (!strchr("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789._-", c) || !c) {
                c = '_';
            }
        }
        if (n.size() < 5 || n.substr(n.size() - 5) != ".json") {
            n += ".json";
        }
        return n == ".json" ? "" : n;
    }

    class TWorld
    {
    public:
        Rng& R;
        std::string Base, System, User, ConfigFile;
        std::map<std::string, TFile> Files; // by path, templates on the disk
        std::map<std::string, std::vector<std::string>> Order; // paths by type: user files at the end, the last is effective
        size_t Left = 0; // temporary files
        std::map<std::string, int> Used; // devices by type
        std::shared_ptr<TTemplateMap> Templates;
        std::unique_ptr<TDevicesConfedSchemasMap> Schemas;
        WBMQTT::PMqttRpcServer Server;
        std::unique_ptr<TRPCConfigHandler> ConfigHandler;
        std::unique_ptr<TRPCTemplatesHandler> Handler;
        Json::Value Groups;
        int Results = 0, Errors = 0;
        Json::Value Result;
        std::string Error;

        TWorld(Rng& r): R(r)
        {
            Base = mon::Scratch() + "/t03";
            System = Base + "/system";
            User = Base + "/user";
            ConfigFile = Base + "/config.json";
            fs::remove_all(Base);
            fs::create_directories(System);
            fs::create_directories(Base + "/outside");
            sys::WriteFile(Base + "/outside/o.json", "outside");
            sys::WriteFile(Base + "/o.json", "outside");
            Groups = sys::Json("{\"en\":{\"g-wb\":\"Wiren Board\",\"g-custom\":\"Custom\"},\"ru\":{\"g-custom\":\"Произвольные\"}}");
            for (int i = 0; i < 4; ++i) {
                if (R.Chance(60)) {
                    Put(System + Fmt("/config-t%d.json", i), MakeGood(R, TYPES[i], R.Chance(10)));
                }
            }
            if (R.Chance(80)) {
                fs::create_directories(User);
                for (int i = R.Range(0, 3); i > 0; --i) {
                    Put(User + R.Of<const char*>({"/n0.json", "/n1.json", "/config-t0.json"}), MakeGood(R, R.Of<const char*>({"t0", "t1", "t3", "тип"})));
                }
                if (R.Chance(20)) {
                    sys::WriteFile(User + "/notes.txt", "text");
                    fs::create_directories(User + "/n2.json");
                }
                if (R.Chance(10)) {
                    fs::create_symlink("../outside/o.json", User + "/readme");
                }
            }
            NewConfig();
            Start();
        }

        void Put(const std::string& path, const TFile& f)
        {
            sys::WriteFile(path, f.Content);
            Files[path] = f;
        }

        void NewConfig()
        {
            Used.clear();
            if (R.Chance(10)) {
                sys::WriteFile(ConfigFile, R.Chance(50) ? "{broken" : "{}");
                return;
            }
            Json::Value c = sys::Json("{\"ports\":[{\"devices\":[]},{\"devices\":[]}]}");
            for (int i = R.Range(0, 4); i > 0; --i) {
                std::string t = TYPES[R.Below(8)];
                ++Used[t];
                Json::Value d;
                d["device_type"] = t;
                d["slave_id"] = std::to_string(i);
                c["ports"][int(R.Below(2))]["devices"].append(d);
            }
            c["ports"][0]["devices"].append(sys::Json("{\"slave_id\":\"9\",\"protocol\":\"modbus\",\"channels\":[]}"));
            sys::WriteFile(ConfigFile, c.toStyledString());
        }

        // the program starts
        void Start()
        {
            Handler.reset();
            ConfigHandler.reset();
            Schemas.reset();
            Templates = std::make_shared<TTemplateMap>(LoadConfigTemplatesSchema(mon::Repo() + "/wb-mqtt-serial-device-template.schema.json", sys::Static().Common), User);
            Templates->AddTemplatesDir(System);
            try {
                Templates->AddTemplatesDir(User);
            } catch (const TNoDirError&) {
                if (fs::exists(User)) {
                    mon::Violation("folder", "the user folder is not found");
                }
                fs::create_directories(User); // the package creates it
                Templates->AddTemplatesDir(User);
            }
            Order.clear();
            for (auto dir: {System, User}) {
                for (auto& f: Files) { // in the order of names
                    if (f.first.compare(0, dir.size(), dir) == 0) {
                        Order[f.second.Type].push_back(f.first);
                    }
                }
            }
            Schemas = std::make_unique<TDevicesConfedSchemasMap>(*Templates, sys::Static().Factory, sys::Static().Common);
            Server = WBMQTT::NewMqttRpcServer(nullptr, "wb-mqtt-serial");
            auto file = [](const std::string& s) { return mon::Repo() + "/wb-mqtt-serial-rpc-" + s + "-request.schema.json"; };
            ConfigHandler = std::make_unique<TRPCConfigHandler>(ConfigFile, sys::Static().Ports, Templates, *Schemas, *sys::Static().Protocols, Groups, Server);
            Handler = std::make_unique<TRPCTemplatesHandler>(User, ConfigFile, Templates, *Schemas, Groups, file("templates-upload"), file("templates-delete"));
            RegisterTemplatesRpcHandlers(*Handler, Server);
        }

        bool Call(const std::string& service, const std::string& method, const Json::Value& p)
        {
            Results = Errors = 0;
            Error.clear();
            Result = Json::Value();
            Server->Call(
                service,
                method,
                p,
                [this](const Json::Value& v) {
                    ++Results;
                    Result = v;
                },
                [this](auto, const std::string& e) {
                    ++Errors;
                    Error = e;
                });
            mon::Count("requests");
            if (Results + Errors != 1) {
                mon::Violation("replies", Fmt("%d results and %d errors", Results, Errors));
            }
            if (Errors && Error.empty()) {
                mon::Violation("error-text", method);
            }
            return Results == 1;
        }

        std::string Effective(const std::string& type) const
        {
            auto it = Order.find(type);
            return it == Order.end() || it->second.empty() ? "" : it->second.back();
        }
        bool IsUser(const std::string& path) const
        {
            return path.compare(0, User.size() + 1, User + "/") == 0;
        }
        std::string LastUser(const std::string& type) const
        {
            auto e = Effective(type);
            return IsUser(e) ? e : "";
        }
        void Forget(const std::string& path)
        {
            Files.erase(path);
            for (auto& o: Order) {
                o.second.erase(std::remove(o.second.begin(), o.second.end(), path), o.second.end());
            }
        }
        void Remember(const std::string& path, const TFile& f)
        {
            Forget(path);
            Files[path] = f;
            auto& o = Order[f.Type];
            IsUser(path) ? o.insert(o.end(), path) : o.insert(o.begin(), path);
        }

        // the types of a reply
        void CheckReply(const std::string& what, const std::string& type, const std::string& lang)
        {
            auto e = Effective(type);
            auto& types = Result["types"];
            if (e.empty()) {
                if (!types.isArray() || types.size()) {
                    mon::Violation("reply:" + what, "the type is no more, the reply is " + Json::FastWriter().write(Result));
                }
                return;
            }
            if (types.size() != 1 || types[0]["types"].size() != 1) {
                mon::Violation("reply:" + what, Json::FastWriter().write(Result));
                return;
            }
            CheckType(what, types[0]["types"][0], types[0]["name"].asString(), Files[e], e, lang);
        }
        void CheckType(const std::string& what, const Json::Value& t, const std::string& group, const TFile& f, const std::string& path, const std::string& lang)
        {
            auto g = f.Group.empty() ? "g-custom" : f.Group;
            auto tr = Groups.get(lang, Json::Value(Json::objectValue)).get(g, "").asString();
            if (t["type"].asString() != f.Type || t["name"].asString() != f.Title || t["mqtt-id"].asString() != "id" + f.Marker || t["deprecated"].asBool() != f.Deprecated || t.get("user-defined", false).asBool() != IsUser(path) ||
                group != (tr.empty() ? g : tr))
            {
                mon::Violation("type:" + what, Json::FastWriter().write(t) + " of group " + group + " instead of " + path + " with " + f.Content.substr(0, 200));
            }
        }

        // what the program knows corresponds to the files
        void CheckMemory(const std::string& what, bool deep)
        {
            std::set<std::string> known;
            for (auto& t: Templates->GetTemplates()) {
                known.insert(t->Type);
            }
            for (auto& o: Order) {
                auto e = Effective(o.first);
                if (e.empty() == bool(known.count(o.first))) {
                    mon::Violation("known:" + what, mon::Quote(o.first) + (e.empty() ? " is still known" : " is not known"));
                    continue;
                }
                if (e.empty()) {
                    continue;
                }
                mon::Count("effective-judged");
                auto& f = Files[e];
                auto t = Templates->GetTemplate(o.first);
                if (t->GetFilePath() != e || t->GetTitle("en") != f.Title || t->IsUserDefined() != IsUser(e)) {
                    mon::Violation("effective:" + what, mon::Quote(o.first) + " is from " + t->GetFilePath() + " " + t->GetTitle("en") + " instead of " + e + " " + f.Title);
                    continue;
                }
                if (!deep || f.Deprecated) {
                    continue;
                }
                mon::Count("contents-judged");
                auto name = t->GetTemplate()["channels"][0]["name"].asString();
                auto s = Json::FastWriter().write(*Schemas->GetSchema(o.first));
                if (name != "C " + f.Marker || (!t->WithSubdevices() && s.find("C " + f.Marker) == std::string::npos)) {
                    mon::Violation("content:" + what, mon::Quote(o.first) + " from " + e + " has " + name + " instead of C " + f.Marker);
                }
            }
            for (auto& k: known) {
                if (Effective(k).empty()) {
                    mon::Violation("known:" + what, mon::Quote(k) + " is known");
                }
            }
            if (deep) {
                if (!Call("config", "Load", Json::Value(Json::objectValue))) {
                    mon::Count("lists-not-given"); // the configuration is broken
                    return;
                }
                std::map<std::string, int> listed;
                const Json::Value& res = Result; 
                for (auto& g: res["types"]) {
                    for (auto& t: g["types"]) {
                        auto type = t["type"].asString();
                        auto e = Effective(type);
                        if (!e.empty()) {
                            ++listed[type];
                            CheckType("list:" + what, t, g["name"].asString(), Files[e], e, "en");
                        }
                    }
                }
                for (auto& k: known) {
                    if (listed[k] != 1) {
                        mon::Violation("listed:" + what, mon::Quote(k) + Fmt(" is listed %d times: ", listed[k]) + Error + Json::FastWriter().write(Result).substr(0, 300));
                    }
                }
            }
        }
        void CheckDisk(const std::string& what, const TSnap& expected, bool crash = false)
        {
            mon::Count("snapshots-compared");
            auto now = Snapshot(Base);
            size_t left = 0;
            for (auto& e: fs::directory_iterator(User)) {
                auto n = e.path().string();
                left += n.size() > 4 && n.substr(n.size() - 4) == ".tmp";
            }
            if (left > Left && !crash) {
                mon::Violation("leftover:" + what, "a temporary file is left");
            }
            Left = left;
            auto d = Diff(expected, now);
            if (!d.empty()) {
                mon::Violation("files:" + what, mon::Quote(d) + " reply: " + (Errors ? Error : Json::FastWriter().write(Result)));
            }
        }

        void Upload()
        {
            std::string type = TYPES[R.Below(8)];
            std::string kind = "good";
            TFile f;
            auto k = R.Below(100);
            if (k < 60) {
                f = MakeGood(R, type);
            } else if (k < 80) {
                f = MakeBad(R, type, kind);
            } else {
                f = MakeMutated(R, type);
                kind = "mutated";
            }
            auto name = MakeName(R);
            Json::Value p(Json::objectValue);
            p["content"] = f.Content;
            p["filename"] = name;
            std::string lang = "en";
            if (R.Chance(30)) {
                lang = R.Of<const char*>({"ru", "en", "de", ""});
                p["lang"] = lang;
            }
            bool force = R.Chance(50);
            if (force || R.Chance(20)) {
                p["force"] = force;
            }
            bool badRequest = R.Chance(4);
            if (badRequest) {
                auto key = R.Of<const char*>({"content", "filename"});
                switch (R.Below(4)) {
                    case 0:
                        p.removeMember(key);
                        break;
                    case 1:
                        p[key] = "";
                        break;
                    case 2:
                        p[key] = 5;
                        break;
                    default:
                        p["force"] = "yes";
                }
                kind = "bad-request";
            }
            auto san = Sanitized(name);
            auto old = kind == "mutated" ? "" : LastUser(f.Type);
            auto path = User + "/" + san;
            for (int i = 1; path != old && san.size() < 240 && fs::exists(fs::path(path)); ++i) {
                path = User + "/" + san.substr(0, san.size() - 5) + "-" + std::to_string(i) + ".json";
            }
            auto before = Snapshot(Base);
            int fault = int(R.Below(100));
            if (kind == "good" && fault < 12) {
                return CrashAt(p, f, path, old);
            }
            rlimit was{};
            bool faulty = false, oldStays = false;
            if (fault < 20) {
                Calls.FailRename = EIO;
                faulty = true;
            } else if (fault < 30) {
                getrlimit(RLIMIT_FSIZE, &was);
                rlimit l{R.Below(f.Content.size()), was.rlim_max};
                setrlimit(RLIMIT_FSIZE, &l);
                faulty = true;
            } else if (fault < 36) {
                Calls.FailRemove = EACCES;
                oldStays = !old.empty() && old != path;
            }
            Calls.On = true;
            bool ok = Call("templates", "Upload", p);
            Calls.On = false;
            Calls.FailRename = Calls.FailRemove = 0;
            if (was.rlim_max) {
                setrlimit(RLIMIT_FSIZE, &was);
            }
            CheckPaths("upload");
            bool inUse = !force && Used.count(f.Type);
            mon::Count("uploads-" + std::string(kind.compare(0, 4, "bad-") || badRequest ? kind : "bad"));
            mon::Distinct(kind + " " + san + " " + (ok ? "ok" : Error.substr(0, 40)) + (faulty ? " fault" : ""));
            if (kind == "mutated" && ok) {
                // what was taken is a template: it is read as any other file
                Json::Value t;
                try {
                    t = WBMQTT::JSON::Parse(User + "/" + san);
                } catch (const std::exception&) {
                }
                auto& types = Result["types"];
                if (types.size() != 1 || types[0]["types"].size() != 1) {
                    mon::Violation("reply:mutated", Json::FastWriter().write(Result));
                    return;
                }
                mon::Count("mutated-accepted");
                auto& x = types[0]["types"][0];
                f.Type = x["type"].asString();
                inUse = !force && Used.count(f.Type);
                f.Title = x["name"].asString();
                f.Marker = x["mqtt-id"].asString().substr(x["mqtt-id"].asString().compare(0, 2, "id") ? 0 : 2);
                old = LastUser(f.Type);
                path = User + "/" + san;
                for (int i = 1; path != old && before.count("user/" + fs::path(path).filename().string()); ++i) {
                    path = User + "/" + san.substr(0, san.size() - 5) + "-" + std::to_string(i) + ".json";
                }
                oldStays = fault >= 30 && fault < 36 && !old.empty() && old != path;
                if (faulty) {
                    mon::Violation("fault-ignored:mutated", Fmt("fault %d", fault));
                }
                if (inUse) {
                    mon::Violation("in-use-overridden", f.Type);
                }
                auto expected = before;
                if (!old.empty() && old != path && !oldStays) {
                    expected.erase(old.substr(Base.size() + 1));
                }
                expected[path.substr(Base.size() + 1)] = "file " + f.Content;
                CheckDisk("mutated", expected);
                // its other properties are not known: it is removed and the world goes on
                fs::remove(fs::path(path));
                for (auto& t: Templates->GetTemplates()) {
                    (void)t;
                }
                Templates->DeleteTemplate(path);
                Schemas->InvalidateCache(f.Type);
                if (!old.empty() && !oldStays) {
                    Forget(old);
                }
                CheckMemory("mutated", false);
                return;
            }
            bool refused = kind != "good" || san.empty() || (inUse && !badRequest) || faulty;
            if (kind == "good" && !refused && !ok) {
                if (san.size() > 240) {
                    refused = true; // too long for the file system
                } else {
                    mon::Violation("refused:upload", Error + " name " + mon::Quote(name) + " " + f.Content);
                    return;
                }
            }
            if (refused) {
                if (ok) {
                    mon::Violation("accepted:" + std::string(inUse ? "in-use" : faulty ? "fault" : san.empty() ? "name" : kind), "name " + mon::Quote(name) + " " + f.Content + " reply " + Json::FastWriter().write(Result));
                }
                if (kind == "good" && inUse && Error != "template-in-use") {
                    mon::Violation("in-use-error", Error);
                }
                mon::Count(inUse && kind == "good" ? "refused-in-use" : faulty ? "refused-fault" : "refused");
                CheckDisk("refused:" + kind, before);
                CheckMemory("refused", R.Chance(10));
                return;
            }
            mon::Count("accepted");
            auto expected = before;
            expected[path.substr(Base.size() + 1)] = "file " + f.Content;
            if (!old.empty() && old != path && !oldStays) {
                expected.erase(old.substr(Base.size() + 1));
                Forget(old);
                mon::Count("renamed");
            }
            Remember(path, f);
            CheckDisk("upload", expected);
            CheckReply("upload", f.Type, lang);
            CheckMemory("upload", R.Chance(30));
        }

        // The paths the program renamed and removed
        void CheckPaths(const std::string& what)
        {
            for (auto& p: Calls.Paths) {
                mon::Count("paths-judged");
                if (p.compare(0, User.size() + 1, User + "/") || p.find("/", User.size() + 1) != std::string::npos || p == User + "/.." || p == User + "/.") {
                    mon::Violation("path:" + what, mon::Quote(p));
                }
            }
            Calls.Paths.clear();
        }

        // The program dies in the middle of an upload
        void CrashAt(const Json::Value& p, const TFile& f, const std::string& path, const std::string& old)
        {
            auto before = Snapshot(Base);
            auto limit = R.Chance(40) ? int(R.Below(f.Content.size())) : -1;
            auto at = int(R.Below(5));
            auto pid = fork();
            if (!pid) {
                if (limit >= 0) {
                    signal(SIGXFSZ, SIG_DFL);
                    rlimit l{rlim_t(limit), rlim_t(limit)};
                    setrlimit(RLIMIT_FSIZE, &l);
                    rlimit c{0, 0};
                    setrlimit(RLIMIT_CORE, &c);
                } else {
                    Calls.DieAt = at;
                }
                Calls.On = true;
                Server->Call("templates", "Upload", p, [](const Json::Value&) {}, [](auto, const std::string&) {});
                _exit(0);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            mon::Count(WIFSIGNALED(st) ? "crashes-in-writing" : WEXITSTATUS(st) == 99 ? "crashes-at-calls" : "crashes-after");
            // either nothing has happened, or the new file is there, with the old one or without it
            auto now = Snapshot(Base);
            auto rel = path.substr(Base.size() + 1);
            auto expected = before;
            bool stored = now.count(rel) && now[rel] == "file " + f.Content;
            if (stored) {
                expected[rel] = "file " + f.Content;
                if (!old.empty() && old != path && !now.count(old.substr(Base.size() + 1))) {
                    expected.erase(old.substr(Base.size() + 1));
                    Forget(old);
                }
            }
            Result = Json::Value();
            CheckDisk(WIFSIGNALED(st) ? "crash-in-writing" : "crash", expected, true);
            if (stored) {
                mon::Count("crashes-stored");
                Remember(path, f);
            }
            Start();
            CheckMemory("restart", R.Chance(30));
        }

        void Delete()
        {
            std::string type = R.Chance(85) ? TYPES[R.Below(8)] : R.Of<const char*>({"", "no such", "../../outside/o.json", "protocol:modbus", "n0.json"});
            if (R.Chance(60)) { // one of those which can be removed
                std::vector<std::string> types;
                for (auto& o: Order) {
                    if (!LastUser(o.first).empty()) {
                        types.push_back(o.first);
                    }
                }
                if (!types.empty()) {
                    type = R.Pick(types);
                }
            }
            Json::Value p(Json::objectValue);
            p["type"] = type;
            bool force = R.Chance(50);
            if (force || R.Chance(20)) {
                p["force"] = force;
            }
            std::string lang = "en";
            if (R.Chance(30)) {
                lang = R.Of<const char*>({"ru", "en", "de"});
                p["lang"] = lang;
            }
            bool bad = R.Chance(4);
            if (bad) {
                R.Chance(50) ? void(p.removeMember("type")) : void(p["type"] = R.Chance(50) ? Json::Value(Json::arrayValue) : Json::Value(4));
            }
            auto before = Snapshot(Base);
            auto path = LastUser(type);
            bool fault = R.Chance(10);
            Calls.FailRemove = fault ? EACCES : 0;
            Calls.On = true;
            bool ok = Call("templates", "Delete", p);
            Calls.On = false;
            Calls.FailRemove = 0;
            CheckPaths("delete");
            bool inUse = !force && Used.count(type);
            bool refused = bad || path.empty() || inUse || fault;
            mon::Count(refused ? "deletions-refused" : "deletions");
            mon::Distinct("delete " + type + (ok ? "ok" : Error.substr(0, 40)));
            if (ok == refused) {
                mon::Violation(ok ? "accepted:delete" : "refused:delete", mon::Quote(type) + " " + Error);
            }
            if (refused) {
                if (!bad && !path.empty() && inUse && Error != "template-in-use") {
                    mon::Violation("in-use-error", Error);
                }
                CheckDisk("delete-refused", before);
                CheckMemory("delete-refused", R.Chance(10));
                return;
            }
            auto expected = before;
            expected.erase(path.substr(Base.size() + 1));
            Forget(path);
            CheckDisk("delete", expected);
            CheckReply("delete", type, lang);
            CheckMemory("delete", R.Chance(30));
        }

        // Files are changed by hand, the watcher tells the program about it
        void Manual()
        {
            auto dir = R.Chance(80) ? User : System;
            auto path = dir + R.Of<const char*>({"/n0.json", "/n1.json", "/config-t0.json", "/config-t1.json", "/hand.json"});
            if (fs::is_directory(fs::path(path))) {
                return;
            }
            if (R.Chance(30)) {
                if (Files.count(path)) {
                    fs::remove(fs::path(path));
                    Schemas->InvalidateCache(Templates->DeleteTemplate(path));
                    Forget(path);
                    mon::Count("removed-by-hand");
                }
            } else {
                auto f = MakeGood(R, TYPES[R.Below(6)], R.Chance(10));
                sys::WriteFile(path, f.Content);
                for (auto& t: Templates->UpdateTemplate(path)) {
                    Schemas->InvalidateCache(t);
                }
                Remember(path, f);
                mon::Count("changed-by-hand");
            }
            CheckMemory("by-hand", R.Chance(30));
        }
    };

    void Case(Rng& r, uint64_t)
    {
        signal(SIGXFSZ, SIG_IGN);
        TWorld w(r);
        w.CheckMemory("start", true);
        for (int i = r.Range(5, 25); i > 0; --i) {
            auto k = r.Below(100);
            if (k < 55) {
                w.Upload();
            } else if (k < 78) {
                w.Delete();
            } else if (k < 90) {
                w.Manual();
            } else if (k < 95) {
                w.NewConfig();
            } else {
                w.Start();
                w.CheckMemory("restart", true);
            }
        }
        w.CheckMemory("end", true);
        mon::Count("histories");
        fs::remove_all(w.Base);
    }

    MON_CHECK("T03", Case);
}
