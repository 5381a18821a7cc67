// The effective configuration of a device, worked out independently of the program: template, user's settings,
// conditions, subdevices, and the channels and setup items that the result describes.
#pragma once
#include "mon.h"
#include "refexpr.h"
#include "serial_config.h"
#include <cmath>
#include <functional>

namespace refcfg
{
    struct TRefused
    {
        std::string Why;
    };

    inline bool True(const Json::Value& item, const refexpr::TEnv& env)
    {
        std::string cond = item.isMember("condition") ? item["condition"].asString() : "";
        if (cond.empty()) {
            return true;
        }
        refexpr::P e;
        try {
            e = refexpr::TRefParser(cond).Parse();
        } catch (const refexpr::TReject&) {
            throw TRefused{"bad condition"};
        }
        auto v = refexpr::RefEval(e.get(), env);
        return v && *v != 0;
    }

    // calls f(id, parameter) in the order of the template
    inline void EachParam(const Json::Value& tmpl, const std::function<void(const std::string&, const Json::Value&)>& f)
    {
        if (!tmpl.isMember("parameters")) {
            return;
        }
        const auto& p = tmpl["parameters"];
        if (p.isArray()) {
            for (const auto& i: p) {
                f(i["id"].asString(), i);
            }
        } else {
            for (const auto& id: p.getMemberNames()) {
                f(id, p[id]);
            }
        }
    }

    inline std::optional<int32_t> AsParam(const Json::Value& v)
    {
        if (!v.isNumeric() || v.isBool()) {
            return std::nullopt;
        }
        double d = v.asDouble();
        if (d != std::floor(d) || d < INT32_MIN || d > INT32_MAX) {
            return std::nullopt;
        }
        return int32_t(d);
    }

    inline refexpr::TEnv Env(const Json::Value& user, const Json::Value& tmpl)
    {
        refexpr::TEnv env;
        for (const auto& k: user.getMemberNames()) {
            env[k] = AsParam(user[k]);
        }
        EachParam(tmpl, [&](const std::string& id, const Json::Value& p) {
            if (!env.count(id) && p.isMember("default")) {
                env[id] = AsParam(p["default"]);
            }
        });
        return env;
    }

    struct TMerged
    {
        Json::Value Props{Json::objectValue}, Channels{Json::arrayValue}, Setup{Json::arrayValue};
    };

    inline const Json::Value* Subdevice(const Json::Value& tmpl, const std::string& type)
    {
        if (tmpl.isMember("subdevices")) {
            for (Json::ArrayIndex i = 0; i < tmpl["subdevices"].size(); ++i) {
                if (tmpl["subdevices"][i]["device_type"].asString() == type) {
                    return &tmpl["subdevices"][i]["device"];
                }
            }
        }
        return nullptr;
    }

    inline bool IsSub(const Json::Value& c)
    {
        return c.isMember("device_type") || c.isMember("oneOf");
    }

    // what the user can't change in a channel of a template
    inline const std::set<std::string>& Fixed()
    {
        static const std::set<std::string> s{"id", "type", "reg_type", "address", "format", "max", "scale", "offset",
                                             "round_to", "on_value", "off_value", "error_value", "unsupported_value",
                                             "word_order", "byte_order", "consists_of", "name"};
        return s;
    }

    inline Json::Value Setup(const Json::Value& user, const Json::Value& tmpl, const refexpr::TEnv* env)
    {
        Json::Value res(Json::arrayValue);
        if (user.isMember("setup")) {
            for (const auto& i: user["setup"]) {
                if (!i.isMember("address")) {
                    throw TRefused{"setup item without address"};
                }
                res.append(i);
            }
        }
        EachParam(tmpl, [&](const std::string& id, const Json::Value& p) {
            if (user.isMember(id) && user[id].isNumeric() && !(p.isMember("readonly") && p["readonly"].asBool()) &&
                (!env || True(p, *env)))
            {
                Json::Value i(p);
                i["value"] = user[id];
                res.append(i);
            }
        });
        if (tmpl.isMember("setup")) {
            for (const auto& i: tmpl["setup"]) {
                if (!env || True(i, *env)) {
                    res.append(i);
                }
            }
        }
        return res;
    }

    inline Json::Value Channels(const Json::Value& user, const Json::Value& own, const Json::Value& root, int depth = 0);

    inline Json::Value Override(Json::Value ch, const Json::Value& u)
    {
        if (IsSub(ch)) {
            if (!u.isMember("device_type")) {
                throw TRefused{"no device_type"};
            }
            bool ok = false;
            if (ch.isMember("oneOf")) {
                for (const auto& t: ch["oneOf"]) {
                    ok = ok || t == u["device_type"];
                }
            } else {
                ok = ch["device_type"] == u["device_type"];
            }
            if (!ok) {
                throw TRefused{"other device_type"};
            }
            for (const auto& k: u.getMemberNames()) {
                if (k != "id" && k != "oneOf" && k != "name") {
                    ch[k] = u[k];
                }
            }
            return ch;
        }
        if (u.isMember("device_type")) {
            throw TRefused{"device_type of a simple channel"};
        }
        for (const auto& k: u.getMemberNames()) {
            if (Fixed().count(k)) {
                continue;
            }
            if (k == "readonly" && ch.isMember(k) && ch[k].asString() == "true" && u[k].asString() != "true") {
                continue;
            }
            ch[k] = u[k];
        }
        return ch;
    }

    inline Json::Value Expand(const Json::Value& ch, const Json::Value& root, int depth)
    {
        if (!ch.isMember("device_type")) {
            return ch;
        }
        auto sub = Subdevice(root, ch["device_type"].asString());
        if (!sub) {
            throw TRefused{"unknown subdevice"};
        }
        if (depth > 12) {
            throw std::runtime_error("subdevices are nested too deep for the model");
        }
        Json::Value res(*sub);
        for (auto k: {"device_type", "name", "shift", "stride", "id"}) {
            if (ch.isMember(k)) {
                res[k] = ch[k];
            }
        }
        res.removeMember("parameters");
        res.removeMember("setup");
        auto s = Setup(ch, *sub, nullptr);
        if (!s.empty()) {
            res["setup"] = s;
        }
        res["channels"] = Channels(ch, sub->isMember("channels") ? (*sub)["channels"] : Json::Value(Json::arrayValue), root, depth + 1);
        return res;
    }

    inline Json::Value Channels(const Json::Value& user, const Json::Value& own, const Json::Value& root, int depth)
    {
        Json::Value list(Json::arrayValue), extra(Json::arrayValue);
        static const Json::Value none(Json::arrayValue);
        const auto& mine = user.isMember("channels") ? user["channels"] : none;
        std::set<std::string> names;
        for (auto c: own) {
            names.insert(c["name"].asString());
            for (const auto& u: mine) {
                if (u["name"] == c["name"]) {
                    c = Override(c, u);
                }
            }
            list.append(c);
        }
        for (const auto& u: mine) {
            if (!names.count(u["name"].asString())) {
                if (u.isMember("device_type")) {
                    throw TRefused{"device_type of an extra channel"};
                }
                list.append(u);
            }
        }
        Json::Value res(Json::arrayValue);
        for (const auto& c: list) {
            res.append(Expand(c, root, depth));
        }
        return res;
    }

    inline TMerged Merge(const Json::Value& user, const Json::Value& tmpl)
    {
        TMerged m;
        std::set<std::string> params;
        EachParam(tmpl, [&](const std::string& id, const Json::Value&) { params.insert(id); });
        for (const auto& k: tmpl.getMemberNames()) {
            m.Props[k] = tmpl[k];
        }
        auto slave = user.isMember("slave_id") ? user["slave_id"].asString() : "";
        if (tmpl.isMember("id")) {
            m.Props["id"] = tmpl["id"].asString() + (slave.empty() ? "" : "_" + slave);
        }
        for (const auto& k: user.getMemberNames()) {
            if (k != "protocol") {
                m.Props[k] = user[k];
            }
        }
        if (!user.isMember("name")) {
            m.Props["name"] = tmpl["name"].asString() + (slave.empty() ? "" : " " + slave);
        }
        for (auto k: {"channels", "setup", "parameters", "subdevices"}) {
            m.Props.removeMember(k);
        }
        for (const auto& p: params) {
            m.Props.removeMember(p);
        }
        auto env = Env(user, tmpl);
        m.Setup = Setup(user, tmpl, &env);
        static const Json::Value none(Json::arrayValue);
        for (const auto& c: Channels(user, tmpl.isMember("channels") ? tmpl["channels"] : none, tmpl)) {
            // the condition of a subdevice does not survive the expansion: not judged, not generated
            if (True(c, env)) {
                m.Channels.append(c);
            }
        }
        return m;
    }

    // ---- what a merged configuration describes

    inline std::string Num(double d)
    {
        std::ostringstream s;
        s.precision(12);
        s << d;
        return s.str();
    }

    struct TAddr
    {
        uint32_t Address = 0, Offset = 0, Width = 0;
    };

    inline TAddr Addr(const Json::Value& v)
    {
        TAddr a;
        if (!v.isString()) {
            a.Address = uint32_t(v.asUInt64());
            return a;
        }
        auto s = v.asString();
        std::vector<std::string> p;
        size_t b = 0;
        for (size_t i = 0; i <= s.size(); ++i) {
            if (i == s.size() || s[i] == ':') {
                p.push_back(s.substr(b, i - b));
                b = i + 1;
            }
        }
        auto num = [](const std::string& t) { return uint32_t(strtoull(t.c_str(), nullptr, 0)); };
        a.Address = num(p[0]);
        a.Offset = p.size() > 1 ? uint32_t(strtoull(p[1].c_str(), nullptr, 10)) : 0;
        a.Width = p.size() > 2 ? uint32_t(strtoull(p[2].c_str(), nullptr, 10)) : 0;
        return a;
    }

    inline bool Has(const Json::Value& v, const char* k)
    {
        return v.isMember(k) && !(v[k].isString() && v[k].asString().empty());
    }

    struct TProto
    {
        PProtocol Protocol = nullptr;
        bool NumberAddresses = true; // judged: plain 32-bit addresses
        unsigned BytesPerAddress = 1;
    };

    struct TPlace
    {
        uint32_t Base = 0, Stride = 0;
        std::string Mqtt, Full;
        std::map<std::string, std::string> Titles; // language -> translated prefix
    };

    struct TRegText
    {
        std::string Text, Read; // Read: where and what is read
        std::string Control; // default type of the control
        std::string Key, Place; // what two setup items of the same register have in common; where it is written
        bool WriteOnly = false, ReadOnly = false;
    };

    inline unsigned FormatBytes(const std::string& f)
    {
        static const std::map<std::string, unsigned> m{
            {"u8", 1},  {"s8", 1},  {"u16", 2},  {"s16", 2},   {"s24", 3},   {"u24", 3},   {"u32", 4},   {"s32", 4},   {"s64", 8},
            {"u64", 8}, {"bcd8", 1}, {"bcd16", 2}, {"bcd24", 3}, {"bcd32", 4}, {"float", 4}, {"double", 8}, {"char8", 1}, {"string", 1}, {"string8", 1}};
        auto i = m.find(f);
        return i == m.end() ? 2 : i->second;
    }

    inline std::string FormatText(RegisterFormat f)
    {
        static const char* names[] = {"u8",  "s8",  "u16",  "s16",   "s24",   "u24",   "u32",   "s32",    "s64",   "u64",
                                      "bcd8", "bcd16", "bcd24", "bcd32", "float", "double", "char8", "string", "string8"};
        return names[int(f)];
    }

    // throws TRefused when no register can be made
    inline TRegText Reg(const Json::Value& j, const TProto& proto, const TPlace& at)
    {
        TRegText res;
        auto types = proto.Protocol->GetRegTypes();
        TRegisterType type;
        if (j.isMember("reg_type")) {
            try {
                type = types->Find(j["reg_type"].asString());
            } catch (...) {
                throw TRefused{"unknown register type"};
            }
        } else {
            type = types->GetDefaultType();
        }
        res.Control = type.DefaultControlType.empty() ? "text" : type.DefaultControlType;
        auto format = FormatText(type.DefaultFormat);
        if (j.isMember("format")) {
            format = j["format"].asString();
            static const std::set<std::string> known{"u8", "s8", "s16", "s24", "u24", "u32", "s32", "s64", "u64", "bcd8", "bcd16",
                                                     "bcd24", "bcd32", "float", "double", "char8", "string", "string8"};
            if (!known.count(format)) {
                format = "u16";
            }
        }
        std::ostringstream s;
        s << type.Name << " " << format;
        auto le = [&](const char* k, bool def) {
            return j.isMember(k) ? j[k].asString() == "little_endian" : def;
        };
        s << (le("word_order", type.DefaultWordOrder == EWordOrder::LittleEndian) ? " wLE" : "");
        s << (le("byte_order", type.DefaultByteOrder == EByteOrder::LittleEndian) ? " bLE" : "");
        s << " scale " << Num(j.isMember("scale") ? j["scale"].asDouble() : 1) << " offset "
          << Num(j.isMember("offset") ? j["offset"].asDouble() : 0) << " round "
          << Num(j.isMember("round_to") ? j["round_to"].asDouble() : 0);
        bool ro = type.ReadOnly || (j.isMember("readonly") && j["readonly"].isBool() && j["readonly"].asBool());
        bool hasAddr = Has(j, "address"), hasWrite = Has(j, "write_address");
        if (!hasAddr && !hasWrite) {
            throw TRefused{"no address"};
        }
        res.WriteOnly = !hasAddr;
        if (ro && res.WriteOnly) {
            throw TRefused{"read-only register without read address"};
        }
        res.ReadOnly = ro;
        if (proto.NumberAddresses) {
            uint32_t stride = (at.Stride * FormatBytes(format) + proto.BytesPerAddress - 1) / proto.BytesPerAddress;
            TAddr a, w;
            if (hasAddr) {
                a = Addr(j["address"]);
                res.Read = " at " + std::to_string(uint32_t(at.Base + a.Address + stride));
            }
            if (j.isMember("string_data_size")) {
                a.Width = j["string_data_size"].asUInt() * 8;
            }
            if (hasWrite) {
                w = Addr(j["write_address"]);
            } else {
                w = a;
            }
            s << " write " << uint32_t(at.Base + w.Address + stride);
            res.Place = type.Name + "/" + std::to_string(uint32_t(at.Base + w.Address + stride)) + "/" + std::to_string(a.Offset);
            res.Key = type.Name + "/" + std::to_string(uint32_t(at.Base + (hasAddr ? a : w).Address + stride)) + "/" +
                      std::to_string(a.Offset) + "/" + std::to_string(a.Width);
            if (format == "string" || format == "string8") {
                if (!a.Width || !hasAddr) {
                    throw TRefused{"string without size"};
                }
                s << " size " << a.Width / 8;
            } else {
                if (hasAddr) {
                    if (a.Offset >= FormatBytes(format) * 8) {
                        throw TRefused{"bit offset"};
                    }
                    res.Read += " bit " + std::to_string(a.Offset) + " width " + std::to_string(a.Width ? a.Width : FormatBytes(format) * 8);
                }
            }
        }
        auto text = [&](const char* k) {
            if (j.isMember(k)) {
                uint64_t v = j[k].isString() ? strtoull(j[k].asString().c_str(), nullptr, 0) : j[k].asUInt64();
                s << " " << k << " " << v;
            }
        };
        text("error_value");
        text("unsupported_value");
        if (j.isMember("semi-sporadic") && j["semi-sporadic"].asBool()) {
            s << " events and polling";
        } else if (j.isMember("sporadic") && j["sporadic"].asBool()) {
            s << " events";
        }
        res.Text = s.str();
        return res;
    }

    inline std::string RegText(const TRegisterConfig& c, const TProto& proto)
    {
        std::ostringstream s;
        s << c.TypeName << " " << FormatText(c.Format) << (c.WordOrder == EWordOrder::LittleEndian ? " wLE" : "")
          << (c.ByteOrder == EByteOrder::LittleEndian ? " bLE" : "") << " scale " << Num(c.Scale) << " offset " << Num(c.Offset)
          << " round " << Num(c.RoundTo);
        if (proto.NumberAddresses) {
            s << " write " << c.GetWriteAddress();
            if (c.IsString()) {
                s << " size " << c.GetDataWidth() / 8;
            }
        }
        auto text = [&](const char* k, const std::optional<TRegisterValue>& v) {
            if (v) {
                s << " " << k << " " << v->Get<uint64_t>();
            }
        };
        text("error_value", c.ErrorValue);
        text("unsupported_value", c.UnsupportedValue);
        if (c.SporadicMode == TRegisterConfig::TSporadicMode::ONLY_EVENTS) {
            s << " events";
        } else if (c.SporadicMode == TRegisterConfig::TSporadicMode::EVENTS_AND_POLLING) {
            s << " events and polling";
        }
        if (proto.NumberAddresses && c.AccessType != TRegisterConfig::EAccessType::WRITE_ONLY) {
            s << " at " << c.GetAddress();
            if (!c.IsString()) {
                s << " bit " << c.GetDataOffset() << " width " << c.GetDataWidth();
            }
        }
        return s.str();
    }

    inline std::string Access(TRegisterConfig::EAccessType a)
    {
        return a == TRegisterConfig::EAccessType::READ_ONLY    ? "r"
               : a == TRegisterConfig::EAccessType::WRITE_ONLY ? "w"
                                                               : "rw";
    }

    struct TDeviceText
    {
        std::vector<std::string> Channels, Ignored;
        std::vector<std::pair<std::string, std::string>> Setup; // register, "title = value", in order, the first of a register only
        std::map<std::string, std::string> SetupKeys, SetupPlaces;
        uint64_t Replaced = 0;
        bool Unclear = false; // overlapping setup items of the same place
    };

    inline std::map<std::string, std::string> Titles(const std::string& name, bool hasId, const Json::Value& translations,
                                                     const TPlace& at)
    {
        std::map<std::string, std::string> res;
        auto prefix = [&](const std::string& lang) -> const std::string* {
            auto i = at.Titles.find(lang);
            if (i == at.Titles.end() && lang != "en") {
                i = at.Titles.find("en");
            }
            return i == at.Titles.end() ? nullptr : &i->second;
        };
        if (translations.isObject()) {
            for (const auto& lang: translations.getMemberNames()) {
                if (translations[lang].isMember(name)) {
                    auto p = prefix(lang);
                    auto& mq = at.Mqtt;
                    res[lang] = (p ? *p + " " : mq.empty() ? "" : mq + " ") + translations[lang][name].asString();
                }
            }
        }
        for (const auto& p: at.Titles) {
            res.emplace(p.first, p.second + " " + name);
        }
        if (hasId) {
            res.emplace("en", (at.Mqtt.empty() ? "" : at.Mqtt + " ") + name);
        }
        return res;
    }

    inline std::string SetupValue(const Json::Value& v)
    {
        if (v.type() == Json::realValue) {
            return Num(v.asDouble());
        }
        return v.asString();
    }

    inline void Load(const Json::Value& channels, const Json::Value& setup, const TProto& proto, const Json::Value& translations,
                     const TPlace& at, std::optional<long> rate, TDeviceText& out)
    {
        for (const auto& i: setup) {
            auto title = i.isMember("title") ? i["title"].asString() : "<unnamed>";
            auto reg = Reg(i, proto, at);
            if (!proto.NumberAddresses) {
                out.Unclear = true;
                continue;
            }
            if (!out.SetupKeys.emplace(reg.Key, title).second) {
                ++out.Replaced;
            } else {
                out.Unclear = !out.SetupPlaces.emplace(reg.Place, title).second || out.Unclear;
                out.Setup.push_back({reg.Text + reg.Read, (at.Full.empty() ? "" : at.Full + " ") + title + " = " + SetupValue(i["value"])});
            }
        }
        for (const auto& c: channels) {
            auto flag = [&](const char* k, bool def) { return c.isMember(k) ? c[k].asBool() : def; };
            if (!flag("enabled", true) && !flag("hidden", false)) {
                continue;
            }
            auto name = c["name"].asString();
            bool hasId = c.isMember("id");
            auto id = hasId ? c["id"].asString() : name;
            auto join = [](const std::string& a, const std::string& b) { return a.empty() ? b : b.empty() ? a : a + " " + b; };
            if (c.isMember("device_type")) {
                TPlace p;
                if (c.isMember("shift")) {
                    p.Base = c["shift"].isString() ? uint32_t(strtoull(c["shift"].asString().c_str(), nullptr, 0)) : c["shift"].asUInt();
                }
                p.Base += at.Base;
                p.Stride = c.isMember("stride") ? c["stride"].asUInt() : 0;
                p.Full = join(at.Full, name);
                p.Mqtt = join(at.Mqtt, id);
                if (!(hasId && id.empty())) {
                    p.Titles = Titles(name, hasId, translations, at);
                }
                static const Json::Value none(Json::arrayValue);
                Load(c.isMember("channels") ? c["channels"] : none, c.isMember("setup") ? c["setup"] : none, proto, translations, p,
                     rate, out);
                continue;
            }
            std::ostringstream s;
            auto mqtt = at.Mqtt.empty() ? id : at.Mqtt + " " + id;
            s << "\"" << mqtt << "\"";
            std::vector<TRegText> regs;
            try {
                if (c.isMember("consists_of")) {
                    for (const auto& r: c["consists_of"]) {
                        regs.push_back(Reg(r, proto, at));
                    }
                } else {
                    regs.push_back(Reg(c, proto, at));
                }
            } catch (const TRefused& e) {
                if (c.isMember("consists_of")) {
                    throw;
                }
                out.Ignored.push_back(mqtt + ": " + e.Why);
                continue;
            }
            auto type = c.isMember("type") ? c["type"].asString() : regs.at(0).Control;
            bool wo = type == "wo-switch" || type == "pushbutton";
            if (type == "wo-switch") {
                type = "switch";
            }
            auto access = [&](const TRegText& r) { return wo || r.WriteOnly ? "w" : r.ReadOnly ? "r" : "rw"; };
            s << " " << type << (access(regs[0]) == std::string("r") ? " readonly" : "");
            auto num = [&](const char* k) {
                if (c.isMember(k)) {
                    s << " " << k << " " << Num(c[k].isString() ? double(int(strtoull(c[k].asString().c_str(), nullptr, 0))) : c[k].asDouble());
                }
            };
            num("max");
            num("min");
            for (auto k: {"on_value", "off_value"}) {
                if (c.isMember(k)) {
                    s << " " << k << " " << (c[k].isString() ? std::to_string(strtoll(c[k].asString().c_str(), nullptr, 0)) : std::to_string(c[k].asInt64()));
                }
            }
            if (c.isMember("units") && !c["units"].asString().empty()) {
                s << " [" << c["units"].asString() << "]";
            }
            if (flag("hidden", false)) {
                s << " hidden";
            }
            if (c.isMember("fw") && !c.isMember("consists_of")) {
                s << " fw " << c["fw"].asString();
            }
            for (const auto& t: Titles(name, hasId, translations, at)) {
                s << " " << t.first << ":" << t.second;
            }
            auto rr = rate;
            std::optional<long> period;
            if (c.isMember("read_rate_limit_ms") && c["read_rate_limit_ms"].asInt() >= 0) {
                rr = c["read_rate_limit_ms"].asInt();
            }
            if (c.isMember("read_period_ms") && c["read_period_ms"].asInt() >= 0) {
                period = c["read_period_ms"].asInt();
            }
            for (auto& r: regs) {
                s << " {" << r.Text << (access(r) == std::string("w") ? "" : r.Read) << " " << access(r) << (rr ? " limit " + std::to_string(*rr) : "")
                  << (period ? " period " + std::to_string(*period) : "") << "}";
            }
            if (c.isMember("enum")) {
                const auto& en = c["enum"];
                bool titles = c.isMember("enum_titles");
                if (!titles || c["enum_titles"].size() == en.size()) {
                    std::map<std::string, std::string> m;
                    for (Json::ArrayIndex i = 0; i < en.size(); ++i) {
                        std::string t;
                        if (titles) {
                            for (auto& x: Titles(c["enum_titles"][i].asString(), true, translations, at)) {
                                t += " " + x.first + ":" + x.second;
                            }
                        }
                        m[en[i].asString()] = t;
                    }
                    for (auto& x: m) {
                        s << " <" << x.first << x.second << ">";
                    }
                }
            }
            out.Channels.push_back(s.str());
        }
    }

    inline TDeviceText Describe(const TSerialDeviceWithChannels& d, const TProto& proto)
    {
        TDeviceText res;
        for (auto& c: d.Channels) {
            std::ostringstream s;
            s << "\"" << c->MqttId << "\" " << c->Type << (c->ReadOnly ? " readonly" : "");
            if (!std::isnan(c->Max)) {
                s << " max " << Num(c->Max);
            }
            if (!std::isnan(c->Min)) {
                s << " min " << Num(c->Min);
            }
            if (!c->OnValue.empty()) {
                s << " on_value " << c->OnValue;
            }
            if (!c->OffValue.empty()) {
                s << " off_value " << c->OffValue;
            }
            if (!c->Units.empty()) {
                s << " [" << c->Units << "]";
            }
            if (c->Hidden) {
                s << " hidden";
            }
            if (!c->Registers.at(0)->GetConfig()->FwVersion.empty()) {
                s << " fw " << c->Registers[0]->GetConfig()->FwVersion;
            }
            std::map<std::string, std::string> titles(c->GetTitles().begin(), c->GetTitles().end());
            for (const auto& t: titles) {
                s << " " << t.first << ":" << t.second;
            }
            for (auto& r: c->Registers) {
                auto& cfg = *r->GetConfig();
                s << " {" << RegText(cfg, proto) << " " << Access(cfg.AccessType)
                  << (cfg.ReadRateLimit ? " limit " + std::to_string(cfg.ReadRateLimit->count()) : "")
                  << (cfg.ReadPeriod ? " period " + std::to_string(cfg.ReadPeriod->count()) : "") << "}";
            }
            for (auto& e: c->GetEnumTitles()) {
                s << " <" << e.first;
                std::map<std::string, std::string> t(e.second.begin(), e.second.end());
                for (auto& x: t) {
                    s << " " << x.first << ":" << x.second;
                }
                s << ">";
            }
            res.Channels.push_back(s.str());
        }
        for (auto& i: d.Device->GetSetupItems()) {
            auto v = i->HumanReadableValue;
            char* end = nullptr;
            double x = strtod(v.c_str(), &end);
            if (end && !*end && !v.empty() && v.find_first_of(".eE") != std::string::npos && v.find('x') == std::string::npos) {
                v = Num(x);
            }
            res.Setup.push_back({RegText(*i->RegisterConfig, proto), i->Name + " = " + v});
        }
        return res;
    }

    // in the order they are defined, when the device keeps it; else judged as a set
    inline std::vector<std::string> SetupLines(const TDeviceText& t, bool ordered)
    {
        std::vector<std::string> res;
        for (auto& p: t.Setup) {
            res.push_back(p.second + " {" + p.first + "}");
        }
        if (!ordered) {
            std::sort(res.begin(), res.end());
        }
        return res;
    }
}
