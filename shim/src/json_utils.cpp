// WBMQTT::JSON of the stand-in for libwbmqtt1, with a JSON schema validator (drafts 4 to 7, local $ref only)
#include "wblib/shim_core.h"

#include <cmath>
#include <fstream>
#include <regex>

namespace WBMQTT::JSON
{
    Json::Value ParseWithSettings(const std::string& fname, const Json::Value& settings)
    {
        std::ifstream f(fname);
        if (!f.is_open()) {
            throw std::runtime_error("Can't open file: " + fname);
        }
        Json::CharReaderBuilder b;
        for (const auto& k: settings.getMemberNames()) {
            b[k] = settings[k];
        }
        Json::Value root;
        std::string errs;
        if (!Json::parseFromStream(b, f, &root, &errs)) {
            throw std::runtime_error("Failed to parse JSON '" + fname + "': " + errs);
        }
        return root;
    }

    Json::Value Parse(const std::string& fname)
    {
        return ParseWithSettings(fname, Json::Value(Json::objectValue));
    }

    namespace
    {
        struct TCheck
        {
            const Json::Value& Root;
            std::map<std::string, std::regex> Patterns;
            int Depth = 0;
            std::string Err;

            bool Fail(const std::string& where, const std::string& what)
            {
                if (Err.empty()) {
                    Err = where + ": " + what;
                }
                return false;
            }

            const Json::Value* Resolve(const std::string& ref)
            {
                if (ref.empty() || ref[0] != '#') {
                    throw std::runtime_error("unsupported $ref " + ref);
                }
                const Json::Value* v = &Root;
                for (auto& p: StringSplit(ref.substr(1), "/")) {
                    if (p.empty()) {
                        continue;
                    }
                    std::string key;
                    for (size_t i = 0; i < p.size(); ++i) {
                        if (p[i] == '~' && i + 1 < p.size()) {
                            key += p[i + 1] == '1' ? '/' : '~';
                            ++i;
                        } else {
                            key += p[i];
                        }
                    }
                    if (!v->isObject() || !v->isMember(key)) {
                        throw std::runtime_error("unresolved $ref " + ref);
                    }
                    v = &(*v)[key];
                }
                return v;
            }

            static bool Equal(const Json::Value& a, const Json::Value& b)
            {
                if (a.isNumeric() && b.isNumeric()) {
                    return a.asDouble() == b.asDouble();
                }
                return a == b;
            }

            static bool IsType(const Json::Value& v, const std::string& t)
            {
                if (t == "object") {
                    return v.isObject() && !v.isNull();
                }
                if (t == "array") {
                    return v.isArray() && !v.isNull();
                }
                if (t == "string") {
                    return v.isString();
                }
                if (t == "boolean") {
                    return v.isBool();
                }
                if (t == "null") {
                    return v.isNull();
                }
                if (t == "number") {
                    return v.isNumeric() && !v.isBool();
                }
                if (t == "integer") {
                    return !v.isBool() && (v.type() == Json::intValue || v.type() == Json::uintValue);
                }
                return true;
            }

            bool Quiet(const Json::Value& v, const Json::Value& s, const std::string& where)
            {
                auto saved = Err;
                bool r = Run(v, s, where);
                Err = saved;
                return r;
            }

            bool Run(const Json::Value& v, const Json::Value& s, const std::string& where)
            {
                if (s.isBool()) {
                    return s.asBool() || Fail(where, "not allowed");
                }
                if (!s.isObject()) {
                    return true;
                }
                if (s.isMember("$ref")) {
                    if (++Depth > 200) {
                        throw std::runtime_error("schema recursion");
                    }
                    bool r = Run(v, *Resolve(s["$ref"].asString()), where);
                    --Depth;
                    return r;
                }
                if (s.isMember("type")) {
                    const auto& t = s["type"];
                    bool ok = false;
                    if (t.isString()) {
                        ok = IsType(v, t.asString());
                    } else {
                        for (const auto& x: t) {
                            ok = ok || IsType(v, x.asString());
                        }
                    }
                    if (!ok) {
                        return Fail(where, "wrong type");
                    }
                }
                if (s.isMember("const") && !Equal(v, s["const"])) {
                    return Fail(where, "not the constant");
                }
                if (s.isMember("enum")) {
                    bool ok = false;
                    for (const auto& x: s["enum"]) {
                        ok = ok || Equal(v, x);
                    }
                    if (!ok) {
                        return Fail(where, "not in enum");
                    }
                }
                if (v.isNumeric() && !v.isBool()) {
                    double d = v.asDouble();
                    if (s.isMember("minimum")) {
                        double m = s["minimum"].asDouble();
                        bool ex = s.isMember("exclusiveMinimum") && s["exclusiveMinimum"].isBool() &&
                                  s["exclusiveMinimum"].asBool();
                        if (ex ? d <= m : d < m) {
                            return Fail(where, "less than minimum");
                        }
                    }
                    if (s.isMember("exclusiveMinimum") && !s["exclusiveMinimum"].isBool() &&
                        d <= s["exclusiveMinimum"].asDouble())
                    {
                        return Fail(where, "less than minimum");
                    }
                    if (s.isMember("maximum")) {
                        double m = s["maximum"].asDouble();
                        bool ex = s.isMember("exclusiveMaximum") && s["exclusiveMaximum"].isBool() &&
                                  s["exclusiveMaximum"].asBool();
                        if (ex ? d >= m : d > m) {
                            return Fail(where, "more than maximum");
                        }
                    }
                    if (s.isMember("exclusiveMaximum") && !s["exclusiveMaximum"].isBool() &&
                        d >= s["exclusiveMaximum"].asDouble())
                    {
                        return Fail(where, "more than maximum");
                    }
                    if (s.isMember("multipleOf")) {
                        double q = d / s["multipleOf"].asDouble();
                        if (std::fabs(q - std::round(q)) > 1e-9) {
                            return Fail(where, "not a multiple");
                        }
                    }
                }
                if (v.isString()) {
                    auto str = v.asString();
                    size_t len = 0;
                    for (unsigned char c: str) {
                        len += (c & 0xC0) != 0x80;
                    }
                    if (s.isMember("minLength") && len < s["minLength"].asUInt64()) {
                        return Fail(where, "too short");
                    }
                    if (s.isMember("maxLength") && len > s["maxLength"].asUInt64()) {
                        return Fail(where, "too long");
                    }
                    if (s.isMember("pattern")) {
                        auto p = s["pattern"].asString();
                        auto it = Patterns.find(p);
                        if (it == Patterns.end()) {
                            it = Patterns.emplace(p, std::regex(p, std::regex::ECMAScript)).first;
                        }
                        if (str.size() > 2000 || !std::regex_search(str, it->second)) {
                            return Fail(where, "pattern mismatch");
                        }
                    }
                }
                if (v.isArray() && !v.isNull()) {
                    if (s.isMember("minItems") && v.size() < s["minItems"].asUInt64()) {
                        return Fail(where, "too few items");
                    }
                    if (s.isMember("maxItems") && v.size() > s["maxItems"].asUInt64()) {
                        return Fail(where, "too many items");
                    }
                    if (s.isMember("uniqueItems") && s["uniqueItems"].asBool()) {
                        for (Json::ArrayIndex i = 0; i < v.size(); ++i) {
                            for (Json::ArrayIndex j = 0; j < i; ++j) {
                                if (Equal(v[i], v[j])) {
                                    return Fail(where, "items are not unique");
                                }
                            }
                        }
                    }
                    if (s.isMember("items")) {
                        const auto& it = s["items"];
                        for (Json::ArrayIndex i = 0; i < v.size(); ++i) {
                            auto w = where + "[" + std::to_string(i) + "]";
                            if (it.isArray()) {
                                if (i < it.size()) {
                                    if (!Run(v[i], it[i], w)) {
                                        return false;
                                    }
                                } else if (s.isMember("additionalItems") && !Run(v[i], s["additionalItems"], w)) {
                                    return false;
                                }
                            } else if (!Run(v[i], it, w)) {
                                return false;
                            }
                        }
                    }
                }
                if (v.isObject() && !v.isNull()) {
                    if (s.isMember("required") && s["required"].isArray()) {
                        for (const auto& r: s["required"]) {
                            if (!v.isMember(r.asString())) {
                                return Fail(where, "no required '" + r.asString() + "'");
                            }
                        }
                    }
                    if (s.isMember("minProperties") && v.size() < s["minProperties"].asUInt64()) {
                        return Fail(where, "too few properties");
                    }
                    if (s.isMember("maxProperties") && v.size() > s["maxProperties"].asUInt64()) {
                        return Fail(where, "too many properties");
                    }
                    for (const auto& name: v.getMemberNames()) {
                        auto w = where + "." + name;
                        bool known = false;
                        if (s.isMember("properties") && s["properties"].isMember(name)) {
                            known = true;
                            if (!Run(v[name], s["properties"][name], w)) {
                                return false;
                            }
                        }
                        if (s.isMember("propertyNames") && !Run(Json::Value(name), s["propertyNames"], w)) {
                            return false;
                        }
                        if (s.isMember("patternProperties")) {
                            for (const auto& p: s["patternProperties"].getMemberNames()) {
                                auto it = Patterns.find(p);
                                if (it == Patterns.end()) {
                                    it = Patterns.emplace(p, std::regex(p, std::regex::ECMAScript)).first;
                                }
                                if (std::regex_search(name, it->second)) {
                                    known = true;
                                    if (!Run(v[name], s["patternProperties"][p], w)) {
                                        return false;
                                    }
                                }
                            }
                        }
                        if (!known && s.isMember("additionalProperties") &&
                            !Run(v[name], s["additionalProperties"], w))
                        {
                            return false;
                        }
                    }
                    if (s.isMember("dependencies")) {
                        for (const auto& d: s["dependencies"].getMemberNames()) {
                            if (!v.isMember(d)) {
                                continue;
                            }
                            const auto& dep = s["dependencies"][d];
                            if (dep.isArray()) {
                                for (const auto& x: dep) {
                                    if (!v.isMember(x.asString())) {
                                        return Fail(where, "dependency of " + d);
                                    }
                                }
                            } else if (!Run(v, dep, where)) {
                                return false;
                            }
                        }
                    }
                }
                if (s.isMember("allOf")) {
                    for (const auto& x: s["allOf"]) {
                        if (!Run(v, x, where)) {
                            return false;
                        }
                    }
                }
                if (s.isMember("anyOf")) {
                    bool ok = false;
                    for (const auto& x: s["anyOf"]) {
                        if (Quiet(v, x, where)) {
                            ok = true;
                            break;
                        }
                    }
                    if (!ok) {
                        return Fail(where, "anyOf");
                    }
                }
                if (s.isMember("oneOf")) {
                    int n = 0;
                    for (const auto& x: s["oneOf"]) {
                        n += Quiet(v, x, where);
                    }
                    if (n != 1) {
                        return Fail(where, "oneOf matched " + std::to_string(n));
                    }
                }
                if (s.isMember("not") && Quiet(v, s["not"], where)) {
                    return Fail(where, "not");
                }
                if (s.isMember("if")) {
                    bool c = Quiet(v, s["if"], where);
                    if (c && s.isMember("then") && !Run(v, s["then"], where)) {
                        return false;
                    }
                    if (!c && s.isMember("else") && !Run(v, s["else"], where)) {
                        return false;
                    }
                }
                return true;
            }
        };
    }

    void Validate(const Json::Value& root, const Json::Value& schema)
    {
        TCheck c{schema};
        if (!c.Run(root, schema, "<root>")) {
            throw std::runtime_error("Validation failed.\n" + c.Err);
        }
    }

    TValidator::TValidator(const Json::Value& schema): Schema(new Json::Value(schema))
    {}
    TValidator::~TValidator() = default;
    void TValidator::Validate(const Json::Value& root) const
    {
        JSON::Validate(root, *Schema);
    }
}
