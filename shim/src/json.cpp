#include <wblib/json/json.h>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>

namespace Json
{
    namespace
    {
        [[noreturn]] void fail(const std::string& m)
        {
            throw LogicError(m);
        }

        bool isIntegralD(double d)
        {
            double ip;
            return std::modf(d, &ip) == 0.0;
        }

        std::string fmtDouble(double v, int precision)
        {
            if (!std::isfinite(v)) {
                return std::isnan(v) ? "null" : (v < 0 ? "-1e+9999" : "1e+9999");
            }
            char buf[64];
            snprintf(buf, sizeof(buf), "%.*g", precision, v);
            std::string s(buf);
            if (s.find_first_of(".eE") == std::string::npos) {
                s += ".0";
            }
            return s;
        }

        void appendUtf8(std::string& out, unsigned cp)
        {
            if (cp <= 0x7f) {
                out += char(cp);
            } else if (cp <= 0x7ff) {
                out += char(0xC0 | (cp >> 6));
                out += char(0x80 | (cp & 0x3f));
            } else if (cp <= 0xffff) {
                out += char(0xE0 | (cp >> 12));
                out += char(0x80 | ((cp >> 6) & 0x3f));
                out += char(0x80 | (cp & 0x3f));
            } else {
                out += char(0xF0 | (cp >> 18));
                out += char(0x80 | ((cp >> 12) & 0x3f));
                out += char(0x80 | ((cp >> 6) & 0x3f));
                out += char(0x80 | (cp & 0x3f));
            }
        }
    }

    // ------------------------------------------------------------ iterators
    void ValueIteratorBase::inc()
    {
        if (IsObj) {
            auto i = std::next(Owner->O->find(It->first));
            It = i == Owner->O->end() ? nullptr : &*i;
        } else
            ++Pos;
    }
    void ValueIteratorBase::dec()
    {
        if (IsObj) {
            auto i = It ? Owner->O->find(It->first) : Owner->O->end();
            It = &*std::prev(i);
        } else
            --Pos;
    }
    Value* ValueIteratorBase::ptr() const
    {
        if (IsObj)
            return &It->second;
        return &(*Owner->A)[Pos];
    }
    ValueIteratorBase::difference_type ValueIteratorBase::operator-(const ValueIteratorBase& o) const
    {
        if (IsObj) {
            int n = 0;
            for (auto i = o; i != *this; i.inc())
                ++n;
            return n;
        }
        return int(Pos) - int(o.Pos);
    }
    Value ValueIteratorBase::key() const
    {
        if (IsObj)
            return Value(It->first);
        return Value(ArrayIndex(Pos));
    }
    UInt ValueIteratorBase::index() const
    {
        return IsObj ? UInt(-1) : UInt(Pos);
    }
    std::string ValueIteratorBase::name() const
    {
        return IsObj ? It->first : std::string();
    }
    const char* ValueIteratorBase::memberName() const
    {
        return IsObj ? It->first.c_str() : "";
    }

    // ------------------------------------------------------------ value
    const Value& Value::nullSingleton()
    {
        static const Value v;
        return v;
    }

    Value::Value(ValueType type): Type(type), U(0)
    {
        switch (type) {
            case stringValue:
                S = std::make_unique<std::string>();
                break;
            case arrayValue:
                A = std::make_unique<std::deque<Value>>();
                break;
            case objectValue:
                O = std::make_unique<std::map<std::string, Value>>();
                break;
            case realValue:
                D = 0;
                break;
            default:
                break;
        }
    }
    Value::Value(Int v): Type(intValue), I(v)
    {}
    Value::Value(UInt v): Type(uintValue), U(v)
    {}
    Value::Value(Int64 v): Type(intValue), I(v)
    {}
    Value::Value(UInt64 v): Type(uintValue), U(v)
    {}
    Value::Value(long long v): Type(intValue), I(v)
    {}
    Value::Value(unsigned long long v): Type(uintValue), U(v)
    {}
    Value::Value(double v): Type(realValue), D(v)
    {}
    Value::Value(const char* v): Type(stringValue), U(0), S(std::make_unique<std::string>(v))
    {}
    Value::Value(const char* b, const char* e): Type(stringValue), U(0), S(std::make_unique<std::string>(b, e))
    {}
    Value::Value(const std::string& v): Type(stringValue), U(0), S(std::make_unique<std::string>(v))
    {}
    Value::Value(bool v): Type(booleanValue), U(0)
    {
        B = v;
    }
    Value::Value(const Value& o): Type(o.Type), U(o.U)
    {
        if (o.S)
            S = std::make_unique<std::string>(*o.S);
        if (o.A)
            A = std::make_unique<std::deque<Value>>(*o.A);
        if (o.O)
            O = std::make_unique<std::map<std::string, Value>>(*o.O);
    }
    Value::Value(Value&& o) noexcept
        : Type(o.Type),
          U(o.U),
          S(std::move(o.S)),
          A(std::move(o.A)),
          O(std::move(o.O))
    {
        o.Type = nullValue;
        o.U = 0;
    }
    Value::~Value() = default;
    Value& Value::operator=(const Value& o)
    {
        Value t(o);
        swap(t);
        return *this;
    }
    Value& Value::operator=(Value&& o) noexcept
    {
        if (this != &o) {
            Value t(std::move(o)); // o may live inside *this
            swap(t);
        }
        return *this;
    }
    void Value::swap(Value& o)
    {
        std::swap(Type, o.Type);
        std::swap(U, o.U);
        S.swap(o.S);
        A.swap(o.A);
        O.swap(o.O);
    }

    void Value::need(ValueType t, const char* what)
    {
        if (Type == nullValue) {
            *this = Value(t);
        } else if (Type != t) {
            fail(std::string("in Json::Value::") + what + ": requires " +
                 (t == arrayValue ? "arrayValue" : "objectValue"));
        }
    }

    bool Value::operator<(const Value& o) const
    {
        if (Type != o.Type)
            return Type < o.Type;
        switch (Type) {
            case nullValue:
                return false;
            case intValue:
                return I < o.I;
            case uintValue:
                return U < o.U;
            case realValue:
                return D < o.D;
            case booleanValue:
                return B < o.B;
            case stringValue:
                return *S < *o.S;
            case arrayValue:
                if (A->size() != o.A->size())
                    return A->size() < o.A->size();
                return *A < *o.A;
            case objectValue:
                if (O->size() != o.O->size())
                    return O->size() < o.O->size();
                return *O < *o.O;
        }
        return false;
    }

    bool Value::operator==(const Value& o) const
    {
        if (Type != o.Type)
            return false;
        switch (Type) {
            case nullValue:
                return true;
            case intValue:
                return I == o.I;
            case uintValue:
                return U == o.U;
            case realValue:
                return D == o.D;
            case booleanValue:
                return B == o.B;
            case stringValue:
                return *S == *o.S;
            case arrayValue:
                return *A == *o.A;
            case objectValue:
                return *O == *o.O;
        }
        return false;
    }

    const char* Value::asCString() const
    {
        if (Type != stringValue)
            fail("in Json::Value::asCString(): requires stringValue");
        return S->c_str();
    }

    std::string Value::asString() const
    {
        switch (Type) {
            case nullValue:
                return "";
            case stringValue:
                return *S;
            case booleanValue:
                return B ? "true" : "false";
            case intValue:
                return std::to_string(I);
            case uintValue:
                return std::to_string(U);
            case realValue:
                return fmtDouble(D, 17);
            default:
                fail("Type is not convertible to string");
        }
    }

    Int Value::asInt() const
    {
        switch (Type) {
            case nullValue:
                return 0;
            case intValue:
                if (I < INT32_MIN || I > INT32_MAX)
                    fail("LargestInt out of Int range");
                return Int(I);
            case uintValue:
                if (U > INT32_MAX)
                    fail("LargestUInt out of Int range");
                return Int(U);
            case realValue:
                if (!(D >= INT32_MIN && D <= INT32_MAX))
                    fail("double out of Int range");
                return Int(D);
            case booleanValue:
                return B ? 1 : 0;
            default:
                fail("Value is not convertible to Int.");
        }
    }
    UInt Value::asUInt() const
    {
        switch (Type) {
            case nullValue:
                return 0;
            case intValue:
                if (I < 0 || I > Int64(UINT32_MAX))
                    fail("LargestInt out of UInt range");
                return UInt(I);
            case uintValue:
                if (U > UINT32_MAX)
                    fail("LargestUInt out of UInt range");
                return UInt(U);
            case realValue:
                if (!(D >= 0 && D <= UINT32_MAX))
                    fail("double out of UInt range");
                return UInt(D);
            case booleanValue:
                return B ? 1 : 0;
            default:
                fail("Value is not convertible to UInt.");
        }
    }
    Int64 Value::asInt64() const
    {
        switch (Type) {
            case nullValue:
                return 0;
            case intValue:
                return I;
            case uintValue:
                if (U > UInt64(INT64_MAX))
                    fail("LargestUInt out of Int64 range");
                return Int64(U);
            case realValue:
                if (!(D >= -9223372036854775808.0 && D < 9223372036854775808.0))
                    fail("double out of Int64 range");
                return Int64(D);
            case booleanValue:
                return B ? 1 : 0;
            default:
                fail("Value is not convertible to Int64.");
        }
    }
    UInt64 Value::asUInt64() const
    {
        switch (Type) {
            case nullValue:
                return 0;
            case intValue:
                if (I < 0)
                    fail("LargestInt out of UInt64 range");
                return UInt64(I);
            case uintValue:
                return U;
            case realValue:
                if (!(D >= 0 && D < 18446744073709551616.0))
                    fail("double out of UInt64 range");
                return UInt64(D);
            case booleanValue:
                return B ? 1 : 0;
            default:
                fail("Value is not convertible to UInt64.");
        }
    }
    double Value::asDouble() const
    {
        switch (Type) {
            case nullValue:
                return 0;
            case intValue:
                return double(I);
            case uintValue:
                return double(U);
            case realValue:
                return D;
            case booleanValue:
                return B ? 1.0 : 0.0;
            default:
                fail("Value is not convertible to double.");
        }
    }
    bool Value::asBool() const
    {
        switch (Type) {
            case nullValue:
                return false;
            case booleanValue:
                return B;
            case intValue:
                return I != 0;
            case uintValue:
                return U != 0;
            case realValue: {
                int c = std::fpclassify(D);
                return c != FP_ZERO && c != FP_NAN;
            }
            default:
                fail("Value is not convertible to bool.");
        }
    }

    bool Value::isInt() const
    {
        switch (Type) {
            case intValue:
                return I >= INT32_MIN && I <= INT32_MAX;
            case uintValue:
                return U <= UInt64(INT32_MAX);
            case realValue:
                return D >= INT32_MIN && D <= INT32_MAX && isIntegralD(D);
            default:
                return false;
        }
    }
    bool Value::isUInt() const
    {
        switch (Type) {
            case intValue:
                return I >= 0 && UInt64(I) <= UINT32_MAX;
            case uintValue:
                return U <= UINT32_MAX;
            case realValue:
                return D >= 0 && D <= UINT32_MAX && isIntegralD(D);
            default:
                return false;
        }
    }
    bool Value::isInt64() const
    {
        switch (Type) {
            case intValue:
                return true;
            case uintValue:
                return U <= UInt64(INT64_MAX);
            case realValue:
                return D >= -9223372036854775808.0 && D < 9223372036854775808.0 && isIntegralD(D);
            default:
                return false;
        }
    }
    bool Value::isUInt64() const
    {
        switch (Type) {
            case intValue:
                return I >= 0;
            case uintValue:
                return true;
            case realValue:
                return D >= 0 && D < 18446744073709551616.0 && isIntegralD(D);
            default:
                return false;
        }
    }
    bool Value::isIntegral() const
    {
        switch (Type) {
            case intValue:
            case uintValue:
                return true;
            case realValue:
                return D >= -9223372036854775808.0 && D < 18446744073709551616.0 && isIntegralD(D);
            default:
                return false;
        }
    }
    bool Value::isDouble() const
    {
        return Type == intValue || Type == uintValue || Type == realValue;
    }

    bool Value::isConvertibleTo(ValueType other) const
    {
        switch (other) {
            case nullValue:
                return (isNumeric() && asDouble() == 0.0) || (Type == booleanValue && !B) ||
                       (Type == stringValue && S->empty()) || (Type == arrayValue && A->empty()) ||
                       (Type == objectValue && O->empty()) || Type == nullValue;
            case intValue:
                return isInt() || (Type == realValue && D >= INT32_MIN && D <= INT32_MAX) || Type == booleanValue ||
                       Type == nullValue;
            case uintValue:
                return isUInt() || (Type == realValue && D >= 0 && D <= UINT32_MAX) || Type == booleanValue ||
                       Type == nullValue;
            case realValue:
                return isNumeric() || Type == booleanValue || Type == nullValue;
            case booleanValue:
                return isNumeric() || Type == booleanValue || Type == nullValue;
            case stringValue:
                return isNumeric() || Type == booleanValue || Type == stringValue || Type == nullValue;
            case arrayValue:
                return Type == arrayValue || Type == nullValue;
            case objectValue:
                return Type == objectValue || Type == nullValue;
        }
        return false;
    }

    ArrayIndex Value::size() const
    {
        if (Type == arrayValue)
            return A->size();
        if (Type == objectValue)
            return O->size();
        return 0;
    }
    bool Value::empty() const
    {
        if (isNull() || isArray() || isObject())
            return size() == 0;
        return false;
    }
    void Value::clear()
    {
        if (Type == arrayValue)
            A->clear();
        else if (Type == objectValue)
            O->clear();
        else if (Type != nullValue)
            fail("in Json::Value::clear(): requires complex value");
    }
    void Value::resize(ArrayIndex n)
    {
        need(arrayValue, "resize()");
        A->resize(n);
    }
    Value& Value::operator[](ArrayIndex i)
    {
        need(arrayValue, "operator[](ArrayIndex)");
        if (i >= A->size())
            A->resize(size_t(i) + 1);
        return (*A)[i];
    }
    Value& Value::operator[](int i)
    {
        if (i < 0)
            fail("in Json::Value::operator[](int index): index cannot be negative");
        return (*this)[ArrayIndex(i)];
    }
    const Value& Value::operator[](ArrayIndex i) const
    {
        if (Type == nullValue)
            return nullSingleton();
        if (Type != arrayValue)
            fail("in Json::Value::operator[](ArrayIndex)const: requires arrayValue");
        if (i >= A->size())
            return nullSingleton();
        return (*A)[i];
    }
    const Value& Value::operator[](int i) const
    {
        if (i < 0)
            fail("in Json::Value::operator[](int index) const: index cannot be negative");
        return (*this)[ArrayIndex(i)];
    }
    Value Value::get(ArrayIndex i, const Value& def) const
    {
        return i < size() && Type == arrayValue ? (*A)[i] : def;
    }
    Value& Value::append(const Value& v)
    {
        Value t(v);
        return append(std::move(t));
    }
    Value& Value::append(Value&& v)
    {
        need(arrayValue, "append");
        A->push_back(std::move(v));
        return A->back();
    }
    bool Value::insert(ArrayIndex i, const Value& v)
    {
        need(arrayValue, "insert");
        if (i > A->size())
            return false;
        Value t(v);
        A->insert(A->begin() + i, std::move(t));
        return true;
    }
    Value& Value::operator[](const std::string& key)
    {
        need(objectValue, "resolveReference(): requires objectValue");
        return (*O)[key];
    }
    Value& Value::operator[](const char* key)
    {
        return (*this)[std::string(key)];
    }
    const Value* Value::find(const std::string& key) const
    {
        if (Type == nullValue)
            return nullptr;
        if (Type != objectValue)
            fail("in Json::Value::find(begin, end): requires objectValue or nullValue");
        auto it = O->find(key);
        return it == O->end() ? nullptr : &it->second;
    }
    const Value* Value::find(const char* b, const char* e) const
    {
        return find(std::string(b, e));
    }
    const Value& Value::operator[](const std::string& key) const
    {
        auto p = find(key);
        return p ? *p : nullSingleton();
    }
    const Value& Value::operator[](const char* key) const
    {
        return (*this)[std::string(key)];
    }
    Value Value::get(const std::string& key, const Value& def) const
    {
        auto p = find(key);
        return p ? *p : def;
    }
    Value Value::get(const char* key, const Value& def) const
    {
        return get(std::string(key), def);
    }
    void Value::removeMember(const std::string& key)
    {
        if (Type == nullValue)
            return;
        if (Type != objectValue)
            fail("in Json::Value::removeMember(): requires objectValue");
        O->erase(key);
    }
    bool Value::removeMember(const std::string& key, Value* removed)
    {
        if (Type != objectValue)
            return false;
        auto it = O->find(key);
        if (it == O->end())
            return false;
        if (removed)
            *removed = std::move(it->second);
        O->erase(it);
        return true;
    }
    bool Value::removeIndex(ArrayIndex i, Value* removed)
    {
        if (Type != arrayValue || i >= A->size())
            return false;
        if (removed)
            *removed = (*A)[i];
        A->erase(A->begin() + i);
        return true;
    }
    bool Value::isMember(const std::string& key) const
    {
        return find(key) != nullptr;
    }
    Value::Members Value::getMemberNames() const
    {
        Members res;
        if (Type == nullValue)
            return res;
        if (Type != objectValue)
            fail("in Json::Value::getMemberNames(), value must be objectValue");
        for (auto& kv: *O)
            res.push_back(kv.first);
        return res;
    }
    const Value& Value::front() const
    {
        return *begin();
    }
    const Value& Value::back() const
    {
        return (*this)[size() - 1];
    }
    Value& Value::front()
    {
        return *begin();
    }
    Value& Value::back()
    {
        return (*this)[size() - 1];
    }

    ValueIterator Value::begin()
    {
        ValueIterator r;
        if (Type == arrayValue) {
            r.Owner = this;
        } else if (Type == objectValue) {
            r.Owner = this;
            r.IsObj = true;
            r.It = O->empty() ? nullptr : &*O->begin();
        }
        return r;
    }
    ValueIterator Value::end()
    {
        ValueIterator r;
        if (Type == arrayValue) {
            r.Owner = this;
            r.Pos = A->size();
        } else if (Type == objectValue) {
            r.Owner = this;
            r.IsObj = true;
            r.It = nullptr;
        }
        return r;
    }
    ValueConstIterator Value::begin() const
    {
        return ValueConstIterator(const_cast<Value*>(this)->begin());
    }
    ValueConstIterator Value::end() const
    {
        return ValueConstIterator(const_cast<Value*>(this)->end());
    }

    // ------------------------------------------------------------ writer
    namespace
    {
        struct TWriteOpts
        {
            std::string Indent = "\t";
            int Precision = 17;
            bool EmitUtf8 = false;
            bool Yaml = false;
        };

        void quote(std::string& out, const std::string& s, bool emitUtf8)
        {
            out += '"';
            for (size_t i = 0; i < s.size(); ++i) {
                unsigned char c = s[i];
                switch (c) {
                    case '"':
                        out += "\\\"";
                        break;
                    case '\\':
                        out += "\\\\";
                        break;
                    case '\b':
                        out += "\\b";
                        break;
                    case '\f':
                        out += "\\f";
                        break;
                    case '\n':
                        out += "\\n";
                        break;
                    case '\r':
                        out += "\\r";
                        break;
                    case '\t':
                        out += "\\t";
                        break;
                    default:
                        if (c < 0x20) {
                            char b[8];
                            snprintf(b, sizeof b, "\\u%04x", c);
                            out += b;
                        } else if (c < 0x80 || emitUtf8) {
                            out += char(c);
                        } else {
                            unsigned cp = 0xFFFD;
                            size_t n = 0;
                            if ((c & 0xE0) == 0xC0) {
                                n = 1;
                                cp = c & 0x1f;
                            } else if ((c & 0xF0) == 0xE0) {
                                n = 2;
                                cp = c & 0x0f;
                            } else if ((c & 0xF8) == 0xF0) {
                                n = 3;
                                cp = c & 0x07;
                            }
                            if (n && i + n < s.size() + 0 && i + n <= s.size() - 1) {
                                for (size_t k = 1; k <= n; ++k)
                                    cp = (cp << 6) | (static_cast<unsigned char>(s[i + k]) & 0x3f);
                                i += n;
                            } else {
                                cp = 0xFFFD;
                            }
                            char b[16];
                            if (cp > 0xFFFF) {
                                cp -= 0x10000;
                                snprintf(b, sizeof b, "\\u%04x\\u%04x", 0xD800 + ((cp >> 10) & 0x3ff), 0xDC00 + (cp & 0x3ff));
                            } else {
                                snprintf(b, sizeof b, "\\u%04x", cp);
                            }
                            out += b;
                        }
                }
            }
            out += '"';
        }

        bool isMultiline(const Value& v, const TWriteOpts& o);

        void writeValue(std::string& out, const Value& v, const TWriteOpts& o, const std::string& ind)
        {
            switch (v.type()) {
                case nullValue:
                    out += "null";
                    break;
                case booleanValue:
                    out += v.asBool() ? "true" : "false";
                    break;
                case intValue:
                case uintValue:
                    out += v.asString();
                    break;
                case realValue:
                    out += fmtDouble(v.asDouble(), o.Precision);
                    break;
                case stringValue:
                    quote(out, v.asString(), o.EmitUtf8);
                    break;
                case arrayValue: {
                    if (v.empty()) {
                        out += "[]";
                        break;
                    }
                    bool ml = !o.Indent.empty() && isMultiline(v, o);
                    if (!ml) {
                        out += o.Indent.empty() ? "[" : "[ ";
                        bool first = true;
                        for (const auto& e: v) {
                            if (!first)
                                out += o.Indent.empty() ? "," : ", ";
                            first = false;
                            writeValue(out, e, o, ind);
                        }
                        out += o.Indent.empty() ? "]" : " ]";
                    } else {
                        out += "\n" + ind + "[";
                        std::string ni = ind + o.Indent;
                        bool first = true;
                        for (const auto& e: v) {
                            out += first ? "\n" : ",\n";
                            first = false;
                            out += ni;
                            std::string t;
                            writeValue(t, e, o, ni);
                            // nested containers start with their own newline
                            if (!t.empty() && t[0] == '\n')
                                t.erase(0, t.find_first_not_of("\n\t "));
                            out += t;
                        }
                        out += "\n" + ind + "]";
                    }
                    break;
                }
                case objectValue: {
                    if (v.empty()) {
                        out += "{}";
                        break;
                    }
                    if (o.Indent.empty()) {
                        out += "{";
                    } else {
                        out += "\n" + ind + "{";
                    }
                    std::string ni = ind + o.Indent;
                    bool first = true;
                    for (auto it = v.begin(); it != v.end(); ++it) {
                        if (!first)
                            out += ",";
                        first = false;
                        if (!o.Indent.empty())
                            out += "\n" + ni;
                        quote(out, it.name(), o.EmitUtf8);
                        out += o.Indent.empty() ? ":" : (o.Yaml ? ": " : " : ");
                        writeValue(out, *it, o, ni);
                    }
                    if (!o.Indent.empty())
                        out += "\n" + ind;
                    out += "}";
                    break;
                }
            }
        }

        bool isMultiline(const Value& v, const TWriteOpts& o)
        {
            if (v.size() * 3 >= 74)
                return true;
            for (const auto& e: v)
                if ((e.isArray() || e.isObject()) && !e.empty())
                    return true;
            std::string t;
            size_t len = 4 + (v.size() - 1) * 2;
            for (const auto& e: v) {
                t.clear();
                writeValue(t, e, o, "");
                len += t.size();
            }
            return len >= 74;
        }

        std::string writeTop(const Value& v, const TWriteOpts& o)
        {
            std::string out;
            writeValue(out, v, o, "");
            if (!out.empty() && out[0] == '\n')
                out.erase(0, 1);
            return out;
        }

        class TWriter: public StreamWriter
        {
        public:
            TWriteOpts O;
            int write(const Value& root, std::ostream* os) override
            {
                *os << writeTop(root, O);
                return 0;
            }
        };
    }

    StreamWriterBuilder::StreamWriterBuilder()
    {
        settings_["indentation"] = "\t";
        settings_["precision"] = 17;
        settings_["commentStyle"] = "All";
        settings_["emitUTF8"] = false;
        settings_["enableYAMLCompatibility"] = false;
    }
    StreamWriter* StreamWriterBuilder::newStreamWriter() const
    {
        auto w = new TWriter;
        w->O.Indent = settings_["indentation"].asString();
        w->O.Precision = settings_["precision"].asInt();
        w->O.EmitUtf8 = settings_["emitUTF8"].asBool();
        w->O.Yaml = settings_["enableYAMLCompatibility"].asBool();
        return w;
    }
    std::string writeString(const StreamWriterBuilder& b, const Value& root)
    {
        std::ostringstream ss;
        std::unique_ptr<StreamWriter> w(b.newStreamWriter());
        w->write(root, &ss);
        return ss.str();
    }
    std::string Value::toStyledString() const
    {
        TWriteOpts o;
        o.Indent = "   ";
        return writeTop(*this, o) + "\n";
    }
    std::string FastWriter::write(const Value& v)
    {
        TWriteOpts o;
        o.Indent = "";
        return writeTop(v, o) + "\n";
    }
    std::string StyledWriter::write(const Value& v)
    {
        return v.toStyledString();
    }
    std::ostream& operator<<(std::ostream& os, const Value& root)
    {
        return os << writeTop(root, TWriteOpts());
    }

    // ------------------------------------------------------------ parser
    namespace
    {
        class TParser
        {
            const char* P;
            const char* End;
            bool Comments, FailIfExtra, StrictRoot, RejectDup, TrailingCommas;
            int Depth = 0, Limit;

        public:
            std::string Err;

            TParser(const char* b, const char* e, const Value& s)
                : P(b),
                  End(e),
                  Comments(s.get("allowComments", true).asBool()),
                  FailIfExtra(s.get("failIfExtra", false).asBool()),
                  StrictRoot(s.get("strictRoot", false).asBool()),
                  RejectDup(s.get("rejectDupKeys", false).asBool()),
                  TrailingCommas(s.get("allowTrailingCommas", true).asBool()),
                  Limit(s.get("stackLimit", 1000).asInt())
            {}

            bool Run(Value& root)
            {
                if (End - P >= 3 && memcmp(P, "\xEF\xBB\xBF", 3) == 0)
                    P += 3;
                Value v;
                bool ok = Skip() && Parse(v);
                if (ok) {
                    if (!Skip())
                        ok = false;
                    else if (FailIfExtra && P != End)
                        ok = Fail("Extra non-whitespace after JSON value.");
                    else if (StrictRoot && !v.isArray() && !v.isObject())
                        ok = Fail("A valid JSON document must be either an array or an object value.");
                }
                root = std::move(v);
                return ok;
            }

        private:
            bool Fail(const std::string& m)
            {
                if (Err.empty())
                    Err = "* Line 1, Column 1\n  " + m + "\n";
                return false;
            }
            bool Skip()
            {
                for (;;) {
                    while (P < End && (*P == ' ' || *P == '\t' || *P == '\r' || *P == '\n'))
                        ++P;
                    if (P < End && *P == '/') {
                        if (!Comments)
                            return Fail("Syntax error: value, object or array expected.");
                        if (P + 1 < End && P[1] == '/') {
                            while (P < End && *P != '\n')
                                ++P;
                            continue;
                        }
                        if (P + 1 < End && P[1] == '*') {
                            P += 2;
                            while (P + 1 < End && !(P[0] == '*' && P[1] == '/'))
                                ++P;
                            if (P + 1 >= End)
                                return Fail("Syntax error: unterminated comment");
                            P += 2;
                            continue;
                        }
                        return Fail("Syntax error: value, object or array expected.");
                    }
                    return true;
                }
            }
            bool Lit(const char* s, Value v, Value& out)
            {
                size_t n = strlen(s);
                if (size_t(End - P) >= n && memcmp(P, s, n) == 0) {
                    P += n;
                    out = std::move(v);
                    return true;
                }
                return Fail("Syntax error: value, object or array expected.");
            }
            bool Hex4(unsigned& cp)
            {
                if (End - P < 4)
                    return Fail("Bad unicode escape sequence in string: four digits expected.");
                cp = 0;
                for (int i = 0; i < 4; ++i) {
                    char c = *P++;
                    cp <<= 4;
                    if (c >= '0' && c <= '9')
                        cp += c - '0';
                    else if (c >= 'a' && c <= 'f')
                        cp += c - 'a' + 10;
                    else if (c >= 'A' && c <= 'F')
                        cp += c - 'A' + 10;
                    else
                        return Fail("Bad unicode escape sequence in string: hexadecimal digit expected.");
                }
                return true;
            }
            bool Str(std::string& out)
            {
                ++P;
                while (P < End) {
                    char c = *P++;
                    if (c == '"')
                        return true;
                    if (c == '\\') {
                        if (P >= End)
                            return Fail("Empty escape sequence in string");
                        char e = *P++;
                        switch (e) {
                            case '"':
                            case '/':
                            case '\\':
                                out += e;
                                break;
                            case 'b':
                                out += '\b';
                                break;
                            case 'f':
                                out += '\f';
                                break;
                            case 'n':
                                out += '\n';
                                break;
                            case 'r':
                                out += '\r';
                                break;
                            case 't':
                                out += '\t';
                                break;
                            case 'u': {
                                unsigned cp;
                                if (!Hex4(cp))
                                    return false;
                                if (cp >= 0xD800 && cp <= 0xDBFF) {
                                    unsigned lo;
                                    if (End - P < 6 || P[0] != '\\' || P[1] != 'u')
                                        return Fail("additional six characters expected to parse unicode surrogate pair.");
                                    P += 2;
                                    if (!Hex4(lo))
                                        return false;
                                    cp = 0x10000 + ((cp & 0x3FF) << 10) + (lo & 0x3FF);
                                }
                                appendUtf8(out, cp);
                                break;
                            }
                            default:
                                return Fail("Bad escape sequence in string");
                        }
                    } else {
                        out += c;
                    }
                }
                return Fail("Syntax error: unterminated string");
            }
            bool Num(Value& out)
            {
                const char* s = P;
                bool neg = false, real = false;
                if (P < End && *P == '-') {
                    neg = true;
                    ++P;
                }
                const char* d = P;
                while (P < End && *P >= '0' && *P <= '9')
                    ++P;
                if (P == d)
                    return Fail("'" + std::string(s, P) + "' is not a number.");
                const char* de = P;
                if (P < End && *P == '.') {
                    real = true;
                    ++P;
                    while (P < End && *P >= '0' && *P <= '9')
                        ++P;
                }
                if (P < End && (*P == 'e' || *P == 'E')) {
                    real = true;
                    ++P;
                    if (P < End && (*P == '+' || *P == '-'))
                        ++P;
                    while (P < End && *P >= '0' && *P <= '9')
                        ++P;
                }
                if (!real) {
                    unsigned __int128 v = 0;
                    bool over = false;
                    for (const char* c = d; c < de; ++c) {
                        v = v * 10 + unsigned(*c - '0');
                        if (v > (unsigned __int128)(UINT64_MAX)) {
                            over = true;
                            break;
                        }
                    }
                    if (!over) {
                        if (neg && v <= (unsigned __int128)(1) << 63) {
                            out = Value(Int64(0 - uint64_t(v)));
                            return true;
                        }
                        if (!neg && v <= (unsigned __int128)(INT64_MAX)) {
                            out = Value(Int64(v));
                            return true;
                        }
                        if (!neg) {
                            out = Value(UInt64(v));
                            return true;
                        }
                    }
                }
                out = Value(strtod(std::string(s, P).c_str(), nullptr));
                return true;
            }
            bool Parse(Value& out)
            {
                if (++Depth > Limit)
                    throw RuntimeError("Exceeded stackLimit in readValue().");
                struct TGuard
                {
                    int& D;
                    ~TGuard()
                    {
                        --D;
                    }
                } g{Depth};
                if (P >= End)
                    return Fail("Syntax error: value, object or array expected.");
                switch (*P) {
                    case '{': {
                        ++P;
                        out = Value(objectValue);
                        if (!Skip())
                            return false;
                        if (P < End && *P == '}') {
                            ++P;
                            return true;
                        }
                        for (;;) {
                            if (!Skip())
                                return false;
                            if (TrailingCommas && P < End && *P == '}' && !out.empty()) {
                                ++P;
                                return true;
                            }
                            if (P >= End || *P != '"')
                                return Fail("Missing '}' or object member name");
                            std::string k;
                            if (!Str(k) || !Skip())
                                return false;
                            if (P >= End || *P != ':')
                                return Fail("Missing ':' after object member name");
                            ++P;
                            if (!Skip())
                                return false;
                            if (RejectDup && out.isMember(k))
                                return Fail("Duplicate key: '" + k + "'");
                            Value v;
                            if (!Parse(v) || !Skip())
                                return false;
                            out[k] = std::move(v);
                            if (P < End && *P == ',') {
                                ++P;
                                continue;
                            }
                            if (P < End && *P == '}') {
                                ++P;
                                return true;
                            }
                            return Fail("Missing ',' or '}' in object declaration");
                        }
                    }
                    case '[': {
                        ++P;
                        out = Value(arrayValue);
                        if (!Skip())
                            return false;
                        if (P < End && *P == ']') {
                            ++P;
                            return true;
                        }
                        for (;;) {
                            if (!Skip())
                                return false;
                            if (TrailingCommas && P < End && *P == ']' && !out.empty()) {
                                ++P;
                                return true;
                            }
                            Value v;
                            if (!Parse(v) || !Skip())
                                return false;
                            out.append(std::move(v));
                            if (P < End && *P == ',') {
                                ++P;
                                continue;
                            }
                            if (P < End && *P == ']') {
                                ++P;
                                return true;
                            }
                            return Fail("Missing ',' or ']' in array declaration");
                        }
                    }
                    case '"': {
                        std::string s;
                        if (!Str(s))
                            return false;
                        out = Value(s);
                        return true;
                    }
                    case 't':
                        return Lit("true", Value(true), out);
                    case 'f':
                        return Lit("false", Value(false), out);
                    case 'n':
                        return Lit("null", Value(), out);
                    default:
                        if (*P == '-' || (*P >= '0' && *P <= '9'))
                            return Num(out);
                        return Fail("Syntax error: value, object or array expected.");
                }
            }
        };

        class TCharReader: public CharReader
        {
        public:
            Value Settings;
            bool parse(const char* b, const char* e, Value* root, std::string* errs) override
            {
                TParser p(b, e, Settings);
                Value v;
                bool ok = p.Run(v);
                if (root)
                    *root = std::move(v);
                if (errs)
                    *errs = p.Err;
                return ok;
            }
        };
    }

    CharReaderBuilder::CharReaderBuilder()
    {
        settings_["collectComments"] = true;
        settings_["allowComments"] = true;
        settings_["allowTrailingCommas"] = true;
        settings_["strictRoot"] = false;
        settings_["failIfExtra"] = false;
        settings_["rejectDupKeys"] = false;
        settings_["stackLimit"] = 1000;
    }
    CharReader* CharReaderBuilder::newCharReader() const
    {
        auto r = new TCharReader;
        r->Settings = settings_;
        return r;
    }
    bool parseFromStream(const CharReaderBuilder& b, std::istream& is, Value* root, std::string* errs)
    {
        std::ostringstream ss;
        ss << is.rdbuf();
        std::string doc = ss.str();
        std::unique_ptr<CharReader> r(b.newCharReader());
        return r->parse(doc.data(), doc.data() + doc.size(), root, errs);
    }
    bool Reader::parse(const std::string& doc, Value& root, bool)
    {
        CharReaderBuilder b;
        std::unique_ptr<CharReader> r(b.newCharReader());
        return r->parse(doc.data(), doc.data() + doc.size(), &root, &Errs);
    }
    bool Reader::parse(std::istream& is, Value& root, bool c)
    {
        std::ostringstream ss;
        ss << is.rdbuf();
        return parse(ss.str(), root, c);
    }
    std::istream& operator>>(std::istream& is, Value& root)
    {
        CharReaderBuilder b;
        std::string errs;
        if (!parseFromStream(b, is, &root, &errs))
            throw RuntimeError(errs);
        return is;
    }
}
