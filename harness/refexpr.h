// A recogniser and interpreter of condition expressions written from the documented grammar.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>

namespace refexpr
{
    // ---- reference: precedence climbing straight on the text
    struct TRef
    {
        enum K
        {
            NUM,
            ID,
            DEF,
            OP
        } Kind;
        long long Num = 0;
        std::string Text;
        std::unique_ptr<TRef> L, R;
    };
    using P = std::unique_ptr<TRef>;
    struct TReject
    {};

    class TRefParser
    {
        const std::string& S;
        size_t I = 0;

        static bool Letter(char c)
        {
            return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
        }
        static bool Digit(char c)
        {
            return c >= '0' && c <= '9';
        }
        char At(size_t i) const
        {
            return i < S.size() ? S[i] : '\0';
        }
        std::string Op()
        {
            static const char* ops[] = {"==", "!=", ">=", "<=", "||", "&&", ">", "<"};
            for (auto o: ops) {
                if (S.compare(I, strlen(o), o) == 0) {
                    return o;
                }
            }
            return "";
        }
        static int Level(const std::string& o)
        {
            if (o == "||") {
                return 1;
            }
            if (o == "&&") {
                return 2;
            }
            return (o == "==" || o == "!=") ? 3 : 4;
        }
        std::string Ident()
        {
            if (I >= S.size() || !Letter(S[I])) {
                throw TReject();
            }
            size_t b = I;
            while (I < S.size() && (Letter(S[I]) || Digit(S[I]) || S[I] == '_')) {
                ++I;
            }
            return S.substr(b, I - b);
        }
        P Operand()
        {
            auto n = std::make_unique<TRef>();
            if (I >= S.size()) {
                throw TReject();
            }
            if (S[I] == '(') {
                ++I;
                auto e = Expr(1);
                if (At(I) != ')' || I >= S.size()) {
                    throw TReject();
                }
                ++I;
                return e;
            }
            if (Digit(S[I]) || (S[I] == '-' && I + 1 < S.size() && Digit(S[I + 1]))) {
                size_t b = I++;
                while (I < S.size() && Digit(S[I])) {
                    ++I;
                }
                std::string t = S.substr(b, I - b);
                bool neg = t[0] == '-';
                long long v = 0;
                for (char c: t) {
                    if (c != '-') {
                        v = v * 10 + (c - '0');
                        if (v > 5000000000ll) {
                            v = 5000000000ll;
                        }
                    }
                }
                v = neg ? -v : v;
                if (v > INT32_MAX || v < INT32_MIN) {
                    throw TReject(); // no 32-bit value: not a number of the language
                }
                n->Kind = TRef::NUM;
                n->Num = v;
                return n;
            }
            n->Text = Ident();
            n->Kind = TRef::ID;
            if (I < S.size() && S[I] == '(') {
                if (n->Text != "isDefined") {
                    throw TReject();
                }
                ++I;
                n->Text = Ident();
                n->Kind = TRef::DEF;
                if (I >= S.size() || S[I] != ')') {
                    throw TReject();
                }
                ++I;
            }
            return n;
        }
        P Expr(int level)
        {
            auto l = level > 4 ? Operand() : Expr(level + 1);
            if (level > 4) {
                return l;
            }
            for (;;) {
                auto o = Op();
                if (o.empty() || Level(o) != level) {
                    return l;
                }
                I += o.size();
                auto n = std::make_unique<TRef>();
                n->Kind = TRef::OP;
                n->Text = o;
                n->L = std::move(l);
                n->R = Expr(level + 1);
                l = std::move(n);
            }
        }

    public:
        explicit TRefParser(const std::string& s): S(s)
        {}
        P Parse()
        {
            auto e = Expr(1);
            if (I != S.size()) {
                throw TReject();
            }
            return e;
        }
    };

    using TEnv = std::map<std::string, std::optional<int32_t>>;

    std::optional<long long> RefEval(const TRef* n, const TEnv& env)
    {
        auto get = [&](const std::string& s) {
            auto it = env.find(s);
            return it == env.end() ? std::optional<int32_t>() : it->second;
        };
        switch (n->Kind) {
            case TRef::NUM:
                return n->Num;
            case TRef::ID: {
                auto v = get(n->Text);
                return v ? std::optional<long long>(*v) : std::nullopt;
            }
            case TRef::DEF:
                return get(n->Text).has_value() ? 1 : 0;
            default:
                break;
        }
        auto a = RefEval(n->L.get(), env), b = RefEval(n->R.get(), env);
        const auto& o = n->Text;
        if (!a || !b) {
            return o == "!=" ? 1 : 0;
        }
        if (o == "==") {
            return *a == *b;
        }
        if (o == "!=") {
            return *a != *b;
        }
        if (o == "<") {
            return *a < *b;
        }
        if (o == ">") {
            return *a > *b;
        }
        if (o == "<=") {
            return *a <= *b;
        }
        if (o == ">=") {
            return *a >= *b;
        }
        if (o == "&&") {
            return (*a != 0) && (*b != 0);
        }
        return (*a != 0) || (*b != 0);
    }

    void RefNames(const TRef* n, std::set<std::string>& s)
    {
        if (!n) {
            return;
        }
        if (n->Kind == TRef::ID || n->Kind == TRef::DEF) {
            s.insert(n->Text);
        }
        RefNames(n->L.get(), s);
        RefNames(n->R.get(), s);
    }
}
