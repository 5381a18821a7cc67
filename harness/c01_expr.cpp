// C01: condition expressions against an independent recogniser and interpreter written from the documented grammar.
#include "expression_evaluator.h"
#include "mon.h"
#include "refexpr.h"
#include <cstring>
#include <memory>
#include <optional>
#include <set>

using mon::Rng;

namespace
{
    using namespace refexpr;

    // ---- generator
    const char* NAMES[] = {"a", "b", "c", "param1", "in1_mode", "X", "a1", "isDefined", "isDefinedX", "Z_9_", "ab"};

    std::string GenNum(Rng& r)
    {
        switch (r.Below(8)) {
            case 0:
                return "2147483647";
            case 1:
                return "-2147483648";
            case 2:
                return r.Chance(50) ? "0" : "-0";
            case 3:
                return "00" + std::to_string(r.Below(10));
            case 4:
                return std::to_string(int32_t(r.Next()));
            case 5:
                return r.Chance(10) ? r.Of<const char*>({"2147483648", "-2147483649", "4294967297", "99999999999999999999"})
                                    : "7";
            default:
                return std::to_string(r.Range(-4, 12));
        }
    }

    std::string GenExpr(Rng& r, int depth);

    std::string GenOperand(Rng& r, int depth)
    {
        if (depth > 0 && r.Chance(35)) {
            return "(" + GenExpr(r, depth - 1) + ")";
        }
        switch (r.Below(5)) {
            case 0:
            case 1:
                return GenNum(r);
            case 2:
                return std::string("isDefined(") + r.Pick(NAMES) + ")";
            default:
                return r.Pick(NAMES);
        }
    }

    const char* OPS[] = {"==", "!=", ">", "<", ">=", "<=", "||", "&&"};

    std::string GenExpr(Rng& r, int depth)
    {
        auto s = GenOperand(r, depth);
        int n = r.Below(depth > 1 ? 4 : 6);
        for (int i = 0; i < n; ++i) {
            s += OPS[r.Chance(40) ? 6 + r.Below(2) : r.Below(8)];
            s += GenOperand(r, depth);
        }
        return s;
    }

    const char* PIECES[] = {"(", ")", "==", "=", "!", "!=", "<", ">", "&", "&&", "|", "||", "-", "1", "9", "a", "_",
                            "isDefined", "isDefined(", "isDefined(a)", " ", "+", "\t", "\xd0\x90", "-1", "a1", "(a)", ")("};

    std::string Damage(Rng& r, std::string s)
    {
        for (int n = 1 + r.Below(3); n > 0; --n) {
            size_t at = r.Below(s.size() + 1);
            switch (r.Below(5)) {
                case 0:
                    s.insert(at, r.Pick(PIECES));
                    break;
                case 1:
                    if (!s.empty()) {
                        s.erase(at % s.size(), 1 + r.Below(3));
                    }
                    break;
                case 2:
                    if (!s.empty()) {
                        s[at % s.size()] = char(r.Byte());
                    }
                    break;
                case 3:
                    s = s.substr(0, at);
                    break;
                default:
                    if (s.size() > 1) {
                        std::swap(s[at % s.size()], s[(at + 1) % s.size()]);
                    }
            }
        }
        return s;
    }

    struct TParams: public Expressions::IParams
    {
        const TEnv& E;
        explicit TParams(const TEnv& e): E(e)
        {}
        std::optional<int32_t> Get(const std::string& name) const override
        {
            auto it = E.find(name);
            return it == E.end() ? std::optional<int32_t>() : it->second;
        }
    };

    void One(Rng& r, const std::string& s)
    {
        P ref;
        try {
            ref = TRefParser(s).Parse();
        } catch (const TReject&) {
        }
        Expressions::TParser parser;
        std::unique_ptr<Expressions::TAstNode> ast;
        std::string what;
        try {
            ast = parser.Parse(s);
        } catch (const std::runtime_error& e) {
            what = e.what();
        } catch (const std::exception& e) {
            mon::Violation("parse-other-exception", mon::Quote(s) + ": " + e.what());
            return;
        }
        if (!ref) {
            mon::Count("rejected");
            MON_EXPECT(!ast, "accepts-non-expression", mon::Quote(s));
            MON_EXPECT(ast || !what.empty(), "rejects-without-message", mon::Quote(s));
            return;
        }
        mon::Count("accepted");
        if (!ast) {
            mon::Violation("rejects-expression", mon::Quote(s) + ": " + what);
            return;
        }
        std::set<std::string> names;
        RefNames(ref.get(), names);
        auto deps = Expressions::GetDependencies(ast.get());
        std::set<std::string> depSet(deps.begin(), deps.end());
        MON_EXPECT(depSet == names && deps.size() == depSet.size(), "dependencies", mon::Quote(s));
        bool seen[2] = {false, false};
        for (int k = 0; k < 6; ++k) {
            TEnv env;
            for (const auto& n: names) {
                if (!r.Chance(k == 0 ? 0 : 25)) {
                    switch (r.Below(4)) {
                        case 0:
                            env[n] = r.Of<int32_t>({INT32_MAX, INT32_MIN, 0, 1, -1});
                            break;
                        case 1:
                            env[n] = int32_t(r.Next());
                            break;
                        default:
                            env[n] = int32_t(r.Range(-4, 12));
                    }
                }
            }
            auto v = RefEval(ref.get(), env);
            bool expected = v && *v != 0;
            bool got = Expressions::Eval(ast.get(), TParams(env));
            seen[expected] = true;
            mon::Count("evaluations");
            if (got != expected) {
                std::string e;
                for (const auto& n: names) {
                    e += " " + n + "=" + (env.count(n) ? std::to_string(*env[n]) : std::string("undefined"));
                }
                mon::Violation("evaluation", mon::Quote(s) + " with" + e + ": got " + (got ? "true" : "false"));
            }
        }
        if (seen[0] && seen[1]) {
            mon::Distinct(s); // an expression seen both true and false
            if (s.size() > 20) {
                mon::Sample(s + " seen true and false, " + std::to_string(names.size()) + " names");
            }
        }
    }

    void Case(Rng& r, uint64_t n)
    {
        for (int i = 0; i < 200; ++i) {
            switch (r.Below(10)) {
                case 0: { // random pieces
                    std::string s;
                    for (int k = r.Below(12); k > 0; --k) {
                        s += r.Pick(PIECES);
                    }
                    One(r, s);
                    break;
                }
                case 1: { // bytes
                    auto b = r.Bytes(r.Below(20));
                    One(r, std::string(b.begin(), b.end()));
                    break;
                }
                case 2:
                case 3:
                case 4:
                    One(r, Damage(r, GenExpr(r, 2)));
                    break;
                default:
                    One(r, GenExpr(r, r.Below(5)));
            }
        }
        if (n % 16 == 0) { // long and deep
            int k = r.Range(1, 900);
            One(r, std::string(k, '(') + "a" + std::string(k, ')'));
            One(r, std::string(k, '(') + "a" + std::string(k - 1, ')'));
            std::string s = "a";
            for (int i = 0; i < k; ++i) {
                s += OPS[r.Below(8)];
                s += r.Pick(NAMES);
            }
            One(r, s);
            One(r, std::string(k, '('));
            // text far bigger than any expression must be refused or understood, not crash
            Expressions::TParser p;
            for (const auto& t: {std::string(200000, '('), std::string(200000, '-'), "a" + [] {
                                     std::string t;
                                     for (int i = 0; i < 60000; ++i) {
                                         t += "||a";
                                     }
                                     return t;
                                 }()})
            {
                try {
                    p.Parse(t);
                } catch (const std::runtime_error&) {
                }
                mon::Count("huge");
            }
        }
    }

    MON_CHECK("C01", Case);
}
