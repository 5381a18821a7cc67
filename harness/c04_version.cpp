// C04: firmware version order against a reference order, plus the order axioms on triples.
#include "common_utils.h"
#include "mon.h"

using mon::Rng;

namespace
{
    using TNum = std::string; // digits without leading zeros

    int CmpNum(const TNum& a, const TNum& b)
    {
        if (a.size() != b.size()) {
            return a.size() < b.size() ? -1 : 1;
        }
        return a < b ? -1 : a > b ? 1 : 0;
    }
    TNum Norm(const std::string& s)
    {
        size_t i = 0;
        while (i < s.size() && s[i] == '0') {
            ++i;
        }
        return s.substr(i);
    }

    // Version made of known parts: numbers joined with dots, then an optional suffix of the last number
    struct TVer
    {
        std::vector<std::string> Nums;
        int Kind = 0; // -1: -rc, 0: none, 1: +wb
        std::string Suffix;
        std::string Text() const
        {
            std::string s;
            for (size_t i = 0; i < Nums.size(); ++i) {
                s += (i ? "." : "") + Nums[i];
            }
            return s + (Kind < 0 ? "-rc" + Suffix : Kind > 0 ? "+wb" + Suffix : "");
        }
    };

    // Reference for versions with the same count of numbers
    int Ref(const TVer& a, const TVer& b)
    {
        for (size_t i = 0; i < a.Nums.size(); ++i) {
            int c = CmpNum(Norm(a.Nums[i]), Norm(b.Nums[i]));
            if (c) {
                return c;
            }
        }
        if (a.Kind != b.Kind) {
            return a.Kind < b.Kind ? -1 : 1;
        }
        return a.Kind ? CmpNum(Norm(a.Suffix), Norm(b.Suffix)) : 0;
    }

    std::string GenNum(Rng& r)
    {
        switch (r.Below(10)) {
            case 0:
                return "0";
            case 1:
                return std::to_string(r.Of<int>({127, 128, 129, 255, 256, 1000, 65535, 65536}));
            case 2:
                return std::to_string(uint32_t(r.Below(2147483647)));
            case 3:
                return "0" + std::to_string(r.Below(20));
            default:
                return std::to_string(r.Below(r.Chance(50) ? 4 : 40));
        }
    }

    TVer Gen(Rng& r, size_t n)
    {
        TVer v;
        for (size_t i = 0; i < n; ++i) {
            v.Nums.push_back(GenNum(r));
        }
        v.Kind = int(r.Below(3)) - 1;
        v.Suffix = GenNum(r);
        return v;
    }

    TVer Near(Rng& r, TVer v)
    {
        switch (r.Below(4)) {
            case 0:
                r.Pick(v.Nums) = GenNum(r);
                break;
            case 1:
                v.Kind = int(r.Below(3)) - 1;
                break;
            case 2:
                v.Suffix = GenNum(r);
                break;
            default:
                v.Nums.back() = GenNum(r);
        }
        return v;
    }

    std::string GenAny(Rng& r)
    {
        static const char* pieces[] = {"1", "0", "12", ".", "..", "-rc", "+wb", "-rc1", "+wb2", "rc", "wb", "-", "+", "a",
                                       "9999999999", "2147483647", "2147483648", "18446744073709551616", " ", "\n", "\xff", "~", "v"};
        std::string s;
        if (r.Chance(10)) {
            auto b = r.Bytes(r.Below(20));
            return std::string(b.begin(), b.end());
        }
        for (int k = r.Below(8); k > 0; --k) {
            s += r.Pick(pieces);
        }
        return s;
    }

    int Sign(int v)
    {
        return v < 0 ? -1 : v > 0;
    }

    int Cmp(const std::string& a, const std::string& b)
    {
        try {
            mon::Count("comparisons");
            return Sign(util::CompareVersionStrings(a, b));
        } catch (const std::exception& e) {
            mon::Violation("exception", mon::Quote(a) + " vs " + mon::Quote(b) + ": " + e.what());
        }
        return 0;
    }

    void Axioms(const std::string& a, const std::string& b, const std::string& c)
    {
        int ab = Cmp(a, b), ba = Cmp(b, a), bc = Cmp(b, c), ac = Cmp(a, c);
        auto d = mon::Quote(a) + " , " + mon::Quote(b) + " , " + mon::Quote(c);
        MON_EXPECT(ab == -ba, "not-antisymmetric", d);
        MON_EXPECT(Cmp(a, a) == 0, "not-reflexive", d);
        if (ab <= 0 && bc <= 0) {
            MON_EXPECT(ac <= 0 && ((ab == 0 && bc == 0) ? ac == 0 : ac < 0), "not-transitive", d);
        }
        MON_EXPECT(a.empty() ? (ab <= 0) : true, "empty-not-least", d);
    }

    void Case(Rng& r, uint64_t n)
    {
        for (int i = 0; i < 60; ++i) {
            size_t k = 1 + r.Below(4);
            auto a = Gen(r, k);
            auto b = r.Chance(70) ? Near(r, a) : Gen(r, k);
            auto c = r.Chance(50) ? Near(r, b) : Gen(r, k);
            int e = Ref(a, b);
            int g = Cmp(a.Text(), b.Text());
            MON_EXPECT(e == g, "order", a.Text() << " vs " << b.Text() << ": got " << g << " expected " << e);
            if (e != 0) {
                mon::Distinct(a.Text() + "|" + b.Text());
                if (a.Kind != b.Kind) {
                    mon::Sample(a.Text() + (e < 0 ? " < " : " > ") + b.Text());
                }
            }
            MON_EXPECT(Cmp(a.Text(), "") == 1 && Cmp("", a.Text()) == -1, "empty-not-least", a.Text());
            // missing trailing numbers count as zero
            if (a.Kind == 0) {
                MON_EXPECT(Cmp(a.Text(), a.Text() + ".0") == 0, "trailing-zero", a.Text());
            }
            Axioms(a.Text(), b.Text(), c.Text());
            Axioms(GenAny(r), GenAny(r), GenAny(r));
            Axioms(a.Text() + (r.Chance(50) ? "." : "") + GenAny(r), b.Text(), GenAny(r));
        }
        if (n % 32 == 0) {
            for (const auto& s: {std::string(100000, '1'), std::string(100000, '.'), "1.2.3-rc" + std::string(100000, '7'),
                                 std::string(300000, 'x')})
            {
                Axioms(s, "1.2.3", s + "1");
                mon::Count("huge");
            }
        }
    }
    MON_CHECK("C04", Case);
}
