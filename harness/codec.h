// An independent implementation of the conversion between register contents and text, written from the documentation.
#pragma once
#include "mon.h"
#include "register.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <optional>

namespace codec
{
    struct TSpec
    {
        RegisterFormat Format = U16;
        unsigned BitOffset = 0, BitWidth = 0; // width 0: whole format
        unsigned StringSize = 0;              // in registers
        double Scale = 1, Offset = 0, Round = 0;
        bool WordLE = false, ByteLE = false;

        bool IsString() const
        {
            return Format == String || Format == String8;
        }
        bool IsFloat() const
        {
            return Format == Float || Format == Double;
        }
        bool IsSigned() const
        {
            return Format == S8 || Format == S16 || Format == S24 || Format == S32 || Format == S64;
        }
        bool IsBcd() const
        {
            return Format == BCD8 || Format == BCD16 || Format == BCD24 || Format == BCD32;
        }
        unsigned FormatBits() const
        {
            switch (Format) {
                case U8:
                case S8:
                case BCD8:
                case Char8:
                    return 8;
                case U16:
                case S16:
                case BCD16:
                    return 16;
                case U24:
                case S24:
                case BCD24:
                    return 24;
                case U32:
                case S32:
                case BCD32:
                case Float:
                    return 32;
                default:
                    return 64;
            }
        }
        unsigned Bits() const
        {
            return BitWidth ? BitWidth : FormatBits();
        }
        unsigned Words() const
        {
            if (IsString()) {
                return StringSize;
            }
            return (std::max(FormatBits(), BitOffset + Bits()) + 15) / 16;
        }
        std::string Str() const
        {
            static const char* names[] = {"u8",    "s8",     "u16",    "s16", "s24",   "u24",    "u32",
                                          "s32",   "s64",    "u64",    "bcd8", "bcd16", "bcd24",  "bcd32",
                                          "float", "double", "char8",  "string", "string8"};
            std::ostringstream s;
            s << names[int(Format)];
            if (BitWidth || BitOffset) {
                s << " bits " << BitOffset << ":" << BitWidth;
            }
            if (IsString()) {
                s << " size " << StringSize;
            }
            if (Scale != 1 || Offset != 0 || Round != 0) {
                s.precision(17);
                s << " scale " << Scale << " offset " << Offset << " round " << Round;
            }
            if (WordLE) {
                s << " word-le";
            }
            if (ByteLE) {
                s << " byte-le";
            }
            return s.str();
        }
    };

    inline uint64_t Mask(unsigned bits)
    {
        return bits >= 64 ? ~0ull : (1ull << bits) - 1;
    }

    // Words of a register (in the order of their addresses, as numbers on the wire) to its raw bits
    inline uint64_t RawBits(const TSpec& s, const std::vector<uint16_t>& words)
    {
        uint64_t v = 0;
        for (size_t i = 0; i < words.size(); ++i) {
            uint16_t w = words[s.WordLE ? words.size() - 1 - i : i];
            if (s.ByteLE) {
                w = w >> 8 | w << 8;
            }
            v = v << 16 | w;
        }
        return v >> s.BitOffset & Mask(s.Bits());
    }

    inline std::string RawText(const TSpec& s, const std::vector<uint16_t>& words)
    {
        std::string res;
        for (size_t i = 0; i < words.size(); ++i) {
            uint16_t w = words[s.WordLE ? words.size() - 1 - i : i];
            if (s.ByteLE) {
                w = w >> 8 | w << 8;
            }
            if (s.Format == String8) {
                res += char(w >> 8);
            }
            res += char(w & 0xff);
        }
        auto e = res.find_first_of(std::string("\0\xff", 2));
        if (e != std::string::npos) {
            res.resize(e);
        }
        return res;
    }

    struct TValue
    {
        std::optional<std::string> Text; // exact
        long double Number = 0;          // otherwise: a number, to be met with this tolerance
        long double Tolerance = 0;
        bool NaN = false;
        int Inf = 0;
        bool Any = false; // not specified
        std::string Str() const
        {
            if (Any) {
                return "(unspecified)";
            }
            if (Text) {
                return mon::Quote(*Text);
            }
            if (NaN) {
                return "nan";
            }
            std::ostringstream s;
            s.precision(20);
            s << (Inf ? Inf * INFINITY : Number) << " +- " << Tolerance;
            return s.str();
        }
        bool Matches(const std::string& t) const
        {
            if (Any) {
                return true;
            }
            if (Text) {
                return t == *Text;
            }
            if (t.empty()) {
                return false;
            }
            char* e = nullptr;
            long double v = strtold(t.c_str(), &e);
            if (*e) {
                return false;
            }
            if (NaN) {
                return std::isnan(v);
            }
            if (Inf) {
                return std::isinf(v) && (v > 0) == (Inf > 0);
            }
            return std::fabs(v - Number) <= Tolerance;
        }
    };

    // A number of the register (before scaling)
    inline std::optional<__int128> Integer(const TSpec& s, uint64_t raw)
    {
        unsigned fb = s.FormatBits();
        raw &= Mask(fb);
        if (s.IsSigned()) {
            if (fb < 64 && raw >> (fb - 1) & 1) {
                return __int128(raw) - (__int128(1) << fb);
            }
            return fb == 64 ? __int128(int64_t(raw)) : __int128(raw);
        }
        if (s.IsBcd()) {
            __int128 v = 0;
            for (int i = int(fb) - 4; i >= 0; i -= 4) {
                auto d = raw >> i & 15;
                if (d > 9) {
                    return std::nullopt;
                }
                v = v * 10 + d;
            }
            return v;
        }
        return __int128(raw);
    }

    inline std::string Dec(__int128 v)
    {
        if (v == 0) {
            return "0";
        }
        bool neg = v < 0;
        unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
        std::string r;
        while (u) {
            r += char('0' + int(u % 10));
            u /= 10;
        }
        if (neg) {
            r += '-';
        }
        std::reverse(r.begin(), r.end());
        return r;
    }

    inline TValue Scaled(const TSpec& s, long double n, long double rel)
    {
        TValue v;
        long double x = (long double)s.Scale * n;
        long double want = x + s.Offset;
        long double err = 1e-14L * (std::fabs(x) + std::fabs((long double)s.Offset));
        if (s.Round > 0) {
            long double k = want / s.Round;
            long double r = std::round(k) * s.Round;
            if (std::fabs(std::fabs(k - std::trunc(k)) - 0.5L) < 1e-9L + err / s.Round) {
                err += s.Round; // a tie
            }
            want = r;
            err += 1e-14L * std::fabs(r);
        }
        if (s.Round > 0 && std::fabs(want / s.Round) > 1e300L || std::fabs(want) > 1.7e308L || std::fabs(x) > 1.7e308L) {
            v.Any = true;
            return v;
        }
        v.Number = want;
        v.Tolerance = err + rel * std::fabs(want) + 1e-320L; // subnormal numbers
        return v;
    }

    // What is published for the contents
    inline TValue Decode(const TSpec& s, const std::vector<uint16_t>& words)
    {
        TValue v;
        if (s.IsString()) {
            v.Text = RawText(s, words);
            return v;
        }
        auto raw = RawBits(s, words);
        if (s.Format == Char8) {
            v.Text = std::string(1, char(raw & 0xff));
            return v;
        }
        if (s.IsFloat()) {
            long double n;
            if (s.Format == Float) {
                uint32_t r = raw;
                float f;
                memcpy(&f, &r, 4);
                n = f;
            } else {
                double f;
                memcpy(&f, &raw, 8);
                n = f;
            }
            if (std::isnan(n)) {
                v.NaN = true;
                return v;
            }
            if (std::isinf(n)) {
                v.Inf = (n > 0) == (s.Scale > 0) ? 1 : -1;
                return v;
            }
            return Scaled(s, n, s.Format == Float ? 6e-7L : 6e-15L);
        }
        auto i = Integer(s, raw);
        if (!i) {
            v.Any = true;
            return v;
        }
        if (s.Scale == 1 && s.Offset == 0 && s.Round == 0) {
            v.Text = Dec(*i);
            return v;
        }
        return Scaled(s, (long double)*i, 6e-15L);
    }

    inline std::vector<uint16_t> OrderWords(const TSpec& s, uint64_t value, unsigned words)
    {
        std::vector<uint16_t> res(words);
        for (unsigned i = 0; i < words; ++i) {
            uint16_t w = value >> (16 * (words - 1 - i));
            if (s.ByteLE) {
                w = w >> 8 | w << 8;
            }
            res[s.WordLE ? words - 1 - i : i] = w;
        }
        return res;
    }

    // Puts raw bits into words that hold something already
    inline std::vector<uint16_t> Insert(const TSpec& s, std::vector<uint16_t> words, uint64_t raw)
    {
        TSpec whole = s;
        whole.BitOffset = 0;
        whole.BitWidth = 64;
        uint64_t old = RawBits(whole, words);
        uint64_t m = Mask(s.Bits()) << s.BitOffset;
        return OrderWords(s, (old & ~m) | (raw << s.BitOffset & m), words.size());
    }

    inline const char* FormatName(RegisterFormat f)
    {
        static const char* names[] = {"u8",    "s8",     "u16",   "s16",  "s24",   "u24",   "u32",
                                      "s32",   "s64",    "u64",   "bcd8", "bcd16", "bcd24", "bcd32",
                                      "float", "double", "char8", "string", "string8"};
        return names[int(f)];
    }
}
