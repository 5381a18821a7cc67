// V01: register contents <-> published text, through Modbus requests to a simulated device.
#include "codec.h"
#include "modbus_base.h"
#include "modbus_common.h"
#include "sim.h"

using mon::Rng;
using namespace sim;
using namespace codec;

namespace
{
    const auto RT = std::chrono::milliseconds(100);
    const auto FT = std::chrono::milliseconds(10);

    TSpec GenSpec(Rng& r)
    {
        TSpec s;
        s.Format = RegisterFormat(r.Below(19));
        if (s.IsString()) {
            s.StringSize = 1 + r.Below(r.Chance(80) ? 12 : 31);
        }
        s.WordLE = r.Chance(40);
        s.ByteLE = r.Chance(30);
        if (!s.IsString() && s.Format != Char8 && r.Chance(60)) {
            s.Scale = r.Of({0.1, 0.01, 0.001, 0.5, 2.0, 10.0, 100.0, 0.075, -1.0, 0.00390625, 3.6, 1.0, 1e-5, 60.0});
            if (r.Chance(50)) {
                s.Offset = r.Of({-12.5, 40.0, -40.0, 100.0, 0.25, -273.15, 1.0});
            }
            if (r.Chance(40)) {
                s.Round = r.Of({0.1, 0.01, 1.0, 0.5, 10.0, 0.001, 5.0});
            }
        }
        return s;
    }

    uint64_t GenRaw(Rng& r, const TSpec& s)
    {
        unsigned bits = s.FormatBits();
        if (s.IsBcd()) {
            uint64_t v = 0;
            for (unsigned i = 0; i < bits; i += 4) {
                v = v << 4 | (r.Chance(20) ? r.Of<uint64_t>({0, 9}) : r.Below(10));
            }
            return v;
        }
        if (s.Format == Float && r.Chance(70)) {
            float f;
            switch (r.Below(4)) {
                case 0:
                    f = r.Range(-100000, 100000) / 100.0;
                    break;
                case 1:
                    f = r.Unit() * std::pow(10.0, r.Range(-30, 30));
                    break;
                case 2:
                    f = r.Of({0.0f, -0.0f, INFINITY, -INFINITY, NAN, 3.4e38f, 1e-40f, 1.17549435e-38f});
                    break;
                default:
                    f = r.Range(-1000, 1000);
            }
            uint32_t u;
            memcpy(&u, &f, 4);
            return u;
        }
        if (s.Format == Double && r.Chance(70)) {
            double f;
            switch (r.Below(4)) {
                case 0:
                    f = r.Range(-100000000, 100000000) / 1000.0;
                    break;
                case 1:
                    f = r.Unit() * std::pow(10.0, r.Range(-200, 200));
                    break;
                case 2:
                    f = r.Of({0.0, -0.0, double(INFINITY), -double(INFINITY), double(NAN), 1.7e308, 5e-324});
                    break;
                default:
                    f = r.Range(-1000, 1000);
            }
            uint64_t u;
            memcpy(&u, &f, 8);
            return u;
        }
        if (r.Chance(30)) {
            // extremes
            uint64_t top = 1ull << (bits - 1);
            return r.Of<uint64_t>({0, 1, top, top - 1, top + 1, Mask(bits), Mask(bits) - 1, 127, 128, 255, 256, 0x7fff,
                                   0x8000, 0xffff, 0x10000, 0xabcdef}) &
                   Mask(bits);
        }
        return r.Next() >> r.Below(bits) & Mask(bits);
    }

    PRegisterConfig Config(const TSpec& s, int type, uint32_t addr)
    {
        TRegisterDesc d;
        d.Address = std::make_shared<TUint32RegisterAddress>(addr);
        d.WriteAddress = d.Address;
        d.DataOffset = s.BitOffset;
        d.DataWidth = s.IsString() ? s.StringSize * 8 : s.BitWidth;
        return TRegisterConfig::Create(type,
                                       d,
                                       s.Format,
                                       s.Scale,
                                       s.Offset,
                                       s.Round,
                                       TRegisterConfig::TSporadicMode::DISABLED,
                                       false,
                                       "holding",
                                       s.WordLE ? EWordOrder::LittleEndian : EWordOrder::BigEndian,
                                       s.ByteLE ? EByteOrder::LittleEndian : EByteOrder::BigEndian);
    }

    struct TBench
    {
        PSimPort Port = std::make_shared<TSimPort>("p");
        PModbusBus Bus = std::make_shared<TModbusBus>();
        PModbusSlave Slave = Bus->Add(1);
        Modbus::TModbusRTUTraits Traits;
        TBench()
        {
            Port->Wire = Bus;
            Port->Open();
        }
        std::vector<uint16_t> Words(uint32_t addr, unsigned n)
        {
            std::vector<uint16_t> w;
            for (unsigned i = 0; i < n; ++i) {
                w.push_back(Slave->Get(EType::HOLDING, addr + i));
            }
            return w;
        }
    };

    std::string GenString(Rng& r, const TSpec& s, bool full)
    {
        size_t cap = s.StringSize * (s.Format == String8 ? 2 : 1);
        size_t n = full ? cap - (s.Format == String8 ? r.Below(2) : 0) : r.Below(cap + 1);
        std::string t;
        for (size_t i = 0; i < n; ++i) {
            t += r.Chance(70) ? char(r.Range(32, 126)) : char(r.Range(1, 254));
        }
        return t;
    }

    std::string ShowWords(const std::vector<uint16_t>& w)
    {
        std::ostringstream s;
        for (auto x: w) {
            s << std::hex << ' ' << x;
        }
        return s.str();
    }

    void ReadCase(Rng& r)
    {
        TBench b;
        auto s = GenSpec(r);
        uint32_t addr = r.Below(2) ? r.Below(100) : 65000 + r.Below(100);
        auto n = s.Words();
        for (unsigned i = 0; i < n; ++i) {
            b.Slave->Set(EType::HOLDING, addr + i, r.Next());
        }
        if (!s.IsString()) {
            auto w = Insert(s, b.Words(addr, n), GenRaw(r, s));
            for (unsigned i = 0; i < n; ++i) {
                b.Slave->Set(EType::HOLDING, addr + i, w[i]);
            }
        } else if (r.Chance(70)) {
            for (unsigned i = 0; i < n; ++i) {
                b.Slave->Set(EType::HOLDING, addr + i, r.Range(32, 126) << (s.ByteLE ? 8 : 0) | (s.Format == String8 ? r.Range(32, 126) << (s.ByteLE ? 0 : 8) : 0));
            }
        }
        auto cfg = Config(s, Modbus::REG_HOLDING, addr);
        auto want = Decode(s, b.Words(addr, n));
        MON_EXPECT(cfg->Get16BitWidth() == n, "width", s.Str() << ": " << int(cfg->Get16BitWidth()) << " for " << n);
        try {
            auto v = Modbus::ReadRegister(b.Traits, *b.Port, 1, *cfg, microseconds(0), RT, FT);
            auto text = ConvertFromRawValue(*cfg, v);
            mon::Count("reads");
            MON_EXPECT(want.Matches(text),
                       std::string("read:") + FormatName(s.Format),
                       s.Str() << " words" << ShowWords(b.Words(addr, n)) << " published " << mon::Quote(text) << " expected "
                               << want.Str());
            mon::Distinct(s.Str() + text);
            mon::Sample(s.Str() + ShowWords(b.Words(addr, n)) + " -> " + mon::Quote(text));
        } catch (const std::exception& e) {
            mon::Violation(std::string("read-failed:") + FormatName(s.Format), s.Str() + ": " + e.what());
        }
    }

    std::string Digits15(long double v)
    {
        char buf[64];
        snprintf(buf, sizeof(buf), "%.15g", double(v));
        return buf;
    }

    void WriteCase(Rng& r)
    {
        TBench b;
        auto s = GenSpec(r);
        int type = r.Chance(70) || s.WordLE ? Modbus::REG_HOLDING : r.Of({int(Modbus::REG_HOLDING_SINGLE), int(Modbus::REG_HOLDING_MULTI)});
        if (s.IsString()) {
            type = r.Chance(50) && s.StringSize > 1 ? Modbus::REG_HOLDING : Modbus::REG_HOLDING_MULTI;
        }
        uint32_t addr = r.Below(2) ? r.Below(100) : 65000 + r.Below(100);
        auto n = s.Words();
        auto cfg = Config(s, type, addr);
        for (unsigned i = 0; i <= n + 1; ++i) {
            b.Slave->Set(EType::HOLDING, addr + i, r.Next());
        }
        auto before = b.Words(addr, n);
        uint16_t after1 = b.Slave->Get(EType::HOLDING, addr + n);
        std::string text;
        bool shortStr = false;
        if (s.IsString()) {
            bool full = r.Chance(50);
            text = GenString(r, s, full);
            size_t cap = s.StringSize * (s.Format == String8 ? 2 : 1);
            size_t used = s.Format == String8 ? (text.size() + 1) / 2 : text.size();
            shortStr = used < s.StringSize;
            if (r.Chance(50) && shortStr) {
                // a terminator is in place already
                for (unsigned i = 0; i < n; ++i) {
                    b.Slave->Set(EType::HOLDING, addr + i, 0);
                }
                before = b.Words(addr, n);
            }
        } else if (s.Format == Char8) {
            text = std::string(1, char(r.Byte()));
        } else {
            auto raw = GenRaw(r, s);
            if ((s.Scale != 1 || s.Offset != 0 || s.Round != 0) && !s.IsFloat()) {
                // values a double holds exactly
                auto i = Integer(s, raw);
                if (*i > 1000000000000ll || *i < -1000000000000ll) {
                    raw &= 0xffffffff;
                }
            }
            auto v = Decode(s, OrderWords(s, raw, n));
            if (v.NaN || v.Inf || v.Any) {
                return;
            }
            if (v.Text) {
                text = *v.Text;
                auto i = Integer(s, raw);
                if (r.Chance(20) && *i >= 0) {
                    std::ostringstream h;
                    h << (r.Chance(50) ? "0x" : "0X") << std::hex << uint64_t(*i);
                    text = h.str();
                } else if (r.Chance(10) && *i < 1000000000 && *i > -1000000000) {
                    text += r.Of<const char*>({".0", ".25", "e0", ".4"});
                }
            } else {
                // a rounded value that overflows the format cannot be represented
                text = Digits15(v.Number);
                long double back = (strtold(text.c_str(), nullptr) - (long double)s.Offset) / s.Scale;
                if (!s.IsFloat()) {
                    long double lo = s.IsSigned() ? -std::ldexp(1.0L, s.FormatBits() - 1) : 0;
                    long double hi = s.IsSigned() ? std::ldexp(1.0L, s.FormatBits() - 1) - 1 : std::ldexp(1.0L, s.FormatBits()) - 1;
                    if (s.IsBcd()) {
                        hi = std::pow(10.0L, s.FormatBits() / 4) - 1;
                    }
                    if (back < lo - 0.49L || back > hi + 0.49L || std::fabs(back) > 4e15L) {
                        return;
                    }
                } else if (std::fabs(back) > 3e38L && s.Format == Float || std::fabs(back) < 1e-37L && back != 0) {
                    return;
                } else if (s.Offset != 0 && std::fabs(back) < std::fabs(s.Offset / s.Scale) * 1e-6L) {
                    return; // the text does not carry enough digits of the value
                }
            }
        }
        std::string show = s.Str() + " type " + std::to_string(type) + " text " + mon::Quote(text);
        TRegisterValue raw;
        try {
            raw = ConvertToRawValue(*cfg, text);
        } catch (const std::exception& e) {
            mon::Violation(std::string("write-refused:") + FormatName(s.Format), show + ": " + e.what());
            return;
        }
        Modbus::TRegisterCache cache;
        try {
            Modbus::WriteRegister(b.Traits, *b.Port, 1, *cfg, raw, cache, microseconds(0), RT, FT);
        } catch (const std::exception& e) {
            mon::Violation(std::string("write-failed:") + FormatName(s.Format), show + ": " + e.what());
            return;
        }
        mon::Count("writes");
        auto now = b.Words(addr, n);
        MON_EXPECT(b.Slave->Get(EType::HOLDING, addr + n) == after1, "write-beyond", show);
        auto got = Decode(s, now);
        std::string detail = show + " words" + ShowWords(now);
        if (s.IsString()) {
            if (shortStr) {
                // Known: only as many words as the text has are written, from the first address on
                size_t used = std::max<size_t>(1, s.Format == String8 ? (text.size() + 1) / 2 : text.size());
                auto known = before;
                for (size_t i = 0; i < used; ++i) {
                    auto ch = [&](size_t k) { return k < text.size() ? uint8_t(text[k]) : 0; };
                    uint16_t w = s.Format == String8 ? ch(2 * i) << 8 | ch(2 * i + 1) : ch(i);
                    known[s.WordLE ? used - 1 - i : i] = s.ByteLE ? w >> 8 | w << 8 : w;
                }
                std::string key = now != known ? std::string("write-short:") + FormatName(s.Format)
                                  : s.WordLE ? "write:short-string-le" : "write:short-string-tail";
                MON_EXPECT(*got.Text == text, key, detail);
            } else {
                MON_EXPECT(*got.Text == text, std::string("write:") + FormatName(s.Format), detail);
            }
        } else if (s.Format == Char8) {
            MON_EXPECT(*got.Text == text, "write:char8", detail);
        } else {
            long double want;
            if (text.size() > 1 && (text[1] == 'x' || text[1] == 'X')) {
                want = strtoull(text.c_str() + 2, nullptr, 16);
                MON_EXPECT(*got.Text == Dec(strtoull(text.c_str() + 2, nullptr, 16)), std::string("write-hex:") + FormatName(s.Format), detail);
            } else if (got.Text && text.find_first_of(".e") == std::string::npos) {
                MON_EXPECT(*got.Text == text, std::string("write:") + FormatName(s.Format), detail);
            } else {
                want = strtold(text.c_str(), nullptr);
                long double have = got.Text ? strtold(got.Text->c_str(), nullptr) : got.Number;
                long double tol = (s.Format == Float ? 6e-7L : 1e-13L) * (std::fabs(want) + std::fabs((long double)s.Offset));
                if (got.Text) {
                    tol = 0.5L; // the fraction is rounded
                }
                tol += got.Text ? 0 : got.Tolerance;
                MON_EXPECT(std::fabs(want - have) <= tol, std::string("write:") + FormatName(s.Format), detail << " reads back " << got.Str());
            }
        }
        // and what the program itself reads back
        try {
            auto v = Modbus::ReadRegister(b.Traits, *b.Port, 1, *cfg, microseconds(0), RT, FT);
            auto back = ConvertFromRawValue(*cfg, v);
            MON_EXPECT(got.Matches(back), std::string("read-back:") + FormatName(s.Format), detail << " reads " << mon::Quote(back));
        } catch (const std::exception& e) {
            mon::Violation("read-back-failed", show + ": " + e.what());
        }
        mon::Distinct(show);
    }

    void Case(Rng& r, uint64_t)
    {
        Reset();
        for (int i = 0; i < 150; ++i) {
            ReadCase(r);
            WriteCase(r);
        }
    }
    MON_CHECK("V01", Case);
}
