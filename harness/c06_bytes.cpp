// C06: byte stuffing, integer packing, CRC-16 and packed decimal against their definitions.
#include "bcd_utils.h"
#include "bin_utils.h"
#include "crc16.h"
#include "mon.h"
#include <algorithm>

using mon::Rng;
using namespace BinUtils;

namespace
{
    using TBytes = std::vector<uint8_t>;
    using TRules = std::unordered_map<uint8_t, TBytes>;

    // A usable table: every sequence starts with an escape byte that is escaped itself, sequences are unique and no
    // sequence starts another, delimiters appear in no sequence
    TRules GenRules(Rng& r)
    {
        if (r.Chance(40)) {
            return {{0xc0, {0xdb, 0xdc}}, {0xdb, {0xdb, 0xdd}}};
        }
        TRules rules;
        uint8_t esc = r.Byte();
        std::vector<uint8_t> specials;
        size_t n = 1 + r.Below(4);
        while (specials.size() < n) {
            uint8_t b = r.Byte();
            if (b != esc && std::find(specials.begin(), specials.end(), b) == specials.end()) {
                specials.push_back(b);
            }
        }
        specials.push_back(esc);
        std::vector<uint8_t> used;
        size_t len = 1 + r.Below(2);
        for (auto s: specials) {
            uint8_t code;
            do {
                code = r.Byte();
            } while (std::find(specials.begin(), specials.end(), code) != specials.end() ||
                     std::find(used.begin(), used.end(), code) != used.end());
            used.push_back(code);
            TBytes seq{esc, code};
            if (len > 1) {
                uint8_t tail;
                do {
                    tail = r.Byte();
                } while (std::find(specials.begin(), specials.end(), tail) != specials.end());
                seq.push_back(tail);
            }
            rules[s] = seq;
        }
        return rules;
    }

    // Decoding by definition: left to right, an escape sequence stands for its byte
    TBytes RefDecode(const TBytes& d, const TRules& rules)
    {
        TBytes res;
        for (size_t i = 0; i < d.size();) {
            bool hit = false;
            for (auto& [b, seq]: rules) {
                if (d.size() - i >= seq.size() && std::equal(seq.begin(), seq.end(), d.begin() + i)) {
                    res.push_back(b);
                    i += seq.size();
                    hit = true;
                    break;
                }
            }
            if (!hit) {
                res.push_back(d[i++]);
            }
        }
        return res;
    }

    TBytes GenData(Rng& r, const TRules& rules, size_t max)
    {
        TBytes d(r.Below(max));
        for (auto& b: d) {
            if (r.Chance(50)) {
                auto it = rules.begin();
                std::advance(it, r.Below(rules.size()));
                b = r.Chance(50) ? it->first : r.Pick(it->second);
            } else {
                b = r.Byte();
            }
        }
        return d;
    }

    void Stuffing(Rng& r)
    {
        auto rules = GenRules(r);
        auto data = GenData(r, rules, 40);
        uint8_t esc = rules.begin()->second[0];
        TBytes enc;
        ApplyByteStuffing(data, rules, std::back_inserter(enc));
        auto d = mon::Hex(data) + " -> " + mon::Hex(enc);
        size_t expected = 0;
        for (auto b: data) {
            expected += rules.count(b) ? rules[b].size() : 1;
        }
        MON_EXPECT(enc.size() == expected, "stuffed-size", d);
        for (auto& [b, seq]: rules) {
            if (b != esc) {
                MON_EXPECT(std::find(enc.begin(), enc.end(), b) == enc.end(), "bare-delimiter", d);
            }
        }
        auto dec = enc;
        DecodeByteStuffing(dec, rules);
        MON_EXPECT(dec == data, "stuffing-round-trip", d << " -> " << mon::Hex(dec));
        mon::Count("stuffed");
        if (enc.size() > data.size()) {
            mon::Distinct(mon::Hex(enc));
            mon::Sample(d);
        }
        // the same with delimiters around, as on the wire
        for (auto& [b, seq]: rules) {
            if (b == esc) {
                continue;
            }
            TBytes frame{b};
            frame.insert(frame.end(), enc.begin(), enc.end());
            frame.push_back(b);
            DecodeByteStuffing(frame, rules);
            TBytes e{b};
            e.insert(e.end(), data.begin(), data.end());
            e.push_back(b);
            MON_EXPECT(frame == e, "frame-round-trip", d);
        }
        // any bytes, in a heap block of exact size so that a read past the end is seen
        auto junk = GenData(r, rules, 30);
        if (!junk.empty() && r.Chance(50)) {
            junk.back() = esc;
        }
        TBytes j2(junk.begin(), junk.end());
        j2.shrink_to_fit();
        auto ref = RefDecode(junk, rules);
        DecodeByteStuffing(j2, rules);
        MON_EXPECT(j2 == ref, "decode-any", mon::Hex(junk) << " -> " << mon::Hex(j2));
        mon::Count("decoded-any");
    }

    template<class T> void Packing(Rng& r)
    {
        T v = T(r.Chance(30) ? r.Of<uint64_t>({0, 1, 0x7f, 0x80, 0xff, 0x8000, 0xffff, 0x80000000, 0xffffffff, ~0ull, 1ull << 63})
                             : r.Next());
        uint64_t u = uint64_t(v);
        for (size_t n = 1; n <= sizeof(T); ++n) {
            TBytes le{0xAA}, be{0xBB};
            Append(std::back_inserter(le), v, n);
            AppendBigEndian(std::back_inserter(be), v, n);
            auto d = std::to_string(u) + " in " + std::to_string(n) + " bytes: le " + mon::Hex(le) + " be " + mon::Hex(be);
            bool ok = le.size() == n + 1 && be.size() == n + 1 && le[0] == 0xAA && be[0] == 0xBB;
            for (size_t i = 0; ok && i < n; ++i) {
                ok = le[1 + i] == uint8_t(u >> (8 * i)) && be[n - i] == uint8_t(u >> (8 * i));
            }
            MON_EXPECT(ok, "packing", d);
            if (!ok) {
                return;
            }
            uint64_t mask = n == 8 ? ~0ull : (1ull << (8 * n)) - 1;
            // exact heap blocks
            TBytes l(le.begin() + 1, le.end()), b(be.begin() + 1, be.end());
            l.shrink_to_fit();
            b.shrink_to_fit();
            MON_EXPECT((Get<uint64_t>(l.begin(), l.end())) == (u & mask), "unpack-le", d);
            MON_EXPECT((GetBigEndian<uint64_t>(b.begin(), b.end())) == (u & mask), "unpack-be", d);
            if (n == sizeof(T)) {
                MON_EXPECT((GetFrom<T>(l.begin())) == v, "round-trip-le", d);
                MON_EXPECT((GetFromBigEndian<T>(b.begin())) == v, "round-trip-be", d);
            }
            mon::Count("packed");
        }
        TBytes dl;
        Append(std::back_inserter(dl), v);
        MON_EXPECT(dl.size() == sizeof(T), "default-width", "");
    }

    uint16_t RefCrc(const uint8_t* p, size_t n)
    {
        uint16_t c = 0xffff;
        for (size_t i = 0; i < n; ++i) {
            c ^= p[i];
            for (int k = 0; k < 8; ++k) {
                c = (c & 1) ? (c >> 1) ^ 0xA001 : c >> 1;
            }
        }
        return uint16_t(c << 8 | c >> 8); // the program keeps the first sent byte high
    }

    void Crc(Rng& r)
    {
        auto d = r.Bytes(r.Chance(5) ? r.Below(5000) : r.Below(64));
        d.shrink_to_fit();
        auto c = CRC16::CalculateCRC16(d.data(), d.size());
        MON_EXPECT(c == RefCrc(d.data(), d.size()), "crc16", mon::Hex(d) << " got " << c);
        mon::Count("crc");
    }

    void Bcd(Rng& r)
    {
        auto size = r.Of({WordSizes::W8_SZ, WordSizes::W16_SZ, WordSizes::W24_SZ, WordSizes::W32_SZ});
        unsigned n = unsigned(size);
        uint64_t m = 1;
        for (unsigned i = 0; i < 2 * n; ++i) {
            m *= 10;
        }
        uint64_t v = r.Chance(20) ? r.Of<uint64_t>({0, 9, 10, 99, m - 1, m / 10}) % m : r.Below(m);
        uint64_t packed = 0, t = v;
        for (unsigned i = 0; i < 2 * n; ++i, t /= 10) {
            packed |= (t % 10) << (4 * i);
        }
        auto d = std::to_string(v) + " in " + std::to_string(n) + " bytes";
        MON_EXPECT(IntToPackedBCD(v, size) == packed, "int-to-bcd", d << " got " << IntToPackedBCD(v, size));
        MON_EXPECT(PackedBCD2Int(packed, size) == v, "bcd-to-int", d << " got " << PackedBCD2Int(packed, size));
        // bytes above the requested size do not matter
        uint64_t noise = r.Next() << (8 * n);
        MON_EXPECT(PackedBCD2Int(packed | noise, size) == v, "bcd-upper-bytes", d);
        auto arr = IntToBCDArray(v, size);
        bool ok = arr.size() == n;
        for (unsigned i = 0; ok && i < n; ++i) {
            ok = arr[i] == uint8_t(packed >> (8 * (n - 1 - i)));
        }
        MON_EXPECT(ok, "bcd-array", d << " got " << mon::Hex(arr));
        TBytes raw = r.Bytes(n);
        raw.shrink_to_fit();
        uint32_t e = 0;
        for (auto b: raw) {
            e = e << 8 | b;
        }
        MON_EXPECT(PackBytes(raw.data(), size) == e, "pack-bytes", mon::Hex(raw));
        mon::Count("bcd");
    }

    void Case(Rng& r, uint64_t n)
    {
        if (n == 0) {
            for (int k = 0; k < 256; ++k) {
                uint64_t e = k >= 64 ? ~0ull : (1ull << k) - 1;
                MON_EXPECT(GetLSBMask(k) == e, "lsb-mask", k);
            }
            for (int v = 0; v < 65536; ++v) {
                uint8_t b[4] = {0xEE, 0, 0, 0xEE};
                WriteAs2Bytes(b + 1, v);
                MON_EXPECT(b[0] == 0xEE && b[3] == 0xEE && b[1] == v >> 8 && b[2] == (v & 255), "write-as-2-bytes", v);
            }
            for (int v = 0; v < 10000; ++v) {
                MON_EXPECT(int(PackedBCD2Int(IntToPackedBCD(v, WordSizes::W16_SZ), WordSizes::W16_SZ)) == v, "bcd-round-trip", v);
            }
        }
        for (int i = 0; i < 200; ++i) {
            Stuffing(r);
            Packing<uint8_t>(r);
            Packing<uint16_t>(r);
            Packing<uint32_t>(r);
            Packing<uint64_t>(r);
            Packing<int16_t>(r);
            Packing<int32_t>(r);
            Packing<int64_t>(r);
            Crc(r);
            Bcd(r);
        }
    }
    MON_CHECK("C06", Case);
}
