// Meters and other devices with binary protocols
#pragma once
#include "drv.h"

namespace drv
{
    inline std::string Fmt(const char* f, ...)
    {
        char b[512];
        va_list a;
        va_start(a, f);
        vsnprintf(b, sizeof(b), f, a);
        va_end(a);
        return b;
    }
    inline void Crc(TBytes& f) // the low byte is sent first
    {
        auto c = Crc16(f.data(), f.size());
        f.push_back(uint8_t(c));
        f.push_back(uint8_t(c >> 8));
    }
    inline void SealCrc(TBytes& f)
    {
        if (f.size() > 2) {
            f.resize(f.size() - 2);
            Crc(f);
        }
    }
    inline bool CrcOk(const TBytes& f)
    {
        if (f.size() < 3) {
            return false;
        }
        TBytes g(f.begin(), f.end() - 2);
        Crc(g);
        return g == f;
    }
    inline int64_t SignExt(uint64_t v, int bits)
    {
        return bits >= 64 ? int64_t(v) : int64_t(v << (64 - bits)) >> (64 - bits);
    }

    // ------------------------------------------------------------------------------------------------- Mercury 230
    class TMercury230: public TDrv
    {
    public:
        uint8_t Id;
        int Level = 1;
        TBytes Password{1, 1, 1, 1, 1, 1};
        bool Session = false;
        std::map<int, std::array<uint32_t, 4>> Arrays;  // by array number and month, tariff
        std::map<int, std::array<uint8_t, 3>> Params;

        TMercury230(Rng& r): TDrv(r, "mercury230")
        {
            Id = uint8_t(r.Range(1, 240));
            Device = "\"slave_id\":\"" + std::to_string(Id) + "\"";
            ResizeRejected = true;
            if (r.Chance(50)) {
                Level = r.Of({1, 2});
                Device += ",\"access_level\":" + std::to_string(Level);
            }
            if (r.Chance(50)) {
                Password = r.Bytes(6);
                Device += ",\"password\":[";
                for (int i = 0; i < 6; ++i) {
                    Device += (i ? "," : "") + std::to_string(Password[i]);
                }
                Device += "]";
            }
            int n = r.Range(3, 8);
            for (int i = 0; i < n; ++i) {
                TChan c;
                c.Name = "c" + std::to_string(i);
                if (r.Chance(50)) {
                    bool three = r.Chance(40);
                    int array = r.Range(0, 15), month = r.Range(0, 12), tariff = r.Range(0, 4), idx = r.Range(0, three ? 2 : 3);
                    int key = tariff << 8 | array << 4 | month;
                    if (SizeOf.count(key) && SizeOf[key] != (three ? 3 : 4)) {
                        continue;
                    }
                    SizeOf[key] = three ? 3 : 4;
                    Arrays[key];
                    bool sign = r.Chance(20);
                    c.Json = Fmt("\"reg_type\":\"%s\",\"address\":\"0x%x\"%s", three ? "array12" : "array", key << 4 | idx, sign ? ",\"format\":\"s32\"" : "");
                    c.Exp = [this, key, idx, sign] {
                        auto v = Arrays[key][idx];
                        return sign ? TExp::Int(int32_t(v)) : TExp::Uint(v);
                    };
                } else {
                    int kind = r.Below(5);
                    const char* types[] = {"param", "param_sign_active", "param_sign_reactive", "param_sign_ignore", "param_be"};
                    int key = r.Range(0, 255) << 8 | r.Range(0, 255);
                    bool two = (kind == 0 || kind == 4) && r.Chance(60);
                    if (SizeOf.count(0x10000 + key) && SizeOf[0x10000 + key] != (two ? 2 : 3)) {
                        continue;
                    }
                    SizeOf[0x10000 + key] = two ? 2 : 3;
                    Params[key];
                    bool sign = r.Chance(50);
                    std::string fmt = (sign ? "s" : "u") + std::string(two ? "16" : "24");
                    if (kind == 1 || kind == 2) {
                        fmt = "s24";
                        sign = true;
                    }
                    c.Json = Fmt("\"reg_type\":\"%s\",\"address\":\"0x%x\",\"format\":\"%s\"", types[kind], key, fmt.c_str());
                    c.Exp = [this, key, kind, two, sign] {
                        auto& b = Params[key];
                        if (two) {
                            uint32_t v = kind == 4 ? b[0] * 256u + b[1] : b[1] * 256u + b[0];
                            return TExp::Int(sign ? SignExt(v, 16) : v);
                        }
                        int64_t v = int64_t(b[0]) * 65536 + b[2] * 256 + b[1];
                        if (kind >= 1 && kind <= 3) {
                            v &= 0x3fffff;
                            if ((kind == 1 && (b[0] & 0x80)) || (kind == 2 && (b[0] & 0x40))) {
                                v = -v;
                            }
                            return TExp::Int(v);
                        }
                        return TExp::Int(sign ? SignExt(v, 24) : v);
                    };
                }
                Chans.push_back(c);
            }
        }
        std::map<int, int> SizeOf;
        void Randomize() override
        {
            for (auto& a: Arrays) {
                for (auto& v: a.second) {
                    v = R.Chance(20) ? R.Of<uint32_t>({0, 0xffffffffu, 1, 0x80000000u}) : uint32_t(R.Next());
                }
            }
            for (auto& a: Params) {
                for (auto& v: a.second) {
                    v = R.Chance(20) ? R.Of<int>({0, 255, 0x80, 0x7f}) : R.Byte();
                }
            }
        }
        void Restart() override
        {
            Session = false;
        }
        void Seal(TBytes& f) override
        {
            SealCrc(f);
        }
        std::vector<size_t> Header(const TBytes&) override
        {
            return {0};
        }
        TBytes ErrorAnswer() override
        {
            TBytes f{Id, uint8_t(R.Byte() & 0xf0)};
            f[1] |= R.Of<int>({1, 2, 3, 4, 6, 9, 15});
            if ((f[1] & 0xf) == 1) {
                f[1] ^= 3; // a permanent error excludes the register
            }
            Crc(f);
            return f;
        }
        TBytes Special(const TBytes& f) override
        {
            TBytes x{Id, uint8_t(R.Below(16))};
            if (R.Chance(30)) {
                x = f;
                x[1] = R.Byte();
            }
            x.resize(x.size() + (R.Chance(80) ? 2 : R.Below(5)));
            return x;
        }
        void Request(TSimPort& port, const TBytes& d) override
        {
            if (!CrcOk(d) || d.size() < 4) {
                return Bad(d, "checksum");
            }
            if (d[0] != Id) {
                return Bad(d, "another address");
            }
            TBytes a{Id};
            if (d[1] == 1) {
                if (d.size() != 11 || d[2] != Level || !std::equal(Password.begin(), Password.end(), d.begin() + 3)) {
                    return Bad(d, "session open");
                }
                Session = true;
                a.push_back(0);
                Crc(a);
                mon::Count("sessions");
                return Send(port, a, false);
            }
            if (!Session || NeverSession) {
                Session = false;
                a.push_back(5);
                Crc(a);
                mon::Count("no-session");
                return Send(port, a, false);
            }
            if (d.size() != 6) {
                return Bad(d, "length");
            }
            if (d[1] == 5) {
                int key = (d[3] << 8) | d[2];
                if (!Arrays.count(key)) {
                    return Bad(d, "unknown array");
                }
                for (int i = 0; i < SizeOf[key]; ++i) {
                    auto v = Arrays[key][i];
                    for (int sh: {16, 24, 0, 8}) {
                        a.push_back(uint8_t(v >> sh));
                    }
                }
            } else if (d[1] == 8) {
                int key = d[2] << 8 | d[3];
                if (!Params.count(key)) {
                    return Bad(d, "unknown parameter");
                }
                for (int i = 0; i < SizeOf[0x10000 + key]; ++i) {
                    a.push_back(Params[key][i]);
                }
            } else {
                return Bad(d, "unknown command");
            }
            Crc(a);
            Send(port, a, true);
        }
    };

    // ------------------------------------------------------------------------------------------------------- Milur
    class TMilur: public TDrv
    {
    public:
        uint32_t Id;
        TBytes IdBytes;
        int Level = 1;
        TBytes Password{255, 255, 255, 255, 255, 255};
        bool Session = false;
        std::map<uint8_t, TBytes> Mem;

        TMilur(Rng& r): TDrv(r, "milur")
        {
            ResizeRejected = true;
            Id = r.Chance(50) ? r.Range(1, 255) : uint32_t(r.Range(256, 99999999));
            for (int i = 0; i < (Id > 255 ? 4 : 1); ++i) {
                IdBytes.push_back(uint8_t(Id >> (8 * i)));
            }
            Device = "\"slave_id\":\"" + std::to_string(Id) + "\"";
            if (r.Chance(50)) {
                Level = r.Of({1, 2});
                Device += ",\"access_level\":" + std::to_string(Level);
            }
            if (r.Chance(50)) {
                Password = r.Bytes(6);
                Device += ",\"password\":[";
                for (int i = 0; i < 6; ++i) {
                    Device += (i ? "," : "") + std::to_string(Password[i]);
                }
                Device += "]";
            }
            for (int i = r.Range(2, 6); i > 0; --i) {
                uint8_t addr = r.Byte();
                if (Mem.count(addr)) {
                    continue;
                }
                int kind = r.Below(5);
                const char* types[] = {"param", "power", "energy", "freq", "power_factor"};
                int size = std::array<int, 5>{3, 4, 4, 2, 2}[kind];
                Mem[addr] = TBytes(size);
                IsBcd[addr] = kind == 2;
                TChan c;
                c.Name = Fmt("c%d", addr);
                c.Json = Fmt("\"reg_type\":\"%s\",\"address\":%d", types[kind], addr);
                c.Exp = [this, addr, kind, size] {
                    uint64_t v = 0;
                    auto& m = Mem[addr];
                    for (int i = size - 1; i >= 0; --i) {
                        v = kind == 2 ? v * 100 + (m[i] & 15) * 10 + (m[i] >> 4) : v * 256 + m[i];
                    }
                    return kind == 1 || kind == 4 ? TExp::Int(SignExt(v, size * 8)) : TExp::Uint(v);
                };
                Chans.push_back(c);
            }
        }
        std::map<uint8_t, bool> IsBcd;
        void Randomize() override
        {
            for (auto& m: Mem) {
                for (auto& b: m.second) {
                    b = IsBcd[m.first] ? uint8_t(R.Below(10) * 16 + R.Below(10)) : R.Chance(20) ? R.Of<int>({0, 255, 128}) : R.Byte();
                }
            }
        }
        void Restart() override
        {
            Session = false;
        }
        void Seal(TBytes& f) override
        {
            SealCrc(f);
        }
        std::vector<size_t> Header(const TBytes&) override
        {
            std::vector<size_t> h;
            for (size_t i = 0; i < IdBytes.size() + 3; ++i) {
                h.push_back(i);
            }
            return h;
        }
        TBytes Exception(int code)
        {
            TBytes f = IdBytes;
            f.push_back(0x81);
            f.push_back(uint8_t(code));
            f.push_back(R.Byte());
            Crc(f);
            return f;
        }
        TBytes ErrorAnswer() override
        {
            return Exception(R.Of({1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 77}));
        }
        TBytes Special(const TBytes& f) override
        {
            TBytes x = Exception(R.Byte());
            if (R.Chance(30)) {
                x = f;
                x[IdBytes.size() + R.Below(3)] = R.Byte();
            }
            if (R.Chance(30)) {
                x.resize(x.size() + R.Below(4));
            }
            return x;
        }
        void Request(TSimPort& port, const TBytes& d) override
        {
            if (d == TBytes{0xFF}) {
                return; // wakes the device up
            }
            size_t w = IdBytes.size();
            if (!CrcOk(d) || d.size() < w + 3) {
                return Bad(d, "checksum");
            }
            if (!std::equal(IdBytes.begin(), IdBytes.end(), d.begin())) {
                return Bad(d, "another address");
            }
            TBytes a = IdBytes;
            if (d[w] == 8) {
                if (d.size() != w + 10 || d[w + 1] != Level || !std::equal(Password.begin(), Password.end(), d.begin() + w + 2)) {
                    return Bad(d, "session open");
                }
                Session = true;
                a.push_back(8);
                a.push_back(uint8_t(Level));
                Crc(a);
                mon::Count("sessions");
                return Send(port, a, false);
            }
            if (!Session || NeverSession) {
                Session = false;
                mon::Count("no-session");
                return Send(port, Exception(8), false);
            }
            if (d.size() != w + 4 || d[w] != 1 || !Mem.count(d[w + 1])) {
                return Bad(d, "unknown request");
            }
            a.push_back(1);
            a.push_back(d[w + 1]);
            auto& m = Mem[d[w + 1]];
            a.push_back(uint8_t(m.size()));
            a.insert(a.end(), m.begin(), m.end());
            Crc(a);
            Send(port, a, true);
        }
    };

    // ------------------------------------------------------------------------------------------------- Mercury 200
    class TMercury200: public TDrv
    {
    public:
        uint32_t Id;
        std::map<uint8_t, TBytes> Mem;
        TMercury200(Rng& r): TDrv(r, "mercury200")
        {
            Id = uint32_t(r.Chance(70) ? r.Range(1, 99999999) : r.Next() & 0xffffffff);
            Device = "\"slave_id\":\"" + std::to_string(Id) + "\"";
            for (int i = r.Range(2, 6); i > 0; --i) {
                uint8_t cmd = uint8_t(r.Of({0x27, 0x63, 0x21, 0x28, 0x81, 0x2f}));
                int size = r.Range(1, 4);
                auto& m = Mem[cmd];
                if (m.empty()) {
                    m.resize(r.Range(4, 16));
                }
                int off = r.Below(std::min<int>(m.size() - size + 1, size * 8));
                const char* types[] = {"", "param8", "param16", "param24", "param32"};
                TChan c;
                c.Name = Fmt("c%d_%d_%d", cmd, off, size);
                if (!Names.insert(c.Name).second) {
                    continue;
                }
                c.Json = Fmt("\"reg_type\":\"%s\",\"address\":\"0x%x\"", types[size], cmd << 8 | off);
                c.Exp = [this, cmd, off, size] {
                    uint64_t v = 0;
                    for (int k = 0; k < size; ++k) {
                        auto b = Mem[cmd][off + k];
                        v = size == 1 ? b : v * 100 + (b >> 4) * 10 + (b & 15);
                    }
                    return TExp::Uint(v);
                };
                Chans.push_back(c);
            }
        }
        std::set<std::string> Names;
        void Randomize() override
        {
            for (auto& m: Mem) {
                for (auto& b: m.second) {
                    b = uint8_t(R.Below(10) * 16 + R.Below(10));
                }
            }
        }
        void Seal(TBytes& f) override
        {
            SealCrc(f);
        }
        std::vector<size_t> Header(const TBytes&) override
        {
            return {0, 1, 2, 3, 4};
        }
        void Request(TSimPort& port, const TBytes& d) override
        {
            if (d.size() != 7 || !CrcOk(d)) {
                return Bad(d, "length or checksum");
            }
            if ((uint32_t(d[0]) << 24 | d[1] << 16 | d[2] << 8 | d[3]) != Id || !Mem.count(d[4])) {
                return Bad(d, "address or command");
            }
            TBytes a(d.begin(), d.begin() + 5);
            a.insert(a.end(), Mem[d[4]].begin(), Mem[d[4]].end());
            Crc(a);
            Send(port, a, true);
        }
    };

    // ------------------------------------------------------------------------------------------------------ Pulsar
    class TPulsar: public TDrv
    {
    public:
        TBytes Id;
        std::map<int, TBytes> Mem; // by bit of the mask, -1 for the time
        TPulsar(Rng& r): TDrv(r, "pulsar")
        {
            ResizeRejected = true;
            uint32_t id = uint32_t(r.Range(1, 99999999));
            Device = "\"slave_id\":\"" + std::to_string(id) + "\"";
            for (int i = 0; i < 4; ++i) {
                Id.insert(Id.begin(), uint8_t(id % 10 | (id / 10 % 10) << 4));
                id /= 100;
            }
            for (int i = r.Range(2, 6); i > 0; --i) {
                int ch = r.Chance(15) ? -1 : r.Range(0, 31);
                if (Mem.count(ch)) {
                    continue;
                }
                TChan c;
                c.Name = Fmt("c%d", ch);
                int kind = r.Below(5);
                if (ch < 0) {
                    Mem[ch] = TBytes(6);
                    c.Json = "\"reg_type\":\"systime\",\"address\":0";
                    c.Exp = [this] {
                        uint64_t v = 0;
                        for (int k = 5; k >= 0; --k) {
                            v = v * 256 + Mem[-1][k];
                        }
                        return TExp::Uint(v);
                    };
                } else {
                    const char* fmts[] = {"double", "float", "u32", "u64", "s32"};
                    int size = std::array<int, 5>{8, 4, 4, 8, 4}[kind];
                    Mem[ch] = TBytes(size);
                    c.Json = Fmt("\"reg_type\":\"default\",\"address\":%d", ch) + (kind ? Fmt(",\"format\":\"%s\"", fmts[kind]) : "");
                    c.Exp = [this, ch, kind] {
                        auto& m = Mem[ch];
                        uint64_t v = 0;
                        for (int k = int(m.size()) - 1; k >= 0; --k) {
                            v = v * 256 + m[k];
                        }
                        if (kind == 0) {
                            double d;
                            memcpy(&d, &v, 8);
                            return TExp::Num(d);
                        }
                        if (kind == 1) {
                            float d;
                            memcpy(&d, &v, 4);
                            return TExp::Num(d);
                        }
                        return kind == 4 ? TExp::Int(int32_t(v)) : TExp::Uint(v);
                    };
                    Kind[ch] = kind;
                }
                Chans.push_back(c);
            }
        }
        std::map<int, int> Kind;
        void Randomize() override
        {
            for (auto& m: Mem) {
                for (auto& b: m.second) {
                    b = R.Byte();
                }
                if (m.first >= 0 && Kind[m.first] < 2) {
                    double d = R.Range(-1000000, 1000000) / double(R.Of({1, 10, 128, 1000}));
                    float f = float(d);
                    memcpy(m.second.data(), Kind[m.first] ? (void*)&f : (void*)&d, m.second.size());
                }
            }
        }
        void Seal(TBytes& f) override
        {
            SealCrc(f);
        }
        uint8_t HeaderByte(const TBytes&, size_t p) override
        {
            return p < 4 ? uint8_t(R.Below(10) << 4 | R.Below(10)) : R.Byte(); // a number is of decimal digits
        }
        std::vector<size_t> Header(const TBytes& f) override
        {
            return {0, 1, 2, 3, 5, f.size() - 4, f.size() - 3};
        }
        TBytes ErrorAnswer() override
        {
            TBytes f = Id;
            f.insert(f.end(), {0, 11, uint8_t(R.Range(1, 9)), LastId[0], LastId[1]});
            Crc(f);
            return f;
        }
        TBytes LastId{0, 0};
        void Request(TSimPort& port, const TBytes& d) override
        {
            if (d.size() < 10 || !CrcOk(d) || d[5] != d.size() || !std::equal(Id.begin(), Id.end(), d.begin())) {
                return Bad(d, "length, checksum or address");
            }
            int ch = -1;
            if (d.size() == 14 && d[4] == 1) {
                uint32_t mask = d[6] | d[7] << 8 | d[8] << 16 | uint32_t(d[9]) << 24;
                for (ch = 0; ch < 32 && mask != 1u << ch;) {
                    ++ch;
                }
            } else if (d.size() != 10 || (d[4] != 1 && d[4] != 4)) {
                return Bad(d, "unknown function");
            }
            if (!Mem.count(ch)) {
                return Bad(d, "unknown channel");
            }
            LastId = {d[d.size() - 4], d[d.size() - 3]};
            TBytes a(d.begin(), d.begin() + 5);
            a.push_back(uint8_t(Mem[ch].size() + 10));
            a.insert(a.end(), Mem[ch].begin(), Mem[ch].end());
            a.push_back(d[d.size() - 4]);
            a.push_back(d[d.size() - 3]);
            Crc(a);
            Send(port, a, true);
        }
    };

    // --------------------------------------------------------------------------------------------------------- LLS
    class TLls: public TDrv
    {
    public:
        uint8_t Id;
        std::map<uint8_t, TBytes> Mem;
        TLls(Rng& r): TDrv(r, "lls")
        {
            Id = r.Byte();
            Device = "\"slave_id\":\"" + std::to_string(Id) + "\"";
            for (int i = r.Range(2, 6); i > 0; --i) {
                uint8_t cmd = uint8_t(r.Of({6, 0x16, 0x56, 0x66}));
                auto& m = Mem[cmd];
                if (m.empty()) {
                    m.resize(r.Range(4, 16));
                }
                int kind = r.Below(7);
                const char* fmts[] = {"u8", "s8", "u16", "s16", "u32", "s32", "float"};
                int size = std::array<int, 7>{1, 1, 2, 2, 4, 4, 4}[kind];
                int off = r.Below(std::min<int>(m.size() - size + 1, size * 8)); // farther ones are refused by the program
                TChan c;
                c.Name = Fmt("c%d_%d_%d", cmd, off, kind);
                if (!Names.insert(c.Name).second) {
                    continue;
                }
                c.Json = Fmt("\"reg_type\":\"default\",\"address\":\"0x%x\",\"format\":\"%s\"", cmd << 8 | off, fmts[kind]);
                c.Exp = [this, cmd, off, size, kind] {
                    uint64_t v = 0;
                    for (int k = size - 1; k >= 0; --k) {
                        v = v * 256 + Mem[cmd][off + k];
                    }
                    if (kind == 6) {
                        float f;
                        memcpy(&f, &v, 4);
                        return TExp::Num(f);
                    }
                    return kind & 1 ? TExp::Int(SignExt(v, size * 8)) : TExp::Uint(v);
                };
                Chans.push_back(c);
            }
        }
        std::set<std::string> Names;
        void Randomize() override
        {
            for (auto& m: Mem) {
                for (auto& b: m.second) {
                    b = R.Chance(20) ? R.Of({0, 255, 128}) : R.Byte();
                    if (b == 0x7f || b == 0xff) {
                        b = 0x41; // floats stay finite
                    }
                }
            }
        }
        static uint8_t Crc8(const uint8_t* p, size_t n)
        {
            uint8_t c = 0;
            while (n--) {
                c ^= *p++;
                for (int i = 0; i < 8; ++i) {
                    c = c & 1 ? uint8_t(c >> 1 ^ 0x8C) : uint8_t(c >> 1);
                }
            }
            return c;
        }
        void Seal(TBytes& f) override
        {
            if (!f.empty()) {
                f.back() = Crc8(f.data(), f.size() - 1);
            }
        }
        std::vector<size_t> Header(const TBytes&) override
        {
            return {0, 1, 2};
        }
        void Request(TSimPort& port, const TBytes& d) override
        {
            if (d.size() != 4 || d[0] != 0x31 || d[1] != Id || d[3] != Crc8(d.data(), 3) || !Mem.count(d[2])) {
                return Bad(d, "request");
            }
            TBytes a{0x3E, Id, d[2]};
            a.insert(a.end(), Mem[d[2]].begin(), Mem[d[2]].end());
            a.push_back(Crc8(a.data(), a.size()));
            Send(port, a, true);
        }
    };

    // -------------------------------------------------------------------------------------------------------- IVTM
    class TIvtm: public TDrv
    {
    public:
        uint16_t Id;
        std::map<int, TBytes> Mem;
        TIvtm(Rng& r): TDrv(r, "ivtm")
        {
            ResizeRejected = true;
            Id = uint16_t(r.Range(1, 65535));
            Device = "\"slave_id\":\"" + std::to_string(Id) + "\"";
            for (int i = r.Range(2, 5); i > 0; --i) {
                int addr = r.Range(0, 65535);
                if (Mem.count(addr)) {
                    continue;
                }
                int kind = r.Below(6);
                const char* fmts[] = {"float", "u16", "s32", "u8", "u32", "double"};
                int size = std::array<int, 6>{4, 2, 4, 1, 4, 8}[kind];
                Mem[addr] = TBytes(size);
                TChan c;
                c.Name = Fmt("c%d", addr);
                c.Json = Fmt("\"reg_type\":\"default\",\"address\":%d,\"format\":\"%s\"", addr, fmts[kind]);
                c.Exp = [this, addr, size, kind] {
                    uint64_t v = 0;
                    for (int k = size - 1; k >= 0; --k) {
                        v = v * 256 + Mem[addr][k];
                    }
                    if (kind == 0) {
                        float f;
                        memcpy(&f, &v, 4);
                        return TExp::Num(f);
                    }
                    if (kind == 5) {
                        double f;
                        memcpy(&f, &v, 8);
                        return TExp::Num(f);
                    }
                    return kind == 2 ? TExp::Int(int32_t(v)) : TExp::Uint(v);
                };
                Chans.push_back(c);
            }
        }
        void Randomize() override
        {
            for (auto& m: Mem) {
                for (auto& b: m.second) {
                    b = R.Byte();
                    if (b == 0x7f || b == 0xff) {
                        b = 0x41;
                    }
                }
            }
        }
        static void Hex(TBytes& f, uint8_t b)
        {
            auto s = Fmt("%02X", b);
            f.insert(f.end(), s.begin(), s.end());
        }
        void Seal(TBytes& f) override
        {
            if (f.size() < 3) {
                return;
            }
            f.resize(f.size() - 3);
            uint8_t s = 0;
            for (auto b: f) {
                s = uint8_t(s + b);
            }
            Hex(f, s);
            f.push_back('\r');
        }
        std::vector<size_t> Header(const TBytes&) override
        {
            return {0, 1, 2, 3, 4, 5, 6};
        }
        uint8_t HeaderByte(const TBytes& f, size_t p) override
        {
            if (p < 1 || p > 4) {
                return uint8_t(R.Range(33, 126));
            }
            auto c = "0123456789ABCDEF"[R.Below(16)];
            return c == f[p] ? (c == '0' ? '1' : '0') : c;
        }
        bool Covered(const TBytes& f, size_t pos, int) override
        {
            return pos + 3 < f.size() || pos + 1 == f.size();
        }
        TBytes Special(const TBytes& f) override
        {
            auto x = f;
            for (int i = R.Range(1, 4); i > 0; --i) {
                x[R.Chance(50) ? R.Below(x.size()) : x.size() - 1 - R.Below(4)] = uint8_t(R.Chance(50) ? R.Range(32, 126) : R.Byte());
            }
            return x;
        }
        void Request(TSimPort& port, const TBytes& d) override
        {
            std::string s(d.begin(), d.end());
            unsigned id, addr, len, crc;
            if (s.size() != 16 || sscanf(s.c_str(), "$%4XRR%4X%2X%2X\r", &id, &addr, &len, &crc) != 4 || id != Id) {
                return Bad(d, "request");
            }
            TBytes x = d;
            Seal(x);
            if (x != d || !Mem.count(int(addr)) || Mem[int(addr)].size() != len) {
                return Bad(d, "checksum, address or length");
            }
            TBytes a{'!'};
            Hex(a, uint8_t(Id >> 8));
            Hex(a, uint8_t(Id));
            a.push_back('R');
            a.push_back('R');
            for (auto b: Mem[int(addr)]) {
                Hex(a, b);
            }
            a.resize(a.size() + 3);
            Seal(a);
            Send(port, a, true);
        }
    };

    // --------------------------------------------------------------------------------------------------------- S2K
    class TS2k: public TDrv
    {
    public:
        // CRC-8 with two deviating steps: the program's table has them and its own tests pin them
        static uint8_t Crc(const uint8_t* p, size_t n)
        {
            uint8_t c = 0;
            while (n--) {
                uint8_t at = c ^ *p++;
                c = at == 0xF7 ? 0xF6 : at == 0xF9 ? 0xFC : TLls::Crc8(&at, 1);
            }
            return c;
        }
        uint8_t Id;
        std::array<uint8_t, 5> Relay{0, 2, 2, 2, 2};
        std::array<uint8_t, 9> Cfg{};
        TS2k(Rng& r): TDrv(r, "s2k")
        {
            ResizeRejected = true;
            Id = uint8_t(r.Range(1, 127));
            Device = "\"slave_id\":\"" + std::to_string(Id) + "\"";
            for (int i = 1; i <= 4; ++i) {
                for (int kind = 0; kind < 4; ++kind) {
                    if (r.Chance(40)) {
                        continue;
                    }
                    const char* types[] = {"relay", "relay_mode", "relay_default", "relay_delay"};
                    TChan c;
                    c.Name = Fmt("c%d_%d", i, kind);
                    c.Json = Fmt("\"reg_type\":\"%s\",\"address\":%d", types[kind], i);
                    c.Exp = [this, i, kind] {
                        if (kind >= 2) {
                            return TExp::Uint(Cfg[kind == 3 ? i + 4 : i]);
                        }
                        return TExp::Uint(kind ? Relay[i] : Relay[i] != 0 && Relay[i] != 2);
                    };
                    Remembered[c.Name] = kind < 2;
                    if (kind == 0) {
                        c.GenWrite = [&r] { return r.Below(2); };
                        c.Frames = [this, i](uint64_t v) {
                            TBytes f{Id, 6, 0, 0x15, uint8_t(i), uint8_t(v ? 1 : 2)};
                            f.push_back(Crc(f.data(), f.size()));
                            return std::vector<TBytes>{f};
                        };
                    }
                    Chans.push_back(c);
                }
            }
        }
        std::map<std::string, bool> Remembered; // reading does not use the line
        void Randomize() override
        {
            for (int i = 1; i <= 8; ++i) {
                Cfg[i] = R.Byte();
            }
        }
        void Seal(TBytes& f) override
        {
            if (!f.empty()) {
                f.back() = Crc(f.data(), f.size() - 1);
            }
        }
        std::vector<size_t> Header(const TBytes&) override
        {
            return {0, 1, 2};
        }
        TBytes Special(const TBytes& f) override
        {
            TBytes x{Id, 5, uint8_t(R.Of({0x16, 6})), R.Byte(), R.Byte(), 0};
            return R.Chance(80) ? x : f;
        }
        void Request(TSimPort& port, const TBytes& d) override
        {
            if (d.size() != 7 || d[0] != Id || d[1] != 6) {
                return Bad(d, "request");
            }
            if (d[6] != Crc(d.data(), 6)) {
                return Bad(d, "checksum");
            }
            TBytes a{Id, 5};
            if (d[3] == 0x15) {
                if (d[4] < 1 || d[4] > 4 || d[5] < 1 || d[5] > 2) {
                    return Bad(d, "relay");
                }
                Relay[d[4]] = d[5];
                a.insert(a.end(), {0x16, d[4], d[5]});
            } else if (d[3] == 5 && d[4] >= 1 && d[4] <= 8) {
                a.insert(a.end(), {6, d[4], Cfg[d[4]]});
            } else {
                return Bad(d, "command");
            }
            a.push_back(0);
            Seal(a);
            Send(port, a, true);
        }
    };

    // ------------------------------------------------------------------------------------------------------- Uniel
    class TUniel: public TDrv
    {
    public:
        uint8_t Id;
        std::map<int, uint8_t> Mem;    // registers
        std::map<int, uint8_t> Bright; // by number
        TUniel(Rng& r): TDrv(r, "uniel")
        {
            Id = r.Byte();
            Device = "\"slave_id\":\"" + std::to_string(Id) + "\"";
            for (int i = r.Range(3, 8); i > 0; --i) {
                int kind = r.Below(4);
                int addr = r.Range(0, 254);
                if (Mem.count(addr)) {
                    continue;
                }
                Mem[addr] = 0;
                const char* types[] = {"relay", "input", "param", "brightness"};
                TChan c;
                c.Name = Fmt("c%d", addr);
                int b = r.Range(0, 200);
                if (kind == 3 && Bright.count(b)) {
                    continue;
                }
                c.Json = Fmt("\"reg_type\":\"%s\",\"address\":\"0x%x\"", types[kind], kind == 3 ? b << 8 | addr : addr);
                c.Exp = [this, kind, addr] {
                    auto v = Mem[addr];
                    return TExp::Uint(kind == 0 ? v != 0 : v);
                };
                if (kind == 3) {
                    Bright[b] = 0;
                    BrightReg[b] = addr;
                }
                if (kind != 1) {
                    c.GenWrite = [&r, kind] { return kind ? r.Byte() : r.Below(2); };
                    c.Frames = [this, kind, addr, b](uint64_t v) {
                        return std::vector<TBytes>{Frame(kind == 3 ? 0x0a : 6, Id, uint8_t(kind == 0 && v ? 255 : v), uint8_t(kind == 3 ? b : addr), 0)};
                    };
                }
                Chans.push_back(c);
            }
        }
        std::map<int, int> BrightReg;
        static TBytes Frame(uint8_t cmd, uint8_t mod, uint8_t a, uint8_t b, uint8_t c)
        {
            return {0xff, 0xff, cmd, mod, a, b, c, uint8_t(cmd + mod + a + b + c)};
        }
        void Randomize() override
        {
            for (auto& m: Mem) {
                m.second = R.Chance(30) ? R.Of({0, 255, 1}) : R.Byte();
            }
        }
        void Seal(TBytes& f) override
        {
            if (f.size() > 3) {
                uint8_t s = 0;
                for (size_t i = 2; i + 1 < f.size(); ++i) {
                    s = uint8_t(s + f[i]);
                }
                f.back() = s;
            }
        }
        bool Covered(const TBytes&, size_t pos, int) override
        {
            return pos >= 2; // one leading byte is enough
        }
        std::vector<size_t> Header(const TBytes&) override
        {
            return {2, 3, 5};
        }
        TBytes Special(const TBytes& f) override
        {
            TBytes x(R.Below(200), R.Of({0, 1, 0xff, 0xfe, 0x80}));
            x.insert(x.end(), f.begin(), f.end());
            return x;
        }
        void Request(TSimPort& port, const TBytes& d) override
        {
            TBytes x = d;
            Seal(x);
            if (d.size() != 8 || x != d || d[0] != 0xff || d[1] != 0xff || d[3] != Id) {
                return Bad(d, "request");
            }
            if (d[2] == 5) {
                if (!Mem.count(d[5])) {
                    return Bad(d, "register");
                }
                return Send(port, Frame(5, 0, Mem[d[5]], d[5], R.Byte()), true);
            }
            if (d[2] == 6) {
                if (!Mem.count(d[5])) {
                    return Bad(d, "register");
                }
                Mem[d[5]] = d[4];
            } else if (d[2] == 10) {
                if (!Bright.count(d[5])) {
                    return Bad(d, "brightness");
                }
                Mem[BrightReg[d[5]]] = d[4];
            } else {
                return Bad(d, "command");
            }
            Send(port, Frame(d[2], 0, d[4], d[5], 0), true);
        }
    };

    // ----------------------------------------------------------------------------------------------- Energomera CE
    class TEnergomeraCe: public TDrv
    {
    public:
        uint16_t Id;
        TBytes Password{0, 0, 0, 0};
        struct TVal
        {
            TBytes Cmd, Data;
        };
        std::vector<TVal> Vals;
        TEnergomeraCe(Rng& r): TDrv(r, "energomera_ce")
        {
            Id = uint16_t(r.Range(1, 65535));
            Device = "\"slave_id\":\"" + std::to_string(Id) + "\"";
            if (r.Chance(50)) {
                Password = r.Bytes(4);
                Device += Fmt(",\"password\":[%d,%d,%d,%d]", Password[0], Password[1], Password[2], Password[3]);
            }
            for (int i = r.Range(2, 6); i > 0; --i) {
                TVal v;
                v.Cmd = r.Bytes(2);
                if (r.Chance(15)) {
                    v.Cmd[r.Below(2)] = r.Of<int>({0xC0, 0xDB});
                }
                for (int k = r.Below(3); k > 0; --k) {
                    v.Cmd.insert(v.Cmd.begin(), uint8_t(r.Range(1, 255)));
                }
                bool dup = false;
                for (auto& o: Vals) {
                    dup = dup || std::equal(o.Cmd.end() - 2, o.Cmd.end(), v.Cmd.end() - 2) || o.Cmd == v.Cmd;
                }
                if (dup) {
                    continue;
                }
                uint32_t addr = 0;
                for (auto b: v.Cmd) {
                    addr = addr << 8 | b;
                }
                int kind = r.Below(6);
                TChan c;
                c.Name = Fmt("c%x", addr);
                const char* types[] = {"default", "default", "default", "default", "date", "energy"};
                const char* fmts[] = {"u8", "u16", "u24", "u32"};
                v.Data.resize(std::array<int, 6>{1, 2, 3, 4, 7, 7}[kind]);
                bool sign = kind < 4 && r.Chance(20);
                std::string f = kind < 4 ? std::string(fmts[kind]) : "";
                if (sign) {
                    f[0] = 's';
                }
                c.Json = Fmt("\"reg_type\":\"%s\",\"address\":\"0x%x\"", types[kind], addr) + (kind < 4 ? ",\"format\":\"" + f + "\"" : kind == 4 ? ",\"string_data_size\":17" : "");
                size_t n = Vals.size();
                c.Exp = [this, n, kind, sign] {
                    auto& d = Vals[n].Data;
                    if (kind == 4) {
                        return TExp::Str(Fmt("%02x.%02x.%02x %02x:%02x:%02x", d[4], d[5], d[6], d[2], d[1], d[0]));
                    }
                    uint64_t v = 0;
                    if (kind == 5) {
                        for (int k = 6; k >= 3; --k) {
                            v = v * 256 + d[k];
                        }
                        return TExp::Uint(v);
                    }
                    for (auto b: d) {
                        v = v * 256 + b;
                    }
                    return sign ? TExp::Int(SignExt(v, 8 * int(d.size()))) : TExp::Uint(v);
                };
                Vals.push_back(v);
                Chans.push_back(c);
            }
        }
        void Randomize() override
        {
            for (auto& v: Vals) {
                for (auto& b: v.Data) {
                    b = R.Chance(20) ? R.Of({0xC0, 0xDB, 0xDC, 0xDD, 0, 255}) : R.Byte();
                }
            }
        }
        static uint8_t Crc8(const TBytes& f, size_t from, size_t to)
        {
            uint8_t c = 0;
            for (; from < to; ++from) {
                c ^= f[from];
                for (int i = 0; i < 8; ++i) {
                    c = c & 0x80 ? uint8_t(c << 1 ^ 0xB5) : uint8_t(c << 1);
                }
            }
            return c;
        }
        // Frames are kept without the delimiters and stuffing
        void Seal(TBytes& f) override
        {
            if (!f.empty()) {
                f.back() = Crc8(f, 0, f.size() - 1);
            }
        }
        TBytes Wrap(const TBytes& f) override
        {
            TBytes w{0xC0};
            for (auto b: f) {
                if (b == 0xC0 || b == 0xDB) {
                    w.push_back(0xDB);
                    w.push_back(b == 0xC0 ? 0xDC : 0xDD);
                } else {
                    w.push_back(b);
                }
            }
            w.push_back(0xC0);
            return w;
        }
        std::vector<size_t> Header(const TBytes&) override
        {
            return {0};
        }
        TBytes ErrorAnswer() override
        {
            TBytes f{0x48, 0xFD, 0, uint8_t(Id), uint8_t(Id >> 8), 0x70 | 1, LastCmd[0], LastCmd[1], uint8_t(R.Range(1, 9)), 0};
            Seal(f);
            // shorter than an answer with data can be
            f.insert(f.begin() + 9, 0);
            Seal(f);
            return f;
        }
        TBytes LastCmd{0, 0};
        void Request(TSimPort& port, const TBytes& d) override
        {
            TBytes f;
            bool ok = d.size() > 12 && d.front() == 0xC0 && d.back() == 0xC0;
            for (size_t i = 1; ok && i + 1 < d.size(); ++i) {
                if (d[i] == 0xDB) {
                    ++i;
                    ok = i + 1 < d.size() && (d[i] == 0xDC || d[i] == 0xDD);
                    f.push_back(d[i] == 0xDC ? 0xC0 : 0xDB);
                } else {
                    ok = d[i] != 0xC0;
                    f.push_back(d[i]);
                }
            }
            if (!ok || f.size() < 13 || f.back() != Crc8(f, 0, f.size() - 1)) {
                return Bad(d, "framing or checksum");
            }
            if (f[0] != 0x48 || (f[1] | f[2] << 8) != Id || f[3] != 253 || f[4] != 0 || !std::equal(Password.begin(), Password.end(), f.begin() + 5)) {
                return Bad(d, "address or password");
            }
            TBytes cmd(f.begin() + 10, f.end() - 1);
            if (f[9] != (0xD0 | (cmd.size() - 2))) {
                return Bad(d, "length");
            }
            for (auto& v: Vals) {
                if (v.Cmd == cmd) {
                    TBytes a{0x48, 253, 0, uint8_t(Id), uint8_t(Id >> 8), uint8_t(0x50 | v.Data.size()), cmd[0], cmd[1]};
                    LastCmd = {cmd[0], cmd[1]};
                    a.insert(a.end(), v.Data.begin(), v.Data.end());
                    a.push_back(0);
                    Seal(a);
                    return Send(port, a, true);
                }
            }
            Bad(d, "unknown command");
        }
    };
}
