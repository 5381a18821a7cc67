// Curtain motors
#pragma once
#include "drv_meters.h"

namespace drv
{
    // -------------------------------------------------------------------------------------------------------- A-OK
    class TAok: public TDrv
    {
    public:
        uint8_t Motor, Low, High;
        std::map<int, TBytes> Mem; // 5 bytes by command and data
        TAok(Rng& r): TDrv(r, r.Chance(80) ? "a_ok" : "dauerhaft")
        {
            ResizeRejected = true;
            Motor = r.Byte();
            Low = r.Byte();
            High = r.Byte();
            Device = Fmt("\"slave_id\":\"0x%x\"", Motor << 16 | Low << 8 | High);
            Mem[0xcc00] = Mem[0xcaca] = TBytes(5);
            {
                TChan c;
                c.Name = "position";
                c.Json = "\"reg_type\":\"position\",\"address\":0";
                c.Exp = [this] { return TExp::Uint(Mem[0xcc00][3]); };
                c.GenWrite = [&r] { return r.Range(0, 100); };
                c.Frames = [this](uint64_t v) { return std::vector<TBytes>{Frame(0xdd, uint8_t(v))}; };
                Chans.push_back(c);
            }
            for (int i = r.Range(1, 5); i > 0; --i) {
                int key = r.Of({0xcc00, 0xcaca, 0xcbcb, int(r.Range(1, 0xffff))});
                if ((key >> 8 >= 0xd2 && key >> 8 <= 0xdd) || key >> 8 == 0x0a) {
                    continue;
                }
                Mem[key] = TBytes(5);
                int off = 0, width = 0;
                TChan c;
                if (r.Chance(80)) {
                    off = r.Range(0, 39);
                    width = r.Range(1, 40 - off);
                }
                c.Name = Fmt("s%x_%d_%d", key, off, width);
                c.Json = Fmt("\"reg_type\":\"status\",\"address\":\"0x%x%s\"", key, width ? Fmt(":%d:%d", off, width).c_str() : "");
                c.Exp = [this, key, off, width] {
                    uint64_t v = 0;
                    for (int k = 4; k >= 0; --k) {
                        v = v * 256 + Mem[key][k];
                    }
                    return TExp::Uint(width ? v >> off & ((1ull << width) - 1) : v);
                };
                Add(c);
            }
            for (int i = r.Range(0, 3); i > 0; --i) {
                int bit = r.Range(0, 7);
                TChan c;
                c.Name = Fmt("z%d", bit);
                c.Json = Fmt("\"reg_type\":\"zonebit\",\"address\":%d", bit);
                c.Exp = [this, bit] { return TExp::Uint(Mem[0xcaca][4] >> bit & 1); };
                c.GenWrite = [&r] { return r.Below(2); };
                c.Frames = [this, bit](uint64_t v) {
                    uint8_t z = uint8_t((Mem[0xcaca][4] & ~(1 << bit)) | v << bit);
                    return std::vector<TBytes>{Frame(0xca, 0xca), Frame(0xd5, z)};
                };
                Add(c);
            }
            for (int i = r.Range(0, 3); i > 0; --i) {
                bool cmd = r.Chance(50);
                uint8_t a = uint8_t(cmd ? r.Range(0, 255) : r.Of({0xd9, 0xd2, 0xda, 0xd6, 0xd7, 0xd8}));
                TChan c;
                c.Name = Fmt("%c%d", cmd ? 'c' : 'p', a);
                c.Read = false;
                c.Json = Fmt("\"reg_type\":\"%s\",\"%s\":\"0x%x\",\"type\":\"%s\"", cmd ? "command" : "param", r.Chance(50) ? "write_address" : "address", a, cmd ? "pushbutton" : "range");
                c.GenWrite = [&r, cmd] { return cmd ? 1 : r.Byte(); };
                c.Frames = [this, cmd, a](uint64_t v) { return std::vector<TBytes>{cmd ? Frame(0x0a, a) : Frame(a, uint8_t(v))}; };
                Add(c);
            }
        }
        std::set<std::string> Names;
        void Add(const TChan& c)
        {
            if (Names.insert(c.Name).second) {
                Chans.push_back(c);
            }
        }
        TBytes Frame(uint8_t cmd, uint8_t data) const
        {
            return {0x9a, Motor, Low, High, cmd, data, uint8_t(Motor ^ Low ^ High ^ cmd ^ data)};
        }
        void Randomize() override
        {
            for (auto& m: Mem) {
                for (auto& b: m.second) {
                    b = R.Chance(20) ? R.Of({0, 255}) : R.Byte();
                }
            }
        }
        void Seal(TBytes& f) override
        {
            if (f.size() > 1) {
                f.back() = 0;
                uint8_t c = 0;
                for (size_t i = 1; i < f.size(); ++i) {
                    c ^= f[i];
                }
                f.back() = c;
            }
        }
        std::vector<size_t> Header(const TBytes&) override
        {
            return {0, 1, 2, 3};
        }
        void Request(TSimPort& port, const TBytes& d) override
        {
            if (d.size() != 7 || d != Frame(d[4], d[5])) {
                return Bad(d, "framing, checksum or address");
            }
            if (d[4] == 0xd5) {
                Mem[0xcaca][4] = d[5];
                return;
            }
            if (d[4] == 0xdd) {
                Mem[0xcc00][3] = d[5];
                return;
            }
            auto m = Mem.find(d[4] << 8 | d[5]);
            if (m == Mem.end() || d[4] == 0x0a || (d[4] >= 0xd2 && d[4] <= 0xda)) {
                return; // commands are not answered
            }
            TBytes a{0xd8, Motor, Low, High};
            a.insert(a.end(), m->second.begin(), m->second.end());
            a.push_back(0);
            Seal(a);
            Send(port, a, true);
        }
    };

    // ----------------------------------------------------------------------------------------------------- WinDeco
    class TWinDeco: public TDrv
    {
    public:
        uint8_t Id, Position = 0, State = 0, LastCommand = 0;
        TWinDeco(Rng& r): TDrv(r, "windeco")
        {
            ResizeRejected = true;
            Id = uint8_t(r.Range(1, 255));
            Device = "\"slave_id\":\"" + std::to_string(Id) + "\"";
            TChan c;
            c.Name = "position";
            c.Json = "\"reg_type\":\"position\",\"address\":0";
            c.Exp = [this] { return Position > 100 ? TExp::Err() : TExp::Uint(Position); };
            c.GenWrite = [&r] { return r.Chance(40) ? r.Of({0, 100, 1, 99}) : r.Range(0, 100); };
            c.Frames = [this](uint64_t v) { return std::vector<TBytes>{Frame(0x81, v == 0 ? 4 : v == 100 ? 2 : uint8_t(v | 0x80))}; };
            Chans.push_back(c);
            c = TChan();
            c.Name = "state";
            c.Json = "\"reg_type\":\"param\",\"address\":\"0x07\"";
            c.Exp = [this] { return TExp::Uint(State); };
            Chans.push_back(c);
            for (int cmd: {2, 3, 4, 8, 9}) {
                if (r.Chance(50)) {
                    continue;
                }
                c = TChan();
                c.Read = false;
                c.Name = Fmt("c%d", cmd);
                c.Json = Fmt("\"reg_type\":\"command\",\"address\":%d,\"type\":\"pushbutton\"", cmd);
                c.GenWrite = [] { return 1; };
                c.Frames = [this, cmd](uint64_t) { return std::vector<TBytes>{Frame(0x81, uint8_t(cmd))}; };
                Chans.push_back(c);
            }
        }
        TBytes Frame(uint8_t head, uint8_t data)
        {
            TBytes f{head, 0, 0, 1, Id, data, 0};
            Seal(f);
            return f;
        }
        void Randomize() override
        {
            Position = uint8_t(R.Chance(80) ? R.Range(0, 100) : R.Of({0xAA, 0xBB, 101, 255}));
            State = R.Byte();
        }
        void Seal(TBytes& f) override
        {
            if (!f.empty()) {
                f.back() = 0;
                for (size_t i = 0; i + 1 < f.size(); ++i) {
                    f.back() = uint8_t(f.back() + f[i] * (i + 1));
                }
            }
        }
        bool Covered(const TBytes& f, size_t pos, int bit) override
        {
            return pos + 1 == f.size() || ((1 << bit) * (pos + 1)) % 256 != 0 || pos == 0 || pos == 3 || pos == 4;
        }
        std::vector<size_t> Header(const TBytes&) override
        {
            return {0, 3, 4};
        }
        TBytes ErrorAnswer() override
        {
            return LastCommand == 7 ? TBytes() : Frame(1, uint8_t(R.Of({0xAA, 0xBB})));
        }
        void Request(TSimPort& port, const TBytes& d) override
        {
            if (d.size() != 7 || d != Frame(0x81, d[5])) {
                return Bad(d, "framing, checksum or address");
            }
            auto v = d[5];
            LastCommand = v;
            if (v == 6) {
                v = Position;
            } else if (v == 7) {
                v = State;
            } else if (v == 2 || v == 4) {
                Position = v == 2 ? 100 : 0;
            } else if (v & 0x80) {
                Position = v &= 0x7f;
            } else if (v != 3 && v != 8 && v != 9) {
                return Bad(d, "command");
            }
            Send(port, Frame(1, v), true);
        }
    };

    // ------------------------------------------------------------------------------------------------------- Dooya
    class TDooya: public TDrv
    {
    public:
        uint16_t Id;
        std::map<uint8_t, uint8_t> Mem;
        TDooya(Rng& r): TDrv(r, "dooya")
        {
            Id = uint16_t(r.Range(0, 0xffff));
            Device = Fmt("\"slave_id\":\"0x%x\"", Id);
            {
                TChan c;
                c.Name = "position";
                c.Json = "\"reg_type\":\"position\",\"address\":0";
                c.Exp = [this] { return Mem[2] > 100 ? TExp::Err() : TExp::Uint(Mem[2]); };
                c.GenWrite = [&r] { return r.Chance(40) ? r.Of({0, 100, 1, 99}) : r.Range(0, 100); };
                c.Frames = [this](uint64_t v) { return std::vector<TBytes>{v == 0 ? Frame({3, 2}) : v == 100 ? Frame({3, 1}) : Frame({3, 4, uint8_t(v)})}; };
                Chans.push_back(c);
                Mem[2] = 0;
            }
            if (r.Chance(60)) {
                TChan c;
                c.Name = "angle";
                c.Json = "\"reg_type\":\"angle\",\"address\":0,\"type\":\"range\"";
                c.Exp = [this] { return TExp::Uint(Mem[6]); };
                c.GenWrite = [&r] { return r.Range(0, 180); };
                c.Frames = [this](uint64_t v) { return std::vector<TBytes>{Frame({3, 4, 0xff, uint8_t(v)})}; };
                Chans.push_back(c);
                Mem[6] = 0;
            }
            for (int i = r.Range(0, 4); i > 0; --i) {
                uint8_t a = uint8_t(r.Range(7, 250));
                if (Mem.count(a)) {
                    continue;
                }
                Mem[a] = 0;
                int kind = r.Below(4); // 0, 1 - parameter
                TChan c;
                c.Name = Fmt("p%d", a);
                c.Json = Fmt("\"reg_type\":\"%s\",\"address\":%d", kind < 2 ? "param" : kind == 2 ? "type" : "status", a) + (kind < 2 ? "" : ",\"string_data_size\":10");
                c.Exp = [this, a, kind] {
                    auto v = Mem[a];
                    if (kind < 2) {
                        return TExp::Uint(v);
                    }
                    auto hex = Fmt("0x%02x", v);
                    if (kind == 2) {
                        return TExp::Str(v == 0x11 ? "roller" : v == 0x12 ? "venetian" : hex);
                    }
                    return TExp::Str(v == 0 ? "stopped" : v == 1 ? "opening" : v == 2 ? "closing" : v == 3 ? "setting" : hex);
                };
                if (kind < 2) {
                    c.GenWrite = [&r] { return r.Byte(); };
                    c.Frames = [this, a](uint64_t v) { return std::vector<TBytes>{Frame({2, a, 1, uint8_t(v)})}; };
                } else {
                    Enums[a] = kind;
                }
                Chans.push_back(c);
            }
            for (int i = r.Range(0, 3); i > 0; --i) {
                int a = r.Chance(60) ? r.Of({1, 2, 3, 7, 8}) : r.Of({7, 8, 9}) << 8 | r.Byte();
                TChan c;
                c.Name = Fmt("c%x", a);
                c.Read = false;
                if (!Names.insert(c.Name).second) {
                    continue;
                }
                c.Json = Fmt("\"reg_type\":\"command\",\"address\":\"0x%x\",\"type\":\"pushbutton\"", a);
                c.GenWrite = [] { return 1; };
                c.Frames = [this, a](uint64_t) { return std::vector<TBytes>{a > 255 ? Frame({3, uint8_t(a >> 8), uint8_t(a)}) : Frame({3, uint8_t(a)})}; };
                Chans.push_back(c);
            }
        }
        std::set<std::string> Names;
        std::map<int, int> Enums;
        TBytes Frame(const TBytes& d)
        {
            TBytes f{0x55, uint8_t(Id), uint8_t(Id >> 8)};
            f.insert(f.end(), d.begin(), d.end());
            Crc(f);
            return f;
        }
        void Randomize() override
        {
            for (auto& m: Mem) {
                m.second = Enums.count(m.first) && R.Chance(70) ? uint8_t(R.Of({0, 1, 2, 3, 4, 0x11, 0x12, 0x13})) : R.Chance(20) ? uint8_t(R.Of({0, 255})) : R.Byte();
            }
            if (R.Chance(80)) {
                Mem[2] = uint8_t(R.Range(0, 100));
            }
        }
        void Seal(TBytes& f) override
        {
            SealCrc(f);
        }
        std::vector<size_t> Header(const TBytes&) override
        {
            return {0, 1, 2, 3, 4};
        }
        TBytes ErrorAnswer() override
        {
            if (Last[0] != 3 || Last.size() != 2) {
                return {};
            }
            auto good = Frame(Last), bad = Frame({3, Last[1], 0xff});
            return std::equal(good.begin(), good.end(), bad.begin()) ? TBytes() : bad; // seldom the first is a part of the other one
        }
        TBytes Last{1, 1};
        void Request(TSimPort& port, const TBytes& d) override
        {
            if (d.size() < 7 || !CrcOk(d) || d[0] != 0x55 || (d[1] | d[2] << 8) != Id) {
                return Bad(d, "framing, checksum or address");
            }
            Last = TBytes(d.begin() + 3, d.end() - 2);
            auto& q = Last;
            if (q[0] == 1) {
                if (q.size() != 3 || q[2] != 1 || !Mem.count(q[1])) {
                    return Bad(d, "reading");
                }
                return Send(port, Frame({1, 1, Mem[q[1]]}), true);
            }
            if (q[0] == 2) {
                if (q.size() != 4 || q[2] != 1 || !Mem.count(q[1])) {
                    return Bad(d, "writing");
                }
                Mem[q[1]] = q[3];
                return Send(port, Frame({2, q[1], 1}), true);
            }
            if (q[0] != 3 || q.size() > 4) {
                return Bad(d, "function");
            }
            if (q[1] == 1 || q[1] == 2) {
                Mem[2] = q[1] == 1 ? 100 : 0;
            }
            if (q[1] == 4 && q.size() == 3) {
                Mem[2] = q[2];
            }
            if (q[1] == 4 && q.size() == 4 && Mem.count(6)) {
                Mem[6] = q[3];
            }
            Send(port, Frame(q), true);
        }
    };

    // ------------------------------------------------------------------------------------------------------- Somfy
    class TSomfy: public TDrv
    {
    public:
        uint32_t Id;
        uint8_t Node = 2;
        int Mode = 1;
        std::map<uint8_t, TBytes> Mem;         // data by the header of the request
        std::map<uint8_t, uint8_t> Post;       // header of the answer
        std::map<uint8_t, TBytes> Known;       // what the host has read last
        std::map<uint8_t, uint8_t> Setup;      // header of the setup command, header of reading
        TSomfy(Rng& r): TDrv(r, "somfy")
        {
            ResizeRejected = true;
            Id = uint32_t(r.Range(1, 0xffffff));
            Device = Fmt("\"slave_id\":\"0x%x\"", Id);
            if (r.Chance(60)) {
                Node = uint8_t(r.Of({2, 5, 6, 7, 8, 9}));
                Device += Fmt(",\"node_type\":%d", Node);
            }
            if (r.Chance(50)) {
                Mode = r.Below(2);
                Device += Fmt(",\"application_mode\":%d", Mode);
            }
            Mem[0x0c] = TBytes(r.Range(5, 8));
            Post[0x0c] = 0x0d;
            {
                TChan c;
                c.Name = "position";
                c.Json = "\"reg_type\":\"position\",\"address\":0";
                c.Exp = [this] { return Mem[0x0c][2] > 100 ? TExp::Err() : TExp::Uint(Mem[0x0c][2]); };
                c.GenWrite = [&r] { return r.Chance(40) ? r.Of({0, 100, 1, 99}) : r.Range(0, 100); };
                c.Frames = [this](uint64_t v) {
                    auto p = uint8_t(v);
                    return std::vector<TBytes>{v == 0                     ? Frame(3, {1, 0, 0, 0})
                                               : v == 100                 ? Frame(3, {0, 0, 0, 0})
                                               : Node == 9 && Mode == 1 ? Frame(3, {7, p, 0, 0, 0, 0})
                                                                          : Frame(3, {4, p, 0, 0})};
                };
                Add(c);
            }
            if (r.Chance(50)) {
                TChan c;
                c.Name = "angle";
                c.Json = "\"reg_type\":\"angle\",\"address\":0";
                c.Exp = [this] { return TExp::Uint(Mem[0x0c][3]); };
                c.GenWrite = [&r] { return r.Chance(30) ? r.Of({0, 255, 256, 65535}) : r.Range(0, 65535); };
                c.Frames = [this](uint64_t v) { return std::vector<TBytes>{Frame(3, {0x0f, 0, 0, 0, uint8_t(v), uint8_t(v >> 8)})}; };
                Add(c);
            }
            for (int i = r.Range(0, 5); i > 0; --i) {
                uint8_t h = uint8_t(r.Of({0x0c, 0x0e, 0x21, 0x22, 0x23, 0x25, 0x60}));
                if (!Mem.count(h)) {
                    Mem[h] = TBytes(h == 0x22 ? r.Range(1, 3) : h == 0x23 ? r.Range(3, 5) : r.Range(1, 8));
                    Post[h] = uint8_t(h < 0x20 ? h + 1 : h + 0x10);
                }
                int n = int(Mem[h].size()) * 8, off = 0, width = 0;
                if (r.Chance(80)) {
                    off = r.Range(0, n - 1);
                    width = r.Range(1, n - off);
                }
                int wr = -1;
                if ((h == 0x22 || h == 0x23) && r.Chance(70)) {
                    wr = h - 0x10;
                    int sz = h == 0x22 ? 1 : 3;
                    off = r.Below(sz) * 8;
                    width = r.Range(1, sz - off / 8) * 8;
                    if (h == 0x22 && r.Chance(30)) {
                        off = width = 0;
                    }
                }
                TChan c;
                c.Name = Fmt("p%x_%d_%d", h, off, width);
                c.Json = Fmt("\"reg_type\":\"param\",\"address\":\"0x%02x%s\",\"response_header\":%s", h, width ? Fmt(":%d:%d", off, width).c_str() : "",
                             r.Chance(70) ? Fmt("\"0x%02x\"", Post[h]).c_str() : Fmt("%d", Post[h]).c_str());
                c.Exp = [this, h, off, width] {
                    auto& m = Mem[h];
                    uint64_t v = 0;
                    for (int k = int(m.size()) - 1; k >= 0; --k) {
                        v = v * 256 + m[k];
                    }
                    return TExp::Uint(width ? v >> off & (width >= 64 ? ~0ull : (1ull << width) - 1) : v);
                };
                if (wr >= 0) {
                    c.Json += Fmt(",\"write_address\":\"0x%x\"", wr);
                    Setup[uint8_t(wr)] = h;
                    c.GenWrite = [&r, width] { return r.Next() & (width ? (1ull << width) - 1 : 1); };
                    c.Frames = [this, wr, h, off, width](uint64_t v) {
                        TBytes d = Known[h];
                        if (d.empty()) {
                            return std::vector<TBytes>{};
                        }
                        d.resize(h == 0x22 ? 1 : 3);
                        for (int k = 0; k < (width ? width : 8) / 8; ++k) {
                            d[off / 8 + k] = uint8_t(v >> (8 * k));
                        }
                        return std::vector<TBytes>{Frame(uint8_t(wr), d)};
                    };
                }
                Add(c);
            }
            for (int i = r.Range(0, 3); i > 0; --i) {
                uint8_t a = uint8_t(r.Of({1, 2, 5, 0x80, 0x98}));
                TChan c;
                c.Name = Fmt("c%x", a);
                c.Read = false;
                auto v = uint64_t(r.Below(8));
                v |= (r.Next() & ((1ull << (8 * v)) - 1)) << 8;
                v &= INT64_MAX; // longer ones are refused in configurations
                c.Json = Fmt("\"reg_type\":\"command\",\"address\":\"0x%x\",\"type\":\"pushbutton\",\"on_value\":\"0x%llx\"", a, (unsigned long long)v);
                c.GenWrite = [v] { return v; };
                c.Frames = [this, a](uint64_t v) {
                    TBytes d;
                    for (int n = v & 0xff; n > 0; --n) {
                        v >>= 8;
                        d.push_back(uint8_t(v));
                    }
                    return std::vector<TBytes>{Frame(a, d)};
                };
                Add(c);
            }
        }
        std::set<std::string> Names;
        void Add(const TChan& c)
        {
            if (Names.insert(c.Name).second) {
                Chans.push_back(c);
            }
        }
        TBytes Frame(uint8_t msg, const TBytes& data)
        {
            TBytes f{msg, uint8_t((data.size() + 11) | 0x80), Node, 0xff, 0xff, 0, uint8_t(Id), uint8_t(Id >> 8), uint8_t(Id >> 16)};
            f.insert(f.end(), data.begin(), data.end());
            f.resize(f.size() + 2);
            Seal(f);
            return Wrap(f);
        }
        TBytes Answer(uint8_t msg, const TBytes& data)
        {
            TBytes f{msg, uint8_t(data.size() + 11), uint8_t(Node << 4), uint8_t(Id), uint8_t(Id >> 8), uint8_t(Id >> 16), 0xff, 0xff, 0};
            f.insert(f.end(), data.begin(), data.end());
            f.resize(f.size() + 2);
            Seal(f);
            return f;
        }
        void Randomize() override
        {
            for (auto& m: Mem) {
                for (auto& b: m.second) {
                    b = R.Chance(20) ? R.Of({0, 255}) : R.Byte();
                }
            }
            if (R.Chance(80)) {
                Mem[0x0c][2] = uint8_t(R.Range(0, 100));
            }
        }
        void Seal(TBytes& f) override
        {
            if (f.size() > 2) {
                uint16_t s = 0;
                for (size_t i = 0; i + 2 < f.size(); ++i) {
                    s = uint16_t(s + uint8_t(~f[i]));
                }
                f[f.size() - 2] = uint8_t(s >> 8);
                f.back() = uint8_t(s);
            }
        }
        TBytes Wrap(const TBytes& f) override
        {
            TBytes w = f;
            for (size_t i = 0; i + 2 < w.size(); ++i) {
                w[i] = uint8_t(~w[i]);
            }
            return w;
        }
        std::vector<size_t> Header(const TBytes&) override
        {
            return {0, 3, 4, 5, 6, 7, 8};
        }
        TBytes ErrorAnswer() override
        {
            return Answer(0x6f, R.Bytes(1));
        }
        TBytes Special(const TBytes& f) override
        {
            TBytes x = f;
            x.resize(R.Range(1, 31));
            if (x.size() > 1) {
                x[1] = uint8_t(x.size());
            }
            if (R.Chance(20)) {
                x[0] = 0x6f;
            }
            return x;
        }
        void Request(TSimPort& port, const TBytes& d) override
        {
            if (d.size() < 11) {
                return Bad(d, "length");
            }
            auto f = Wrap(d);
            auto msg = f[0];
            TBytes data(f.begin() + 9, f.end() - 2);
            if (d != Frame(msg, data)) {
                return Bad(d, "framing, checksum or address");
            }
            auto m = Mem.find(msg);
            if (m != Mem.end()) {
                if (!data.empty()) {
                    return Bad(d, "data of reading");
                }
                if (!Refuse && (Damage == EDamage::NONE || DamageOnce)) {
                    Known[msg] = m->second;
                }
                return Send(port, Answer(Post[msg], m->second), true);
            }
            auto s = Setup.find(msg);
            if (s != Setup.end()) {
                auto& x = Mem[s->second];
                for (size_t i = 0; i < data.size() && i < x.size(); ++i) {
                    x[i] = data[i];
                }
                if (!Refuse) {
                    Known[s->second] = data;
                }
            } else if (msg == 3) {
                if (data.size() > 1 && (data[0] == 4 || data[0] == 7)) {
                    Mem[0x0c][2] = data[1];
                } else if (data[0] < 2) {
                    Mem[0x0c][2] = data[0] ? 0 : 100;
                } else if (data.size() > 4) {
                    Mem[0x0c][3] = data[4];
                }
            }
            Send(port, Answer(0x7f, {}), true);
        }
    };
}
