// IEC 61107 meters
#pragma once
#include "drv_meters.h"

namespace drv
{
    inline TBytes Str(const std::string& s)
    {
        return TBytes(s.begin(), s.end());
    }

    // Mode C: sign on, programming mode, password, reading of parameters
    class TModeC: public TDrv
    {
    public:
        std::string Id;
        bool Xor;
        std::string Read = "R1";
        TBytes Password;
        int StartBaud = 9600; // of the sign on
        int CurBaud = 9600;
        uint64_t SettingsOf = 1; // the opening of the port with right settings
        bool RememberBaud = false; // the device stays at the last baud rate
        enum
        {
            IDLE,
            SIGNED,
            PROG,
            READY
        } State = IDLE;
        bool HasPassword = false;
        struct TVal
        {
            std::string Param, Request; // Request is Param and the part in brackets
            std::string Text;           // the answer after the name
        };
        std::map<std::string, TVal> Vals; // by request
        std::string Ident = "/EKT5CE301v11.8s4";

        TModeC(Rng& r, const std::string& p, bool x): TDrv(r, p), Xor(x)
        {
            Id = r.Chance(20) ? "" : Fmt("%09u", unsigned(r.Below(999999999)));
            if (r.Chance(10)) {
                Id = "1234567890123456";
            }
            Device = "\"slave_id\":\"" + Id + "\"";
        }
        void AddPassword(size_t def)
        {
            HasPassword = def > 0;
            Password = TBytes(def);
            if (R.Chance(60)) {
                HasPassword = true;
                Password = R.Bytes(R.Range(1, 8));
                Device += ",\"password\":[";
                for (size_t i = 0; i < Password.size(); ++i) {
                    Device += (i ? "," : "") + std::to_string(Password[i]);
                }
                Device += "]";
            }
        }
        uint8_t Bcc(const TBytes& f, size_t from, size_t to) const
        {
            uint8_t c = 0;
            for (; from < to; ++from) {
                c = Xor ? c ^ f[from] : uint8_t(c + f[from]);
            }
            return c & 0x7F;
        }
        void Restart() override
        {
            State = IDLE;
            CurBaud = StartBaud;
        }
        void Seal(TBytes& f) override
        {
            if (f.size() > 1) {
                f.back() = Bcc(f, 1, f.size() - 1);
            }
        }
        std::vector<size_t> Header(const TBytes& f) override
        {
            std::vector<size_t> h{0};
            for (size_t i = 1; i < f.size() && f[i] != '('; ++i) {
                h.push_back(i);
            }
            return h;
        }
        uint8_t HeaderByte(const TBytes&, size_t p) override
        {
            return p ? uint8_t("0123456789ABEGHZ"[R.Below(16)]) : R.Of({1, 3, 4, 0x7f});
        }
        bool Covered(const TBytes& f, size_t pos, int bit) override
        {
            // the upper bit is the parity bit; a byte which becomes the end of the frame makes it shorter
            return bit < 7 && (f[pos] ^ (1 << bit)) != 3;
        }
        TBytes ErrorAnswer() override
        {
            TBytes f{2};
            auto s = Fmt("(ERR%d)", int(R.Range(1, 40)));
            f.insert(f.end(), s.begin(), s.end());
            f.push_back(3);
            f.push_back(0);
            Seal(f);
            return f;
        }
        TBytes Special(const TBytes& f) override
        {
            std::string name;
            for (size_t i = 1; i < f.size() && f[i] != '('; ++i) {
                name += char(f[i]);
            }
            if (R.Chance(25)) {
                name.resize(R.Below(name.size() + 1));
            }
            std::string v = R.Of<std::string>({"()", "(", ")", "", "(,,,,)", "(abc)", "(\r\n", "()\r\n", "(1)\r\n", "(a)\r\n", "(1,2)", "(1)(2)", "((((((", "(99999999999999999999999999)", "(1e999)", "(nan)", "(-)\r\n", "(.)\r\n", "(1)\r\n(2)\r\n", ")\r\n", "(12)\r\n"});
            TBytes x = R.Of<TBytes>({{6}, {0x15}, {2}, {1}, {2, 3, 0}, {2, '(', 3, 0}, {2, ')', 3, 0}, {2, 3, 3, 0}, {2, 0, 3, 0}, {}});
            if (x.empty() || R.Chance(50)) {
                x = {2};
                auto s = name + v;
                x.insert(x.end(), s.begin(), s.end());
                if (R.Chance(10)) {
                    x.push_back(0);
                    x.push_back(R.Byte());
                }
                x.push_back(3);
                x.push_back(0);
            }
            return x;
        }
        TBytes Answer(const std::string& s)
        {
            TBytes a{2};
            a.insert(a.end(), s.begin(), s.end());
            a.push_back(3);
            a.push_back(0);
            Seal(a);
            return a;
        }
        void Request(TSimPort& port, const TBytes& d) override
        {
            auto& cs = port.Current;
            // noise without an end reopens the port with its own settings, that ends the session
            if (cs.DataBits == 7 && cs.Parity == 'E' && cs.StopBits == 1) {
                SettingsOf = port.Opens;
            } else if (Judge && SettingsOf == port.Opens) {
                Bad(d, "line settings are not 7E1");
            }
            if (cs.BaudRate != CurBaud) {
                mon::Count("iec-other-baud");
                return; // not understood
            }
            std::string s(d.begin(), d.end());
            if (s.size() > 4 && s.substr(0, 2) == "/?") {
                if (s != "/?" + Id + "!\r\n") {
                    return Bad(d, "sign on");
                }
                State = SIGNED;
                mon::Count("sessions");
                return Send(port, Str(Ident + "\r\n"), false);
            }
            if (d[0] == 6) {
                if (s != "\x06" "051\r\n") {
                    return Bad(d, "mode");
                }
                if (State != SIGNED) {
                    return;
                }
                State = HasPassword ? PROG : READY;
                CurBaud = 9600;
                TBytes a = Str(std::string("\x01P0\x02(") + Id + ")\x03 ");
                a.back() = Bcc(a, 1, a.size() - 1);
                port.RxBaud = CurBaud;
                Send(port, a, false);
                port.RxBaud = 0;
                return;
            }
            if (d[0] != 1 || d.size() < 5 || d[d.size() - 2] != 3 || d.back() != Bcc(d, 1, d.size() - 1)) {
                return Bad(d, "framing or checksum");
            }
            auto cmd = s.substr(1, 2);
            if (cmd == "B0" && d.size() == 5) {
                State = IDLE;
                CurBaud = RememberBaud ? CurBaud : StartBaud;
                return;
            }
            if (d[3] != 2) {
                return Bad(d, "framing");
            }
            auto arg = s.substr(4, s.size() - 6);
            if (cmd == "P1") {
                std::string p = "(";
                for (auto b: Password) {
                    p += Fmt("%02X", b);
                }
                if (arg != p + ")" || !HasPassword) {
                    return Bad(d, "password");
                }
                if (State != PROG) {
                    return;
                }
                State = READY;
                return Send(port, {6}, false);
            }
            if (cmd != Read || !Vals.count(arg)) {
                return Bad(d, "request");
            }
            if (State != READY) {
                mon::Count("no-session");
                return;
            }
            auto& v = Vals[arg];
            Send(port, Answer(v.Param + v.Text), true);
        }
    };

    class TNeva: public TModeC
    {
    public:
        std::map<std::string, std::vector<double>> Nums;
        TNeva(Rng& r): TModeC(r, "neva", true)
        {
            AddPassword(4);
            for (int i = r.Range(2, 5); i > 0; --i) {
                uint32_t a = uint32_t(r.Next());
                auto p = Fmt("%08X", a);
                auto req = p + "()";
                auto& v = Vals[req];
                v.Param = p;
                int n = r.Range(1, 5);
                Nums[req].resize(n);
                for (int k = r.Range(1, 4); k > 0; --k) {
                    int kind = r.Below(9);
                    const char* types[] = {"item_1", "item_2", "item_3", "item_4", "item_5", "default", "power_factor", "temperature", "obis_cdef_1"};
                    TChan c;
                    c.Name = p + types[kind];
                    if (!Names.insert(c.Name).second) {
                        continue;
                    }
                    c.Json = Fmt("\"reg_type\":\"%s\",\"address\":\"0x%x\"", types[kind], a);
                    int idx = kind < 5 ? kind : 0;
                    c.Exp = [this, req, idx, kind, n] {
                        if (idx >= n) {
                            return TExp::Err();
                        }
                        double x = Nums[req][idx];
                        if (kind == 6) {
                            x = x >= 20 ? x - 20 : x >= 10 ? 10 - x : x;
                        }
                        if (kind == 7 && x >= 100) {
                            x = 100 - x;
                        }
                        return TExp::Num(x);
                    };
                    Chans.push_back(c);
                }
            }
        }
        std::set<std::string> Names;
        void Randomize() override
        {
            for (auto& n: Nums) {
                std::string t = "(";
                for (auto& x: n.second) {
                    auto s = Fmt("%0*.*f", int(R.Range(1, 9)), int(R.Range(0, 4)), R.Chance(60) ? R.Below(40000) / 1000.0 : R.Range(-300000, 999999) / 100.0);
                    x = strtod(s.c_str(), nullptr);
                    t += (t.size() > 1 ? "," : "") + s;
                }
                Vals[n.first].Text = t + ")";
            }
        }
    };

    class TIecModeC: public TModeC
    {
    public:
        std::map<std::string, std::string> Num;
        TIecModeC(Rng& r): TModeC(r, "iec_mode_c", true)
        {
            MinDelayMs = 20; // by the standard
            StartBaud = CurBaud = 300;
            RememberBaud = r.Chance(30);
            Baud = r.Of({300, 9600, 115200});
            Read = "R2";
            AddPassword(0);
            for (int i = r.Range(2, 5); i > 0; --i) {
                auto p = Fmt("%d.%d.%d", int(r.Range(0, 99)), int(r.Range(0, 99)), int(r.Range(0, 9)));
                auto req = p + (r.Chance(70) ? "()" : Fmt("(%d)", int(r.Range(0, 99))));
                bool dup = Vals.count(req) > 0;
                for (auto& v: Vals) {
                    dup = dup || v.second.Param == p;
                }
                if (dup) {
                    continue;
                }
                Vals[req].Param = p;
                int kind = r.Below(4);
                const char* fmts[] = {"double", "u32", "s32", "u64"};
                TChan c;
                c.Name = Fmt("c%d", i);
                c.Json = "\"reg_type\":\"default\",\"address\":\"" + req + "\"" + (kind ? Fmt(",\"format\":\"%s\"", fmts[kind]) : "");
                Kind[req] = kind;
                c.Exp = [this, req, kind] {
                    if (kind == 0) {
                        return TExp::Num(strtod(Num[req].c_str(), nullptr));
                    }
                    if (kind == 2) {
                        return TExp::Int(strtoll(Num[req].c_str(), nullptr, 10));
                    }
                    return TExp::Uint(strtoull(Num[req].c_str(), nullptr, 10));
                };
                Chans.push_back(c);
            }
        }
        std::map<std::string, int> Kind;
        void Randomize() override
        {
            for (auto& v: Vals) {
                auto& n = Num[v.first];
                int k = Kind[v.first];
                n = k == 0   ? Fmt("%0*.*f", int(R.Range(1, 10)), int(R.Range(0, 4)), R.Range(-10000000, 99999999) / 1000.0)
                    : k == 2 ? Fmt("%d", int32_t(R.Next()))
                    : k == 1 ? Fmt("%u", uint32_t(R.Next()))
                             : Fmt("%llu", (unsigned long long)(R.Next()));
                v.second.Text = "(" + n + (R.Chance(60) ? R.Of<std::string>({"*kWh", "*V", "*kvar"}) : "") + ")";
            }
        }
    };

    class TEnergomeraModeC: public TModeC
    {
    public:
        std::map<std::string, std::vector<double>> Nums;
        TEnergomeraModeC(Rng& r): TModeC(r, "energomera_iec_mode_c", false)
        {
            AddPassword(4);
            const char* params[] = {"ET0PE", "VOLTA", "CURRE", "FREQU", "POWEP", "COS_f"};
            for (int i = 0; i < 6; ++i) {
                if (r.Chance(40)) {
                    continue;
                }
                std::string p = params[i];
                auto req = p + (r.Chance(70) ? "()" : Fmt("(%d)", int(r.Range(1, 12))));
                Vals[req].Param = p;
                int n = r.Range(1, 6);
                Nums[req].resize(n);
                for (int k = 0; k < 6; ++k) { // item_5 is the last
                    if (r.Chance(50)) {
                        continue;
                    }
                    TChan c;
                    c.Name = Fmt("c%d_%d", i, k);
                    c.Json = Fmt("\"reg_type\":\"%s\",\"address\":\"%s\"", k ? Fmt("item_%d", k).c_str() : "default", req.c_str());
                    c.Exp = [this, req, k, n] { return k > n ? TExp::Err() : TExp::Num(Nums[req][k ? k - 1 : 0]); };
                    Chans.push_back(c);
                }
            }
            for (int d = 0; d < 2; ++d) {
                if (r.Chance(50)) {
                    std::string p = d ? "DATE_" : "TIME_";
                    Vals[p + "()"].Param = p;
                    TChan c;
                    c.Name = p;
                    c.Json = Fmt("\"reg_type\":\"%s\",\"address\":\"%s()\"", d ? "date" : "time", p.c_str());
                    c.Exp = [this, d] { return TExp::Uint(d ? Date : Time); };
                    Chans.push_back(c);
                }
            }
        }
        unsigned Date = 0, Time = 0;
        void Randomize() override
        {
            for (auto& n: Nums) {
                std::string t;
                for (auto& x: n.second) {
                    auto s = Fmt("%.*f", int(R.Range(0, 6)), R.Range(-100000, 9999999) / 1000.0);
                    x = strtod(s.c_str(), nullptr);
                    t += "(" + s + ")\r\n";
                }
                Vals[n.first].Text = t;
            }
            unsigned a = R.Below(100), b = R.Below(100), c = R.Below(100);
            Date = a * 10000 + b * 100 + c;
            if (Vals.count("DATE_()")) {
                Vals["DATE_()"].Text = Fmt("(%02u.%02u.%02u.%02u)\r\n", unsigned(R.Below(7)), a, b, c);
            }
            a = R.Below(24), b = R.Below(60), c = R.Below(60);
            Time = a * 10000 + b * 100 + c;
            if (Vals.count("TIME_()")) {
                Vals["TIME_()"].Text = Fmt("(%02u:%02u:%02u)\r\n", a, b, c);
            }
        }
    };

    // Group reading without a session
    class TEnergomeraFast: public TDrv
    {
    public:
        uint64_t SettingsOf = 1;
        std::string Id;
        std::map<int, std::map<int, double>> Mem; // by parameter, number of the value
        std::map<int, std::map<int, std::string>> Txt;
        std::map<int, std::map<int, bool>> Err;
        TEnergomeraFast(Rng& r): TDrv(r, "energomera_iec")
        {
            Id = r.Chance(10) ? "" : r.Chance(15) ? std::string(r.Range(20, 32), '7') : Fmt("%09u", unsigned(r.Below(999999999)));
            Device = "\"slave_id\":\"" + Id + "\",\"response_timeout_ms\":500";
            int n = r.Chance(20) ? 25 : r.Range(2, 12);
            for (int i = 0; i < n; ++i) {
                int p = r.Chance(50) ? r.Range(0x1000, 0x1003) : r.Range(1, 0xffff), v = r.Chance(70) ? r.Range(1, 3) : r.Range(1, 16);
                if (Mem[p].count(v)) {
                    continue;
                }
                Mem[p][v] = 0;
                TChan c;
                c.Name = Fmt("c%x_%d", p, v);
                c.Json = Fmt("\"reg_type\":\"group_single\",\"address\":\"0x%x\"", p << 8 | v);
                c.Exp = [this, p, v] { return Err[p][v] ? TExp::Err() : TExp::Num(Mem[p][v]); };
                Chans.push_back(c);
            }
        }
        void Randomize() override
        {
            for (auto& p: Mem) {
                for (auto& v: p.second) {
                    auto s = Fmt("%.*f", int(R.Range(0, 6)), R.Range(-100000, 9999999) / 1000.0);
                    v.second = strtod(s.c_str(), nullptr);
                    Err[p.first][v.first] = R.Chance(5);
                    Txt[p.first][v.first] = Err[p.first][v.first] ? Fmt("(E%02d)", int(R.Of({1, 3, 10, 18}))) : "(" + s + ")";
                }
            }
        }
        static uint8_t Bcc(const TBytes& f, size_t from, size_t to)
        {
            uint8_t c = 0;
            for (; from < to; ++from) {
                c = uint8_t(c + f[from]);
            }
            return c & 0x7F;
        }
        void Seal(TBytes& f) override
        {
            if (f.size() > 1) {
                f.back() = Bcc(f, 1, f.size() - 1);
            }
        }
        std::vector<size_t> Header(const TBytes&) override
        {
            return {0, 1, 2, 3, 4};
        }
        uint8_t HeaderByte(const TBytes& f, size_t p) override
        {
            if (!p) {
                return R.Of({1, 3, 4, 0x7f});
            }
            auto c = "0123456789ABCDEF"[R.Below(16)];
            return c == f[p] ? (c == '0' ? '1' : '0') : c;
        }
        bool Covered(const TBytes& f, size_t pos, int bit) override
        {
            return bit < 7 && (f[pos] ^ (1 << bit)) != 3;
        }
        TBytes ErrorAnswer() override
        {
            TBytes f{2, '(', 'E', '0', uint8_t(R.Range('1', '9')), ')', 3, 0};
            Seal(f);
            return f;
        }
        TBytes Special(const TBytes& f) override
        {
            TBytes x = R.Of<TBytes>({{6}, {2, 3, 0}, {2, '(', 3, 0}, {2, 0, 3, 0}, {2, '1', 3, 0}, {2, '1', '0', '0', '0', '(', 3, 0}, {}});
            if (x.empty()) {
                x = f;
                for (int i = R.Range(1, 4); i > 0; --i) {
                    x[R.Below(x.size())] = R.Of<int>({'(', ')', 'E', '0', '9', 0, ' ', '-', 'x', 'n', 'F'});
                }
            }
            return x;
        }
        void Request(TSimPort& port, const TBytes& d) override
        {
            auto& cs = port.Current;
            if (cs.DataBits == 7 && cs.Parity == 'E' && cs.StopBits == 1 && cs.BaudRate == 9600) {
                SettingsOf = port.Opens;
            } else if (Judge && SettingsOf == port.Opens) {
                Bad(d, "line settings are not 9600 7E1");
            }
            std::string s(d.begin(), d.end());
            std::string head = "/?" + Id + "!\x01R1\x02GROUP(";
            if (s.compare(0, head.size(), head) || s.size() < head.size() + 5 || s.substr(s.size() - 3, 2) != ")\x03") {
                return Bad(d, "framing");
            }
            size_t soh = Id.size() + 3;
            if (d.back() != Bcc(d, soh + 1, d.size() - 1)) {
                return Bad(d, "checksum");
            }
            std::string body = s.substr(head.size(), s.size() - head.size() - 3), a;
            const char* p = body.c_str();
            while (*p) {
                unsigned par, mask;
                int n = 0;
                if (sscanf(p, "%4X(%4X)%n", &par, &mask, &n) != 2 || !n || !Mem.count(int(par)) || !mask) {
                    return Bad(d, "parameters");
                }
                p += n;
                a += Fmt("%04X", par);
                for (int v = 1; v <= 16; ++v) {
                    if (mask & 1u << (v - 1)) {
                        if (!Mem[int(par)].count(v)) {
                            return Bad(d, "value");
                        }
                        a += Txt[int(par)][v];
                    }
                }
            }
            TBytes f{2};
            f.insert(f.end(), a.begin(), a.end());
            f.push_back(3);
            f.push_back(0);
            Seal(f);
            Send(port, f, true);
        }
    };
}
