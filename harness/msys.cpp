#include "msys.h"

namespace msys
{
    using namespace sim;
    using codec::TSpec;

    std::string TPart::Str() const
    {
        std::ostringstream s;
        s << RegType << " " << Addr;
        if (WriteAddr >= 0) {
            s << " write " << WriteAddr;
        }
        if (!IsBit()) {
            s << " " << Spec.Str();
        }
        return s.str();
    }

    TPart GenPart(Rng& r, const TProfile& p, EType type, uint32_t addr)
    {
        TPart x;
        x.Type = type;
        x.Addr = addr;
        if (type == EType::COIL || type == EType::DISCRETE) {
            x.RegType = type == EType::COIL ? "coil" : "discrete";
            x.Spec.Format = U8;
            return x;
        }
        x.RegType = type == EType::INPUT ? "input" : "holding";
        auto& s = x.Spec;
        auto k = r.Below(100);
        if (k < 45) {
            s.Format = r.Of({U16, S16, U16, U16, U8, S8, BCD16, BCD8, Char8});
        } else if (k < 65) {
            s.Format = r.Of({U32, S32, U24, S24, BCD32, BCD24});
        } else if (k < 75) {
            s.Format = r.Of({U64, S64});
        } else if (k < 85 && p.Floats) {
            s.Format = r.Of({Float, Double});
        } else if (k < 92 && p.Strings) {
            s.Format = r.Of({String, String8});
            s.StringSize = 1 + r.Below(12);
        } else if (p.BitFields) {
            s.Format = U16;
            s.BitWidth = 1 + r.Below(12);
            s.BitOffset = r.Below(16 - s.BitWidth + 1);
            if (r.Chance(30)) {
                s.Format = U32;
                s.BitWidth = 1 + r.Below(24);
                s.BitOffset = r.Below(32 - s.BitWidth + 1);
            }
        } else {
            s.Format = U16;
        }
        if (p.Orders && s.Format != Char8) {
            if (!s.IsString() || true) {
                s.WordLE = r.Chance(25);
            }
            s.ByteLE = r.Chance(15);
        }
        if (p.Scales && !s.IsString() && s.Format != Char8 && !s.IsBcd() && r.Chance(35)) {
            s.Scale = r.Of({0.1, 0.01, 0.001, 2.0, 10.0, -1.0, 0.5, 1.0});
            s.Offset = r.Of({0.0, 0.0, 5.0, -10.0, 0.5});
            s.Round = s.BitWidth ? 0 : r.Of({0.0, 0.0, 0.1, 1.0, 0.01}); // rounding may make a value too large for a field
        }
        if (p.Singles && type == EType::HOLDING && !s.IsString() && r.Chance(20)) {
            x.RegType = r.Chance(50) ? "holding_single" : "holding_multi";
        }
        return x;
    }

    TDev GenDev(Rng& r, const TProfile& p, int slave)
    {
        TDev d;
        d.Slave = slave;
        d.Id = "dev" + std::to_string(slave);
        int n = 0;
        auto clusters = 1 + r.Below(p.MaxClusters);
        std::vector<std::vector<uint32_t>> used(5);
        // Occupied words, so that writable registers of different byte order do not share words
        std::map<EType, std::set<uint32_t>> busy;
        std::set<std::pair<int, uint32_t>> ids;
        for (size_t c = 0; c < clusters; ++c) {
            EType type = EType::HOLDING;
            auto k = r.Below(10);
            if (p.Bits && k < 2) {
                type = EType::COIL;
            } else if (p.Bits && p.Inputs && k < 3) {
                type = EType::DISCRETE;
            } else if (p.Inputs && k < 5) {
                type = EType::INPUT;
            }
            uint32_t addr = r.Chance(70) ? r.Below(300) : r.Below(60000);
            auto num = 1 + r.Below(p.MaxPerCluster);
            for (size_t i = 0; i < num; ++i) {
                auto x = GenPart(r, p, type, addr);
                auto taken = [&](uint32_t a, unsigned w) {
                    for (uint32_t q = a; q < a + w; ++q) {
                        if (busy[type].count(q)) {
                            return true;
                        }
                    }
                    return false;
                };
                while (taken(addr, x.Words())) {
                    ++addr;
                }
                if (addr + x.Words() > 65000) {
                    break;
                }
                x.Addr = addr;
                for (uint32_t q = addr; q < addr + x.Words(); ++q) {
                    busy[type].insert(q);
                }
                TChan ch;
                ch.Name = "c" + std::to_string(++n);
                ch.Parts.push_back(x);
                if (type == EType::INPUT || type == EType::DISCRETE) {
                    ch.ReadOnly = true;
                } else if (r.Chance(15)) {
                    ch.ReadOnly = true;
                }
                auto& s = x.Spec;
                if (!x.IsBit() && s.BitWidth && p.Overlap) {
                    // further fields in the same register
                    TChan other = ch;
                    unsigned at = 0;
                    auto total = x.Words() * 16;
                    while (at < total && r.Chance(70)) {
                        auto& o = other.Parts[0].Spec;
                        unsigned lo = at + r.Below(3);
                        unsigned w = 1 + r.Below(8);
                        if (lo + w > total) {
                            break;
                        }
                        bool clash = lo < s.BitOffset + s.BitWidth && s.BitOffset < lo + w;
                        at = lo + w;
                        if (clash) {
                            continue;
                        }
                        o.BitOffset = lo;
                        o.BitWidth = w;
                        if (x.RegType == "holding_single") {
                            other.Parts[0].RegType = x.RegType;
                        }
                        other.Name = "c" + std::to_string(++n);
                        d.Chans.push_back(other);
                    }
                }
                if (p.WriteAddr && x.Type == EType::HOLDING && !s.BitWidth && !s.IsString() && r.Chance(10)) {
                    uint32_t w = 61000 + n * 8;
                    ch.Parts[0].WriteAddr = w;
                }
                if (p.OnOff && !x.IsBit() && !s.BitWidth && s.Format == U16 && s.Scale == 1 && s.Offset == 0 && s.Round == 0 &&
                    r.Chance(25))
                {
                    ch.CtlType = "switch";
                    ch.OnValue = std::to_string(r.Of({1, 5, 100, 65280}));
                    if (r.Chance(60)) {
                        ch.OffValue = std::to_string(r.Of({2, 200, 7}));
                        if (r.Chance(25)) {
                            ch.OnValue.clear();
                        }
                    }
                }
                if (p.Multi && !s.IsString() && s.Format != Char8 && !ch.ReadOnly && !ch.OnOff() && ch.Parts[0].WriteAddr < 0 &&
                    !s.BitWidth && r.Chance(8))
                {
                    // a value of several registers
                    auto m = 1 + r.Below(2);
                    uint32_t a = addr + x.Words();
                    for (size_t j = 0; j < m; ++j) {
                        auto y = GenPart(r, p, type, a);
                        if (y.Spec.IsString() || y.Spec.BitWidth || y.Spec.Format == Char8) {
                            continue;
                        }
                        while (taken(a, y.Words())) {
                            ++a;
                        }
                        y.Addr = a;
                        for (uint32_t q = a; q < a + y.Words(); ++q) {
                            busy[type].insert(q);
                        }
                        a += y.Words();
                        ch.Parts.push_back(y);
                    }
                }
                if (r.Chance(p.ReadPeriods)) {
                    ch.ReadPeriodMs = r.Of({100, 500, 1000, 3000});
                }
                d.Chans.push_back(ch);
                addr += x.Words();
                if (p.SmallGaps && r.Chance(40)) {
                    addr += r.Of({1, 2, 3, 5, 9, 20});
                }
            }
        }
        if (p.Limits) {
            if (r.Chance(60)) {
                d.MaxRead = r.Of({0, 1, 2, 3, 5, 10, 16, 50, 125, 126, 200, 2000});
            }
            if (r.Chance(20)) {
                d.MinRead = r.Of({1, 2, 5, 10});
            }
            if (r.Chance(50)) {
                d.RegHole = r.Of({0, 1, 2, 5, 10, 30, 100});
            }
            if (r.Chance(50)) {
                d.BitHole = r.Of({0, 1, 2, 5, 10, 30, 100});
            }
            if (r.Chance(50)) {
                d.MaxWrite = r.Of({1, 2, 5, 20, 123, 200});
            }
            if (r.Chance(30)) {
                d.GuardUs = r.Of({0, 1000, 10000});
            }
            if (r.Chance(30)) {
                d.FrameTimeout = r.Of({0, 12, 20, 50});
            }
        }
        d.Continuous = p.Continuous && r.Chance(30);
        return d;
    }

    namespace
    {
        void PutSpec(Json::Value& j, const TSpec& s, bool bit)
        {
            if (bit) {
                return;
            }
            j["format"] = codec::FormatName(s.Format);
            if (s.Scale != 1) {
                j["scale"] = s.Scale;
            }
            if (s.Offset != 0) {
                j["offset"] = s.Offset;
            }
            if (s.Round != 0) {
                j["round_to"] = s.Round;
            }
            if (s.WordLE) {
                j["word_order"] = "little_endian";
            }
            if (s.ByteLE) {
                j["byte_order"] = "little_endian";
            }
            if (s.IsString()) {
                j["string_data_size"] = int(s.StringSize);
            }
        }
        std::string Addr(uint32_t a, const TSpec& s)
        {
            auto t = std::to_string(a);
            if (s.BitWidth) {
                t += ":" + std::to_string(s.BitOffset) + ":" + std::to_string(s.BitWidth);
            }
            return t;
        }
    }

    void PutPart(Json::Value& j, const TPart& p)
    {
        j["reg_type"] = p.RegType;
        j["address"] = Addr(p.Addr, p.Spec);
        if (p.WriteAddr >= 0) {
            j["write_address"] = Addr(p.WriteAddr, p.Spec);
        }
        PutSpec(j, p.Spec, p.IsBit());
    }

    Json::Value ToJson(const TDev& d)
    {
        Json::Value j(Json::objectValue);
        j["protocol"] = "modbus";
        char slave[16];
        snprintf(slave, sizeof(slave), d.HexSlave ? "0x%X" : "%d", d.Slave);
        j["slave_id"] = slave;
        j["id"] = d.Id;
        j["name"] = d.Id;
        auto opt = [&](const char* k, int v) {
            if (v >= 0) {
                j[k] = v;
            }
        };
        opt("max_read_registers", d.MaxRead);
        opt("min_read_registers", d.MinRead);
        opt("max_write_registers", d.MaxWrite);
        opt("max_reg_hole", d.RegHole);
        opt("max_bit_hole", d.BitHole);
        opt("guard_interval_us", d.GuardUs);
        opt("frame_timeout_ms", d.FrameTimeout);
        opt("response_timeout_ms", d.ResponseTimeout);
        opt("device_timeout_ms", d.DeviceTimeout);
        opt("device_max_fail_cycles", d.FailCycles);
        opt("max_write_fail_time_s", d.MaxWriteFail);
        opt("min_request_interval", d.MinInterval);
        opt("read_rate_limit_ms", d.RateLimitMs);
        if (d.Continuous) {
            j["enable_wb_continuous_read"] = true;
        }
        if (d.ContinueOnIllegal) {
            j["continue_polling_on_illegal_modbus_exception"] = true;
        }
        if (d.PreserveSetup) {
            j["preserve_setup_order"] = true;
        }
        Json::Value chans(Json::arrayValue);
        for (auto& c: d.Chans) {
            Json::Value x(Json::objectValue);
            x["name"] = c.Name;
            x["type"] = c.CtlType;
            if (c.Parts.size() == 1) {
                PutPart(x, c.Parts[0]);
                if (c.Parts[0].Spec.IsString()) {
                    x["type"] = "text";
                }
            } else {
                x["reg_type"] = c.Parts[0].RegType;
                Json::Value parts(Json::arrayValue);
                for (auto& p: c.Parts) {
                    Json::Value y(Json::objectValue);
                    PutPart(y, p);
                    parts.append(y);
                }
                x["consists_of"] = parts;
            }
            if (c.ReadOnly) {
                x["readonly"] = true;
            }
            if (!c.OnValue.empty()) {
                x["on_value"] = c.OnValue;
            }
            if (!c.OffValue.empty()) {
                x["off_value"] = c.OffValue;
            }
            if (c.ReadPeriodMs) {
                x["read_period_ms"] = c.ReadPeriodMs;
            }
            if (c.RateLimitMs >= 0) {
                x["read_rate_limit_ms"] = c.RateLimitMs;
            }
            if (c.ErrorRaw) {
                char b[30];
                snprintf(b, sizeof b, "0x%llx", (unsigned long long)*c.ErrorRaw);
                x["error_value"] = b;
            }
            for (auto& k: c.Extra.getMemberNames()) {
                x[k] = c.Extra[k];
            }
            chans.append(x);
        }
        j["channels"] = chans;
        if (!d.Setup.empty()) {
            Json::Value a(Json::arrayValue);
            for (auto& s: d.Setup) {
                Json::Value x(Json::objectValue);
                x["title"] = "s" + s.Part.Str();
                PutPart(x, s.Part);
                char* end = nullptr;
                double v = strtod(s.Value.c_str(), &end);
                if (s.AsText || s.Part.Spec.IsString() || s.Value.empty() || *end) {
                    x["value"] = s.Value;
                } else if (s.Value.find_first_of(".e") != std::string::npos) {
                    x["value"] = v;
                } else if (s.Value[0] == '-') {
                    x["value"] = int64_t(std::stoll(s.Value));
                } else {
                    x["value"] = uint64_t(std::stoull(s.Value));
                }
                a.append(x);
            }
            j["setup"] = a;
        }
        return j;
    }

    std::string Describe(const TDev& d)
    {
        std::ostringstream s;
        s << d.Id << " maxread " << d.MaxRead << " minread " << d.MinRead << " hole " << d.RegHole << "/" << d.BitHole << " maxwrite "
          << d.MaxWrite << (d.Continuous ? " continuous" : "") << ":";
        for (auto& c: d.Chans) {
            s << " " << c.Name << "[";
            for (auto& p: c.Parts) {
                s << p.Str() << (&p == &c.Parts.back() ? "" : "; ");
            }
            s << "]" << (c.ReadOnly ? "ro" : "");
        }
        return s.str();
    }

    void TWorld::MakeDevs(const TProfile& p)
    {
        auto n = R.Range(p.MinDevs, p.MaxDevs);
        std::set<int> ids;
        for (int i = 0; i < n; ++i) {
            int s;
            do {
                s = R.Range(1, 247);
            } while (!ids.insert(s).second);
            Devs.push_back(GenDev(R, p, s));
            if (Tcp && Devs.back().FrameTimeout == 0) {
                Devs.back().FrameTimeout = 12; // the simulated device does not send a frame at one instant
            }
        }
    }

    uint16_t TWorld::RandomWord(const TPart& p)
    {
        if (p.IsBit()) {
            return R.Below(2);
        }
        if (p.Spec.IsBcd()) {
            uint16_t w = 0;
            for (int i = 0; i < 4; ++i) {
                w = w << 4 | R.Below(10);
            }
            return w;
        }
        if (p.Spec.IsString()) {
            if (R.Chance(10)) {
                return 0;
            }
            uint16_t hi = p.Spec.Format == String8 ? R.Range(32, 126) : 0;
            uint16_t w = hi << 8 | uint16_t(R.Range(32, 126));
            return p.Spec.ByteLE ? w >> 8 | w << 8 : w;
        }
        if (p.Spec.Format == Char8) {
            uint16_t w = R.Range(33, 126);
            return p.Spec.ByteLE ? w << 8 : w;
        }
        switch (R.Below(6)) {
            case 0:
                return R.Below(10);
            case 1:
                return 0xffff - R.Below(4);
            case 2:
                return 0x7fff + R.Below(3);
            default:
                return R.Next() >> 20;
        }
    }

    void TWorld::FillMemory()
    {
        for (auto& d: Devs) {
            auto s = std::make_shared<TModbusSlave>(uint8_t(d.Slave));
            Slaves[d.Slave] = s;
            for (auto& c: d.Chans) {
                for (auto& p: c.Parts) {
                    for (unsigned i = 0; i < p.Words(); ++i) {
                        s->Set(p.Type, p.Addr + i, RandomWord(p));
                    }
                    if (p.WriteAddr >= 0) {
                        for (unsigned i = 0; i < p.Words(); ++i) {
                            s->Set(p.Type, p.WriteAddr + i, 0);
                        }
                    }
                }
            }
        }
    }

    void TWorld::Start()
    {
        Port = std::make_shared<TSimPort>(Tcp ? "sim:502" : "/dev/ttySIM", Baud);
        Port->Serial = !Tcp;
        Bus = std::make_shared<TModbusBus>(Tcp);
        Port->Wire = Bus;
        for (size_t i = 0; i < Devs.size(); ++i) {
            auto& s = Slaves[Devs[i].Slave];
            if (!s) {
                s = std::make_shared<TModbusSlave>(uint8_t(Devs[i].Slave));
            }
            Bus->Slaves[Devs[i].Slave] = s;
            s->OnAnswered = [this, i](const TModbusRequest& q, const TBytes& a, bool delivered) { Answer(i, q, a, delivered); };
        }
        Bus->OnRequest = [this](const TModbusRequest& q) {
            for (size_t i = 0; i < Devs.size(); ++i) {
                if (Devs[i].Slave == q.Slave) {
                    for (auto& f: Requested) {
                        f(i, q);
                    }
                    return;
                }
            }
            mon::Violation("request-unknown-device", q.Str());
        };
        Json::Value cfg(Json::objectValue);
        cfg["debug"] = false;
        if (MaxUnchangedS >= -1) {
            cfg["max_unchanged_interval"] = MaxUnchangedS;
        }
        Json::Value port = PortExtra;
        if (Tcp) {
            port["port_type"] = "modbus tcp";
            port["address"] = "sim";
            port["port"] = 502;
        } else {
            port["port_type"] = "serial";
            port["path"] = "/dev/ttySIM";
            port["baud_rate"] = Baud;
        }
        cfg["rate_limit"] = RateLimit;
        Json::Value devs(Json::arrayValue);
        for (auto& d: Devs) {
            devs.append(ToJson(d));
        }
        port["devices"] = devs;
        cfg["ports"] = Json::Value(Json::arrayValue);
        cfg["ports"].append(port);
        std::ostringstream o;
        o << cfg;
        Config = o.str();
        auto fp = std::make_shared<TFeaturePort>(Port, Tcp, Mge);
        Svc = std::make_unique<sys::TService>(cfg, sys::TPortMap{{Tcp ? "sim:502" : "/dev/ttySIM", fp}});
        Svc->Rec->On = [this](const std::string& dev, const std::string& ctl, bool error, const std::string& p) {
            if (OnPub) {
                OnPub(dev, ctl, error, p);
            }
        };
    }

    void TWorld::Mutate(int n)
    {
        for (int i = 0; i < n; ++i) {
            auto& d = R.Pick(Devs);
            if (d.Chans.empty()) {
                continue;
            }
            auto& c = R.Pick(d.Chans);
            auto& p = R.Pick(c.Parts);
            Slaves[d.Slave]->Set(p.Type, p.Addr + R.Below(p.Words()), RandomWord(p));
        }
    }

    const TChan* TWorld::FindChan(const std::string& dev, const std::string& ctl, int* di, int* ci) const
    {
        for (size_t i = 0; i < Devs.size(); ++i) {
            if (Devs[i].Id != dev) {
                continue;
            }
            for (size_t j = 0; j < Devs[i].Chans.size(); ++j) {
                if (Devs[i].Chans[j].Name == ctl) {
                    if (di) {
                        *di = i;
                    }
                    if (ci) {
                        *ci = j;
                    }
                    return &Devs[i].Chans[j];
                }
            }
        }
        return nullptr;
    }

    std::vector<uint16_t> TWorld::WordsOf(int di, const TPart& p, bool write) const
    {
        auto& s = *Slaves.at(Devs[di].Slave);
        std::vector<uint16_t> w;
        auto a = write ? p.WAddr() : p.Addr;
        for (unsigned i = 0; i < p.Words(); ++i) {
            w.push_back(s.Get(p.Type, a + i));
        }
        return w;
    }

    std::string TWorld::RandomText(const TPart& p)
    {
        if (p.IsBit()) {
            return R.Chance(50) ? "1" : "0";
        }
        auto& s = p.Spec;
        if (s.IsString()) {
            std::string t;
            auto n = s.StringSize * (s.Format == String8 ? 2 : 1);
            for (size_t i = 0; i < n; ++i) {
                t += char(R.Range(33, 126));
                if (t.back() == ';') {
                    t.back() = ',';
                }
            }
            return t;
        }
        if (s.Format == Char8) {
            char c = R.Range(33, 126);
            return std::string(1, c == ';' ? ',' : c);
        }
        if (s.IsFloat()) {
            std::ostringstream o;
            o << R.Range(-100000, 100000) / 8.0;
            return o.str();
        }
        if (s.IsBcd()) {
            uint64_t max = 1;
            for (unsigned i = 0; i < s.FormatBits(); i += 4) {
                max *= 10;
            }
            return std::to_string(R.Below(max));
        }
        // integers: a number of the register, shown with its scale
        uint64_t raw = R.Next() & codec::Mask(s.Bits());
        if (R.Chance(40)) {
            raw &= codec::Mask(std::min(s.Bits(), 7u));
        }
        if (s.Scale != 1 || s.Offset != 0 || s.Round != 0) {
            raw &= codec::Mask(std::min(s.Bits(), 30u)); // exact in a double
        }
        auto n = s.BitWidth ? __int128(raw) : *codec::Integer(s, raw);
        if (s.Scale == 1 && s.Offset == 0 && s.Round == 0) {
            return codec::Dec(n);
        }
        char b[64];
        snprintf(b, sizeof(b), "%.12g", double((long double)s.Scale * (long double)n + s.Offset));
        return b;
    }

    std::optional<uint64_t> TWorld::RawOf(const TPart& p, const std::string& text) const
    {
        auto& s = p.Spec;
        if (p.IsBit()) {
            return text == "0" ? 0 : 1;
        }
        if (s.IsString()) {
            return std::nullopt;
        }
        if (s.Format == Char8) {
            return uint8_t(text[0]);
        }
        long double x = strtold(text.c_str(), nullptr);
        if (s.IsFloat()) {
            if (s.Round > 0) {
                return std::nullopt;
            }
            double v = double((x - s.Offset) / s.Scale);
            if (s.Format == Float) {
                float f = v;
                uint32_t u;
                memcpy(&u, &f, 4);
                return u;
            }
            uint64_t u;
            memcpy(&u, &v, 8);
            return u;
        }
        if (s.IsBcd()) {
            uint64_t v = strtoull(text.c_str(), nullptr, 10), raw = 0;
            for (unsigned i = 0; i < s.FormatBits(); i += 4) {
                raw |= v % 10 << i;
                v /= 10;
            }
            return raw;
        }
        if (s.Scale == 1 && s.Offset == 0 && s.Round == 0) {
            if (text[0] == '-') {
                return uint64_t(strtoll(text.c_str(), nullptr, 10)) & codec::Mask(s.Bits());
            }
            return strtoull(text.c_str(), nullptr, 10) & codec::Mask(s.Bits());
        }
        if (s.Round > 0) {
            x = std::round(x / s.Round) * s.Round;
        }
        return uint64_t(llroundl((x - s.Offset) / s.Scale)) & codec::Mask(s.Bits());
    }

    void TWorld::Answer(int di, const TModbusRequest& q, const TBytes& a, bool delivered)
    {
        if (delivered && a.size() >= 2 && !(a[0] & 0x80)) {
            auto& s = *Slaves[Devs[di].Slave];
            for (auto& c: Devs[di].Chans) {
                for (auto& p: c.Parts) {
                    bool hit = false;
                    if (q.IsRead()) {
                        hit = p.Contains(EType(q.Fn), q.Addr, q.Count);
                    } else if (q.IsWrite()) {
                        auto t = q.Fn == 5 || q.Fn == 15 ? EType::COIL : EType::HOLDING;
                        hit = t == p.Type && p.WAddr() < q.Addr + q.Count && q.Addr < p.WAddr() + p.Words();
                    }
                    if (!hit) {
                        continue;
                    }
                    ++(q.IsRead() ? ReadsDelivered : WritesDelivered)[&p];
                    TSnap n;
                    n.At = Now();
                    n.Words = WordsOf(di, p, q.IsWrite());
                    if (p.IsBit()) {
                        n.Value.Text = n.Words[0] ? "1" : "0";
                    } else {
                        n.Value = codec::Decode(p.Spec, n.Words);
                    }
                    auto& dq = Snaps[&p];
                    if (!dq.empty() && dq.back().Words == n.Words) {
                        dq.pop_back();
                    }
                    dq.push_back(n);
                    if (dq.size() > 10) {
                        dq.pop_front();
                    }
                }
            }
            (void)s;
        }
        for (auto& f: Answered) {
            f(di, q, a, delivered);
        }
    }

    void TWorld::CheckPublished(const std::string& dev, const std::string& ctl, const std::string& text, const char* key)
    {
        int di, ci;
        auto c = FindChan(dev, ctl, &di, &ci);
        if (!c) {
            mon::Violation(std::string(key) + ":unknown-control", dev + "/" + ctl);
            return;
        }
        mon::Count("published-values");
        auto fail = [&](const std::string& why, const TPart& p) {
            std::ostringstream s;
            s << dev << "/" << ctl << " published " << mon::Quote(text) << ": " << why << "; register " << p.Str() << "; given:";
            for (auto& n: Snaps[&p]) {
                s << " [" << n.Value.Str() << "]";
            }
            s << "; " << Describe(Devs[di]);
            mon::Violation(key, s.str());
        };
        if (c->Parts.size() == 1) {
            auto& p = c->Parts[0];
            auto& dq = Snaps[&p];
            if (dq.empty()) {
                fail("never read", p);
                return;
            }
            auto v = dq.back().Value;
            if (v.Text) {
                v.Text = c->Shown(*v.Text);
            }
            if (!v.Matches(text)) {
                fail("not what the device holds", p);
                return;
            }
            mon::Distinct(dev + p.Str() + "=" + text);
            return;
        }
        auto items = WBMQTT::StringSplit(text, ';');
        if (items.size() != c->Parts.size()) {
            fail("wrong number of values", c->Parts[0]);
            return;
        }
        for (size_t i = 0; i < items.size(); ++i) {
            auto& p = c->Parts[i];
            bool ok = false;
            for (auto& n: Snaps[&p]) {
                ok = ok || n.Value.Matches(items[i]);
            }
            if (!ok) {
                fail("not what the device held", p);
                return;
            }
        }
        mon::Count("published-multi");
        mon::Distinct(dev + c->Name + "=" + text);
    }

    bool TWorld::ShownMatches(const TChan& c, const std::vector<codec::TValue>& parts, const std::string& text) const
    {
        if (parts.size() == 1) {
            auto v = parts[0];
            if (v.Text) {
                v.Text = c.Shown(*v.Text);
            }
            return v.Matches(text);
        }
        auto items = WBMQTT::StringSplit(text, ';');
        bool ok = items.size() == parts.size();
        for (size_t i = 0; ok && i < items.size(); ++i) {
            ok = parts[i].Matches(items[i]);
        }
        return ok;
    }

    std::string TWorld::Dump() const
    {
        std::ostringstream s;
        for (auto& d: Devs) {
            s << Describe(d) << "\n";
        }
        return s.str();
    }
}
