// R04: port/Scan reports the devices of the bus, each once; device/Probe tells about one of them
#include "rpcenv.h"
#include <filesystem>

namespace
{
    using namespace std::chrono_literals;
    using namespace sim;
    using mon::Rng;
    namespace fs = std::filesystem;

    enum EVariant
    {
        SERIAL,
        RTU_OVER_TCP,
        MGE,       // Modbus TCP with fast Modbus
        MODBUS_TCP // without it
    };

    enum EOutcome
    {
        NONE,
        GOOD,
        EXCEPTION,
        BAD
    };

    struct TFast
    {
        uint32_t Sn;
        int Slave;
        std::string Model, Signature, Version;
        bool ShortModel = false; // has no extended model register
        bool Actual = true, Deprecated = false;
        int Baud = 9600;
        std::string Parity = "N";
        PModbusSlave Sim;
        bool Fast = true;
        // during a request
        std::map<std::pair<int, int>, EOutcome> Reads; // {address, count}
        std::map<std::pair<int, int>, int> Tries;
    };

    struct TPolled
    {
        std::string Id, Type;
        int Slave;
        PModbusSlave Sim;
        bool HasSn;
    };

    std::string Text(Rng& r, int max)
    {
        std::string s;
        for (int i = r.Range(1, max); i > 0; --i) {
            s += char(r.Chance(80) ? r.Range('A', 'Z') : r.Range(33, 126));
        }
        return s;
    }

    void PutText(TModbusSlave& s, int addr, int count, const std::string& t)
    {
        for (int i = 0; i < count; ++i) {
            s.Set(EType::HOLDING, addr + i, i < int(t.size()) ? uint8_t(t[i]) : 0);
        }
    }

    const char* Templates[] = {
        R"({"device_type":"t1","title":"T1","device":{"name":"t1","id":"t1","channels":[
 {"name":"c1","reg_type":"holding","address":1,"type":"value"},
 {"name":"Serial","reg_type":"holding","address":270,"format":"u32","type":"text"}]}})",
        R"({"device_type":"t2","title":"T2","device":{"name":"t2","id":"t2","channels":[
 {"name":"c1","reg_type":"holding","address":1,"type":"value"},
 {"name":"serial_number","reg_type":"input","address":270,"format":"u32","type":"text","enabled":false}]}})",
        R"({"device_type":"t3","title":"T3","device":{"name":"t3","id":"t3","channels":[
 {"name":"c1","reg_type":"holding","address":1,"type":"value"}]}})",
        R"({"device_type":"t4","title":"T4","device":{"name":"t4","id":"t4","channels":[
 {"name":"c1","reg_type":"holding","address":1,"type":"value"},
 {"name":"Serial NO","reg_type":"holding","address":270,"format":"u32","type":"text","enabled":false}]}})"};

    void Case(Rng& r, uint64_t)
    {
        sim::Reset();
        auto dir = mon::Scratch() + "/templates";
        fs::remove_all(dir);
        fs::create_directories(dir);
        int n = 0;
        for (auto* t: Templates) {
            sys::WriteFile(dir + "/config-t" + std::to_string(++n) + ".json", t);
        }
        auto templates = std::make_shared<TTemplateMap>(LoadConfigTemplatesSchema(mon::Repo() + "/wb-mqtt-serial-device-template.schema.json", sys::Static().Common), "");
        templates->AddTemplatesDir(dir);
        auto variant = r.Of({SERIAL, SERIAL, SERIAL, RTU_OVER_TCP, MGE, MGE, MODBUS_TCP});
        bool mbap = variant == MGE || variant == MODBUS_TCP;
        int baud = variant == SERIAL ? r.Of({9600, 19200, 115200}) : 9600;
        auto name = variant == SERIAL ? std::string("/dev/ttySIM") : std::string("sim:502");
        auto port = std::make_shared<TSimPort>(name, baud);
        port->Serial = variant == SERIAL;
        auto bus = std::make_shared<TModbusBus>(mbap);
        port->Wire = bus;
        sys::TPortMap map;
        map[name] = std::make_shared<TFeaturePort>(port, mbap, variant == MGE);
        Json::Value cfg(Json::objectValue);
        cfg["debug"] = false;
        Json::Value p(Json::objectValue);
        if (variant == SERIAL) {
            p["port_type"] = "serial";
            p["path"] = name;
            p["baud_rate"] = baud;
        } else {
            p["port_type"] = mbap ? "modbus tcp" : "tcp";
            p["address"] = "sim";
            p["port"] = 502;
            if (mbap) {
                p["connected_to_mge"] = variant == MGE;
            }
        }
        p["devices"] = Json::Value(Json::arrayValue);
        // ------------------------------------------------------------ devices
        std::deque<TFast> fast;
        std::set<int> lineBauds{baud};
        if (variant == SERIAL && r.Chance(50)) {
            lineBauds.insert(r.Of({9600, 19200, 57600, 115200}));
        }
        std::vector<int> bauds(lineBauds.begin(), lineBauds.end());
        std::set<uint32_t> sns;
        for (int i = r.Chance(10) ? 0 : r.Below(mon::Thorough() ? 12 : 7); i > 0; --i) {
            TFast d;
            do {
                d.Sn = r.Chance(70) ? uint32_t(r.Next()) : uint32_t(r.Of({0u, 1u, 0xffffffffu, 0x80000000u, 0xfe000001u, 0x01ffffffu, 255u, 0xfdfdfdfdu}));
            } while (!sns.insert(d.Sn).second);
            d.Slave = r.Chance(80) ? r.Range(1, 247) : r.Of({1, 11, 12, 13, 0, 255, 253, 70});
            d.Model = r.Chance(25) ? r.Of({"WB-MAP12E", "WB-MAP3", "XMAP6S", "MAP", "WB-MAPX", "WB MAP3", "MAP12"}) : Text(r, 20);
            d.ShortModel = r.Chance(30);
            if (d.ShortModel) {
                d.Model = d.Model.substr(0, 6);
            }
            d.Signature = Text(r, 12);
            d.Version = r.Chance(80) ? "1." + std::to_string(r.Below(30)) + "." + std::to_string(r.Below(200)) : Text(r, 16);
            auto k = r.Below(10);
            d.Actual = k != 0;
            d.Deprecated = k < 4;
            d.Baud = variant == SERIAL ? r.Pick(bauds) : 9600;
            d.Parity = variant == SERIAL && r.Chance(20) ? "E" : "N";
            d.Sim = std::make_shared<TModbusSlave>(d.Slave);
            fast.push_back(d);
        }
        std::deque<TPolled> polled;
        std::set<int> used;
        for (int i = 0, e = r.Range(0, 3); i < e; ++i) {
            TPolled d;
            d.Id = "dev" + std::to_string(i);
            d.Type = r.Of({"t1", "t1", "t2", "t3", "t4"});
            d.HasSn = d.Type != "t3";
            d.Slave = 11 + i;
            std::vector<int> cand;
            for (size_t k = 0; k < fast.size(); ++k) {
                auto& f = fast[k];
                bool unique = std::count_if(fast.begin(), fast.end(), [&](auto& x) { return x.Slave == f.Slave; }) == 1;
                if (unique && f.Slave > 0 && f.Slave < 248 && f.Baud == baud && f.Parity == "N" && !used.count(f.Slave)) {
                    cand.push_back(k);
                }
            }
            if (!cand.empty() && r.Chance(75)) {
                auto& f = fast[r.Pick(cand)];
                d.Slave = f.Slave;
                d.Sim = f.Sim;
                if (r.Chance(25)) {
                    d.Sim = std::make_shared<TModbusSlave>(d.Slave); // of another device
                }
            }
            if (!used.insert(d.Slave).second) {
                continue;
            }
            if (!d.Sim) {
                d.Sim = std::make_shared<TModbusSlave>(d.Slave);
            }
            d.Sim->Set(EType::HOLDING, 1, r.Below(1000));
            d.Sim->Set(EType::HOLDING, 271, 7 + i);
            d.Sim->Set(EType::INPUT, 271, 7 + i);
            Json::Value c(Json::objectValue);
            c["slave_id"] = std::to_string(d.Slave);
            c["id"] = d.Id;
            c["name"] = d.Id;
            c["device_type"] = d.Type;
            p["devices"].append(c);
            bus->Slaves[d.Slave] = d.Sim;
            polled.push_back(d);
        }
        for (auto& f: fast) {
            auto& s = *f.Sim;
            PutText(s, 200, 20, f.Model);
            if (f.ShortModel) {
                for (int a = 206; a < 220; ++a) {
                    s.Illegal[EType::HOLDING].insert(a);
                }
            }
            PutText(s, 250, 16, f.Version);
            PutText(s, 290, 12, f.Signature);
            for (auto t: {EType::HOLDING, EType::INPUT}) {
                s.Set(t, 270, f.Sn >> 16);
                s.Set(t, 271, f.Sn);
            }
            s.Set(EType::HOLDING, 110, r.Of({12, 96, 192, 1152, 0, 65535}));
            s.Set(EType::HOLDING, 111, r.Of({0, 1, 2, 0, 3, 65535}));
            s.Set(EType::HOLDING, 112, r.Of({1, 2, 0, 77}));
            for (int a: {110, 111, 112, 250, 290}) {
                if (r.Chance(6)) {
                    s.Illegal[EType::HOLDING].insert(a);
                }
            }
            if (!bus->Slaves.count(f.Slave)) {
                bus->Slaves[f.Slave] = f.Sim;
            }
        }
        cfg["ports"] = Json::Value(Json::arrayValue);
        cfg["ports"].append(p);
        auto lineOf = [&](const TFast& f) {
            return variant != SERIAL || port->Current.BaudRate == f.Baud && std::string(1, port->Current.Parity) == f.Parity;
        };
        // ------------------------------------------------------------ the bus
        bool portFaults = r.Chance(8);    // the port itself fails sometimes
        int percent = r.Of({0, 0, 3, 15, 50});
        bool repeating = r.Chance(8);     // a device that forgets it has been found
        bool faultsNow = false;
        std::deque<TFast*> queue;         // not found yet
        std::vector<TFast*> delivered;    // found
        enum
        {
            SCANNING,
            END,    // no more devices
            BROKEN, // a spoilt answer
            SILENT
        } scan = SCANNING;
        int scans = 0, scanCommand = 0;
        auto fault = [&]() { return faultsNow && r.Chance(percent); };
        auto note = [&](TFast& f, const TModbusRequest& q, EOutcome o) {
            std::pair<int, int> k{q.Addr, q.Count};
            auto& x = f.Reads[k];
            ++f.Tries[k];
            MON_EXPECT(portFaults || x != GOOD && x != EXCEPTION, "read-again", f.Sn << ": " << q.Str() << " although it has been answered");
            MON_EXPECT(f.Tries[k] <= 3, "too-many-tries", f.Sn << ": " << q.Str());
            x = o;
        };
        // Damages a read answer so that nothing of it remains for the next one
        auto spoil = [&](TBytes& pdu, size_t data, bool& crc) {
            switch (r.Below(4)) {
                case 0:
                    pdu.clear();
                    break;
                case 1:
                    if (!mbap) {
                        crc = false;
                        break;
                    }
                    [[fallthrough]];
                case 2:
                    pdu.resize(data);
                    break;
                default:
                    pdu[data] ^= 1 + r.Below(127);
            }
        };
        bool judging = false;
        TFast* probed = nullptr;
        bus->OnOther = [&](TSimPort& sp, const TBytes& b) {
            TBytes pdu;
            int slave, tid = 0;
            if (mbap) {
                if (b.size() < 9 || b[2] || b[3] || 256 * b[4] + b[5] + 6 != int(b.size())) {
                    return false;
                }
                slave = b[6];
                tid = 256 * b[0] + b[1];
                pdu.assign(b.begin() + 7, b.end());
            } else {
                if (b.size() < 4 || Crc16(b.data(), b.size() - 2) != b[b.size() - 2] + 256 * b[b.size() - 1]) {
                    return false;
                }
                slave = b[0];
                pdu.assign(b.begin() + 1, b.end() - 2);
            }
            auto send = [&](const TBytes& answer, bool crc = true, int from = 0xfd, bool arbitration = false) {
                auto f = mbap ? TcpFrame(tid, from, answer) : RtuFrame(from, answer);
                if (!crc) {
                    f[f.size() - 1 - r.Below(2)] ^= 1 << r.Below(8);
                }
                if (arbitration && !mbap) {
                    f.insert(f.begin(), r.Below(32), 0xff);
                }
                sp.Push(f, milliseconds(r.Below(6)), mbap);
            };
            if (slave != 0xfd || pdu.empty() || pdu[0] != 0x46 && pdu[0] != 0x60) {
                // plain Modbus
                for (auto& f: fast) {
                    auto it = bus->Slaves.find(slave);
                    if (it == bus->Slaves.end() || it->second != f.Sim) {
                        continue;
                    }
                    if (!lineOf(f)) {
                        return true;
                    }
                    if (probed == &f && judging) {
                        auto q = ParsePdu(slave, pdu);
                        if (q.Fn != 3) {
                            return false;
                        }
                        if (q.Addr == 1 || q.Addr == 270 && f.Reads.size() > 1) {
                            return false; // polling and the look for the device of the configuration
                        }
                        auto a = f.Sim->Execute(q);
                        if (a[0] == 3 && fault()) {
                            bool crc = true;
                            bool exception = r.Chance(25);
                            if (exception) {
                                a = {0x83, 4};
                            } else {
                                spoil(a, 1, crc);
                            }
                            mon::Count("damaged-answers");
                            note(f, q, exception ? EXCEPTION : BAD);
                            if (!a.empty()) {
                                send(a, crc, slave);
                            } else {
                                mon::Count("silence");
                                scan = SILENT;
                            }
                            return true;
                        }
                        note(f, q, a[0] == 3 ? GOOD : EXCEPTION);
                        send(a, true, slave);
                        return true;
                    }
                    return false;
                }
                if (variant == SERIAL && (port->Current.BaudRate != baud || port->Current.Parity != 'N')) {
                    return true;
                }
                return false;
            }
            MON_EXPECT(judging, "unasked", mon::Hex(b));
            MON_EXPECT(variant != MODBUS_TCP, "not-supported", mon::Hex(b));
            if (variant == MODBUS_TCP) {
                return true;
            }
            if (pdu.size() == 2 && (pdu[1] == 1 || pdu[1] == 2)) {
                ++scans;
                mon::Count("scan-commands");
                scanCommand = pdu[0];
                auto fits = [&](TFast& f) { return lineOf(f) && (pdu[0] == 0x46 ? f.Actual : f.Deprecated); };
                bool any = std::any_of(fast.begin(), fast.end(), fits);
                if (pdu[1] == 1) {
                    queue.clear();
                    for (auto& f: fast) {
                        if (fits(f)) {
                            queue.push_back(&f);
                        }
                    }
                    std::sort(queue.begin(), queue.end(), [](auto a, auto b) { return a->Sn < b->Sn; });
                }
                if (!any || queue.empty() && pdu[1] == 1) {
                    scan = SILENT;
                    return true;
                }
                TBytes a{pdu[0], 4};
                auto next = std::find_if(queue.begin(), queue.end(), [&](auto* x) { return fits(*x); });
                TFast* f = next == queue.end() ? nullptr : *next;
                if (f) {
                    a = {pdu[0], 3, uint8_t(f->Sn >> 24), uint8_t(f->Sn >> 16), uint8_t(f->Sn >> 8), uint8_t(f->Sn), uint8_t(f->Slave)};
                    if (!repeating || scans > 1000) {
                        queue.erase(next);
                    }
                }
                if (fault()) {
                    mon::Count("damaged-scan-answers");
                    scan = BROKEN;
                    switch (r.Below(4)) {
                        case 0:
                            scan = SILENT;
                            return true;
                        case 1:
                            if (!mbap) {
                                send(a, false, 0xfd, true);
                                return true;
                            }
                            [[fallthrough]];
                        case 2:
                            a[1] = r.Of({0, 5, 9, 0x12, 255});
                            break;
                        default:
                            a.resize(a.size() > 2 ? r.Range(2, 6) : 1);
                    }
                    send(a);
                    return true;
                }
                if (f) {
                    delivered.push_back(f);
                } else {
                    scan = END;
                }
                send(a, true, 0xfd, true);
                return true;
            }
            if (pdu.size() > 6 && pdu[1] == 8) {
                uint32_t sn = uint32_t(pdu[2]) << 24 | pdu[3] << 16 | pdu[4] << 8 | pdu[5];
                MON_EXPECT(pdu[0] == scanCommand, "other-command", mon::Hex(b));
                for (auto& f: fast) {
                    if (f.Sn != sn) {
                        continue;
                    }
                    MON_EXPECT(std::find(delivered.begin(), delivered.end(), &f) != delivered.end(), "not-found-yet", mon::Hex(b));
                    MON_EXPECT(lineOf(f), "line", mon::Hex(b));
                    auto q = ParsePdu(f.Slave, TBytes(pdu.begin() + 6, pdu.end()));
                    MON_EXPECT(q.Fn == 3 && !q.Malformed, "read-request", mon::Hex(b));
                    auto in = f.Sim->Execute(q);
                    bool crc = true;
                    bool bad = fault();
                    bool exception = bad && r.Chance(25);
                    if (exception) {
                        in = {0x83, 4};
                    }
                    TBytes a{pdu[0], 9, pdu[2], pdu[3], pdu[4], pdu[5]};
                    a.insert(a.end(), in.begin(), in.end());
                    mon::Count("reads-by-sn");
                    if (bad && !exception) {
                        mon::Count("damaged-answers");
                        note(f, q, BAD);
                        spoil(a, r.Of({1, 2, 5}), crc);
                        if (!a.empty()) {
                            send(a, crc);
                        }
                        return true;
                    }
                    note(f, q, in[0] == 3 ? GOOD : EXCEPTION);
                    send(a);
                    return true;
                }
                mon::Violation("unknown-sn", mon::Hex(b));
                return true;
            }
            mon::Violation("frame", mon::Hex(b));
            return true;
        };
        bool bad = false;
        if (portFaults) {
            port->FailRead = port->FailWrite = port->FailOpen = [&]() { return bad && r.Chance(5); };
        }
        sys::TService svc(cfg, map, templates);
        rpcenv::TRpc rpc(svc, templates);
        svc.RunFor(milliseconds(r.Of({0, 2000, 5000})));
        auto describe = [&](const TFast& f) {
            std::ostringstream o;
            o << f.Sn << " slave " << f.Slave << " " << mon::Quote(f.Model) << (f.ShortModel ? " short" : "") << " " << mon::Quote(f.Signature) << " " << f.Version;
            for (auto& x: f.Reads) {
                o << " " << x.first.first << "/" << x.first.second << (x.second == GOOD ? "+" : x.second == EXCEPTION ? "!" : "-");
            }
            return o.str();
        };
        auto details = [&](TFast& f, const Json::Value& j, const std::string& why) {
            std::set<std::string> errors, ids;
            for (auto& e: j["errors"]) {
                errors.insert(e["id"].asString());
                MON_EXPECT(e["message"].isString(), "message", why);
            }
            MON_EXPECT(errors.size() == j["errors"].size(), "double-error", why);
            auto good = [&](int a, int c) {
                auto it = f.Reads.find({a, c});
                EOutcome o = it == f.Reads.end() ? NONE : it->second;
                bool tried = o == BAD ? f.Tries[{a, c}] == 3 : o != NONE;
                MON_EXPECT(tried, "not-tried", a << " is read " << (o == NONE ? 0 : f.Tries[{a, c}]) << " times: " << why);
                return o == GOOD;
            };
            auto err = [&](bool ok, const char* id) {
                if (!ok) {
                    ids.insert(std::string("com.wb.serial_driver.device.read_") + id + "_error");
                    mon::Count("attributes-unread");
                } else {
                    mon::Count("attributes-compared");
                }
                return ok;
            };
            auto same = [&](const Json::Value& v, bool ok, const Json::Value& want, const char* what) {
                auto eq = ok ? v.isNumeric() && want.isNumeric() ? v.asInt64() == want.asInt64() : v == want : v.isNull();
                MON_EXPECT(eq, what, what << " is " << v.toStyledString() << " instead of " << (ok ? want : Json::Value()).toStyledString() << " " << why);
            };
            bool ex = good(200, 20);
            bool model = ex || good(200, 6);
            auto text = ex ? f.Model : f.Model.substr(0, 6);
            auto sn = f.Sn;
            if (err(model, "device_signature")) {
                auto at = text.find("MAP");
                bool digits = false;
                for (; at != std::string::npos; at = text.find("MAP", at + 1)) {
                    digits = digits || at + 3 < text.size() && isdigit(text[at + 3]);
                }
                if (digits && text.find(' ') == std::string::npos) {
                    sn &= 0x01ffffff;
                    mon::Count("map");
                }
            }
            same(j["device_signature"], model, text, "device_signature");
            same(j["sn"], true, std::to_string(sn), "sn");
            auto sig = good(290, 12);
            same(j["fw_signature"], err(sig, "fw_signature"), f.Signature, "fw_signature");
            auto g = [&](int a) { return f.Sim->Get(EType::HOLDING, a); };
            bool b = good(110, 1), s = good(112, 1), pr = good(111, 1);
            err(b && s && pr, "serial_params");
            auto& c = j["cfg"];
            same(c["slave_id"], true, f.Slave, "slave_id");
            same(c["data_bits"], true, 8, "data_bits");
            same(c["baud_rate"], b, g(110) * 100, "baud_rate");
            same(c["stop_bits"], s, g(112), "stop_bits");
            const char* parities[] = {"N", "O", "E", "U"};
            same(c["parity"], pr, parities[std::min<int>(g(111), 3)], "parity");
            auto ver = good(250, 16);
            same(j["fw"].isNull() ? Json::Value() : j["fw"]["version"], err(ver, "fw_version"), f.Version, "fw_version");
            MON_EXPECT(ids == errors, "errors", why);
            // the device of the configuration
            auto& type = j["configured_device_type"];
            const TPolled* conf = nullptr;
            for (auto& d: polled) {
                if (d.Slave == f.Slave && d.HasSn) {
                    conf = &d;
                }
            }
            if (conf && conf->Sim == f.Sim) {
                mon::Count("configured-compared");
                MON_EXPECT(type == conf->Type, "configured-type", "instead of " << conf->Type << " " << why);
            } else {
                mon::Count("not-configured-compared");
                MON_EXPECT(type.isNull(), "configured-type", why);
            }
            for (auto& m: j.getMemberNames()) {
                static const std::set<std::string> known{"errors", "device_signature", "sn", "fw_signature", "cfg", "fw", "configured_device_type"};
                MON_EXPECT(known.count(m), "member", m << " " << why);
            }
        };
        std::string summary;
        int steps = mon::Thorough() ? 10 : 6;
        for (int i = 0; i < steps; ++i) {
            for (auto& f: fast) {
                f.Reads.clear();
                f.Tries.clear();
            }
            delivered.clear();
            scan = SCANNING;
            scans = 0;
            probed = nullptr;
            Json::Value q(Json::objectValue);
            if (variant == SERIAL) {
                q["path"] = name;
                q["baud_rate"] = r.Pick(bauds);
                q["parity"] = r.Of({"N", "N", "E"});
                q["data_bits"] = 8;
                q["stop_bits"] = r.Range(1, 2);
            } else {
                q["ip"] = "sim";
                q["port"] = 502;
            }
            bool probe = r.Chance(35) && (!fast.empty() || !polled.empty());
            std::string mode = "all";
            int command = 0x46;
            if (probe) {
                q["slave_id"] = r.Chance(15) || fast.empty() ? 231 : r.Of({fast[r.Below(fast.size())].Slave});
                if (mbap) {
                    q["protocol"] = "modbus-tcp";
                }
                auto it = bus->Slaves.find(q["slave_id"].asInt());
                for (auto& f: fast) {
                    if (it != bus->Slaves.end() && it->second == f.Sim) {
                        probed = &f;
                    }
                }
                // polling of the serial number cannot be told from it
                for (auto& d: polled) {
                    if (probed && d.Sim == probed->Sim && d.Type == "t1") {
                        probed = nullptr;
                        break;
                    }
                }
                if (!probed && it != bus->Slaves.end()) {
                    continue;
                }
            } else {
                if (r.Chance(70)) {
                    mode = r.Of({"all", "all", "start", "next"});
                    q["mode"] = mode;
                }
                if (r.Chance(50)) {
                    q["command"] = command = r.Of({0x46, 0x60});
                }
            }
            faultsNow = r.Chance(70);
            bad = portFaults;
            svc.RunFor(milliseconds(r.Range(0, 300)));
            judging = true;
            auto reply = rpc.Call(probe ? "device" : "port", probe ? "Probe" : "Scan", q, [&]() { judging = false; });
            auto start = Now();
            while (!reply->Count() && Now() - start < 120s) {
                svc.RunFor(100ms);
            }
            judging = false;
            bad = faultsNow = false;
            Json::FastWriter fw;
            auto why = [&]() {
                std::string s = fw.write(q) + " -> " + reply->Str().substr(0, 2500);
                for (auto* d: delivered) {
                    s += "\n    found " + describe(*d);
                }
                if (probed) {
                    s += "\n    probed " + describe(*probed);
                }
                return s;
            };
            mon::Count(probe ? "probes" : "scans");
            MON_EXPECT(reply->Count() == 1, "no-reply", why());
            if (reply->Count() != 1) {
                break;
            }
            mon::Max("reply-ms", std::chrono::duration_cast<milliseconds>(Now() - start).count());
            if (portFaults) {
                mon::Count("port-faults");
                std::set<std::string> seen;
                for (auto& d: reply->Result["devices"]) {
                    // SN of MAP devices are cut: the same SN of different devices is possible
                    MON_EXPECT(seen.insert(d["sn"].asString() + "/" + d["cfg"]["slave_id"].asString()).second, "double-device", why());
                }
                svc.RunFor(2s);
                port->DropRx();
                svc.RunFor(15s);
                continue;
            }
            MON_EXPECT(reply->Results == 1, "error-reply", why());
            if (!reply->Results) {
                continue;
            }
            auto& res = reply->Result;
            if (probe) {
                auto sn = probed ? probed->Reads.find({270, 2}) : std::map<std::pair<int, int>, EOutcome>::iterator();
                if (!probed || !(variant != SERIAL || q["baud_rate"] == probed->Baud && q["parity"] == probed->Parity)) {
                    MON_EXPECT(res.isObject() && res.empty(), "probe-nobody", why());
                    mon::Count("probe-nobody");
                    continue;
                }
                MON_EXPECT(sn != probed->Reads.end(), "sn-not-read", why());
                if (sn == probed->Reads.end()) {
                    continue;
                }
                if (sn->second == GOOD) {
                    details(*probed, res, why());
                    mon::Count("probe-details");
                } else if (res.empty()) {
                    mon::Count("probe-silent");
                    MON_EXPECT(sn->second == BAD && scan == SILENT, "probe-silent", why());
                } else {
                    mon::Count("probe-sn-error");
                    MON_EXPECT(res.size() == 1 && res["errors"].size() == 1 && res["errors"][0]["id"] == "com.wb.serial_driver.device.read_sn_error", "probe-sn-error", why());
                }
                continue;
            }
            auto& list = res["devices"];
            MON_EXPECT(list.isArray(), "devices", why());
            if (variant == MODBUS_TCP) {
                mon::Count("not-supported");
                MON_EXPECT(res.size() == 1 && list.empty(), "not-supported", why());
                continue;
            }
            if (repeating && mode == "all") {
                mon::Count("repeating");
                std::set<uint32_t> unique;
                std::vector<TFast*> u;
                for (auto* d: delivered) {
                    if (unique.insert(d->Sn).second) {
                        u.push_back(d);
                    }
                }
                MON_EXPECT(delivered.size() < 1000, "endless", why());
                delivered = u;
            } else {
                bool wantError = scan == BROKEN || scan == SILENT && (mode == "next" || !delivered.empty() || scans > 1);
                MON_EXPECT(res.isMember("error") == wantError, "error-text", why());
                MON_EXPECT(mode == "all" ? scan != SCANNING : scans == 1, "scan-commands", scans << " " << why());
            }
            MON_EXPECT(list.size() == delivered.size(), list.size() < delivered.size() ? "device-lost" : "device-invented", why());
            if (list.size() != delivered.size()) {
                continue;
            }
            for (size_t k = 0; k < delivered.size(); ++k) {
                details(*delivered[k], list[Json::ArrayIndex(k)], why());
                mon::Count("devices-found");
            }
            mon::Max("devices", delivered.size());
            for (auto* d: delivered) {
                mon::Distinct(describe(*d));
            }
            if (scan == END && mode == "all") {
                mon::Count("whole-scans");
                for (auto& f: fast) {
                    bool fits = (command == 0x46 ? f.Actual : f.Deprecated) && (variant != SERIAL || q["baud_rate"] == f.Baud && q["parity"] == f.Parity);
                    MON_EXPECT(fits == (std::find(delivered.begin(), delivered.end(), &f) != delivered.end()), "other-devices", why());
                }
            }
            summary = why();
        }
        svc.RunFor(30s);
        MON_EXPECT(variant != SERIAL || port->Current.BaudRate == baud && port->Current.Parity == port->Configured.Parity && port->Current.StopBits == port->Configured.StopBits,
                   "line-settings", port->Current.BaudRate << port->Current.Parity);
        for (auto& d: polled) {
            d.Sim->Set(EType::HOLDING, 1, 2000 + r.Below(1000));
        }
        svc.RunFor(5s);
        for (auto& d: polled) {
            auto v = svc.Rec->Value(d.Id, "c1");
            mon::Count("polling-judged");
            MON_EXPECT(v && *v == std::to_string(d.Sim->Get(EType::HOLDING, 1)), "polling-disturbed", d.Id << " shows " << (v ? *v : "nothing") << " after " << summary);
        }
        mon::Sample(summary.substr(0, 600));
    }
}

MON_CHECK("R04", Case);
