// R01: every request gets exactly one reply, whatever it contains; refused requests send nothing; polling goes on
#include "confed_device_schemas_map.h"
#include "rpc/rpc_config_handler.h"
#include "rpcenv.h"
#include <filesystem>

namespace
{
    using namespace std::chrono_literals;
    using namespace sim;
    using mon::Rng;
    namespace fs = std::filesystem;

    const char* T1 = R"({"device_type":"t1","title":"T1","device":{"name":"t1","id":"t1","max_read_registers":8,
"parameters":{
 "p1":{"title":"p1","address":10,"min":0,"max":100},
 "p2":{"title":"p2","address":11,"format":"s16","condition":"p1==1"},
 "p3":{"title":"p3","address":12,"format":"u32"},
 "p4":{"title":"p4","address":14,"format":"string","string_data_size":4,"readonly":true},
 "p5":{"title":"p5","address":"3:1:3","enum":[0,1,2],"enum_titles":["a","b","c"]},
 "p6":{"title":"p6","readonly":true}},
"channels":[
 {"name":"c1","reg_type":"holding","address":1,"type":"value"},
 {"name":"c2","reg_type":"input","address":1,"type":"value"},
 {"name":"c3","reg_type":"coil","address":1,"type":"switch"},
 {"name":"c4","reg_type":"holding","address":2,"type":"text","format":"string","string_data_size":3},
 {"name":"c5","reg_type":"holding","address":6,"write_address":40,"format":"s16","type":"value","scale":0.1},
 {"name":"c6","reg_type":"holding","address":42,"write_address":41,"type":"pushbutton"}]}})";
    const char* T2 = R"({"device_type":"t2","title":"T2","hw":[{"signature":"SIG1"},{"signature":"SIG2","fw":"1.2.3"}],
"device":{"name":"t2","id":"t2","enable_wb_continuous_read":true,"response_timeout_ms":200,
"parameters":[
 {"id":"q1","title":"q1","address":10},
 {"id":"q2","title":"q2","address":11,"fw":"1.5.0","condition":"q1<3"},
 {"id":"q2","title":"q2","address":11,"fw":"1.5.0","condition":"q1>2"}],
"channels":[
 {"name":"c1","reg_type":"holding","address":1,"type":"value"},
 {"name":"c2","reg_type":"input","address":1,"type":"value","fw":"1.0.0"}]}})";
    const char* T3 = R"({"device_type":"t3","title":"T3","device":{"name":"t3","id":"t3","channels":[
 {"name":"c1","reg_type":"holding","address":1,"type":"value"}]}})";
    const char* T4 = R"({"device_type":"t4","title":"T4","device":{"name":"t4","id":"t4","protocol":"uniel","channels":[
 {"name":"c1","reg_type":"param","address":1,"type":"value"}],"parameters":{"p1":{"title":"p1","reg_type":"param","address":10}}}})";

    struct TDev
    {
        int Port, Slave;
        std::string Id, Type;
        PModbusSlave Sim;
        bool Suspended = false;
    };

    struct TCall
    {
        int Id;
        std::string Method;
        Json::Value Request;
        rpcenv::PReply Reply;
        std::string Str() const
        {
            Json::FastWriter w;
            auto s = w.write(Request);
            auto p = Reply ? Reply->Str() : std::string();
            return "#" + std::to_string(Id) + " " + Method + " " + s.substr(0, std::min<size_t>(s.size() - 1, 600)) + " -> " + p.substr(0, 300);
        }
    };

    Json::Value Junk(Rng& r, int depth = 0)
    {
        switch (r.Below(depth > 2 ? 14 : 18)) {
            case 0: return Json::Value();
            case 1: return true;
            case 2: return false;
            case 3: return -1;
            case 4: return 0;
            case 5: return r.Of({1, 2, 3, 70, 96, 247, 248, 254, 255, 256, 257, 32767, 65535, 65536});
            case 6: return Json::Value(Json::Int64(r.Of<int64_t>({INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN, 4294967296ll, 4294967295ll})));
            case 7: return Json::Value(Json::UInt64(UINT64_MAX));
            case 8: return r.Of({1.5, -0.5, 1e30, -1e30, 3.0, 255.0, 1e-300});
            case 9: return "";
            case 10: return r.Of({"abc", "N", "0x10", "12", "-3", "0x", "RTU", "TCP", "modbus", "modbus-tcp", "raw", "HEX", "STR", "all", "1e5", " 7", "999999999999999999999"});
            case 11: return std::string(r.Range(1, 40), char(r.Range(1, 255)));
            case 12: return r.Of({"t1", "t2", "t3", "t4", "dev0", "c1", "p1", "p5", "q2", "c6"});
            case 13: return r.Of({std::string("a\0b", 3), std::string("\"'\\/%s%n"), std::string(3000, 'x'), std::string("../../../etc/passwd")});
            case 14:
            case 15: {
                Json::Value a(Json::arrayValue);
                for (int i = r.Below(4); i > 0; --i) {
                    a.append(Junk(r, depth + 1));
                }
                return a;
            }
            default: {
                Json::Value o(Json::objectValue);
                for (int i = r.Below(4); i > 0; --i) {
                    o[r.Of({"a", "p1", "q1", "c1", "slave_id", "cfg", "id", "msg"})] = Junk(r, depth + 1);
                }
                return o;
            }
        }
    }

    void Mutate(Rng& r, Json::Value& v)
    {
        if (v.isObject() && !v.empty() && r.Chance(92)) {
            auto names = v.getMemberNames();
            auto& n = r.Pick(names);
            if (r.Chance(25)) {
                v.removeMember(n);
            } else if (r.Chance(15)) {
                auto& m = r.Pick(names);
                v[n] = Json::Value(v[m]);
            } else {
                Mutate(r, v[n]);
            }
            return;
        }
        if (v.isArray() && !v.empty() && r.Chance(85)) {
            auto& x = v[Json::ArrayIndex(r.Below(v.size()))];
            if (r.Chance(20)) {
                v.append(Json::Value(x));
            } else {
                Mutate(r, x);
            }
            return;
        }
        if (v.isInt() && r.Chance(40)) {
            v = Json::Value(Json::Int64(v.asInt64() + r.Range(-2, 2)));
            return;
        }
        v = Junk(r);
    }

    void Case(Rng& r, uint64_t)
    {
        sim::Reset();
        auto dir = mon::Scratch() + "/templates";
        fs::remove_all(dir);
        fs::create_directories(dir);
        int n = 0;
        for (auto* t: {T1, T2, T3, T4}) {
            sys::WriteFile(dir + "/config-t" + std::to_string(++n) + ".json", t);
        }
        auto templates = std::make_shared<TTemplateMap>(LoadConfigTemplatesSchema(mon::Repo() + "/wb-mqtt-serial-device-template.schema.json", sys::Static().Common), "");
        templates->AddTemplatesDir(dir);
        bool tcp = r.Chance(20);
        int nPorts = tcp ? 1 : r.Range(1, 2);
        const char* names[] = {"/dev/ttySIM", "/dev/ttySIB"};
        std::vector<PSimPort> ports;
        std::vector<PModbusBus> buses;
        sys::TPortMap map;
        Json::Value cfg(Json::objectValue);
        cfg["debug"] = false;
        cfg["rate_limit"] = 100000;
        cfg["ports"] = Json::Value(Json::arrayValue);
        for (int i = 0; i < nPorts; ++i) {
            auto name = tcp ? std::string("sim:502") : std::string(names[i]);
            ports.push_back(std::make_shared<TSimPort>(name, 9600));
            ports[i]->Serial = !tcp;
            buses.push_back(std::make_shared<TModbusBus>(tcp));
            ports[i]->Wire = buses[i];
            map[name] = std::make_shared<TFeaturePort>(ports[i], tcp);
            Json::Value p(Json::objectValue);
            if (tcp) {
                p["port_type"] = "modbus tcp";
                p["address"] = "sim";
                p["port"] = 502;
            } else {
                p["port_type"] = "serial";
                p["path"] = name;
                p["baud_rate"] = 9600;
            }
            p["devices"] = Json::Value(Json::arrayValue);
            cfg["ports"].append(p);
        }
        std::deque<TDev> devs;
        for (int i = 0, e = r.Range(2, 4); i < e; ++i) {
            TDev d;
            d.Port = r.Below(nPorts);
            d.Slave = 11 + i;
            d.Type = r.Of({"t1", "t1", "t2", "t3"});
            d.Sim = buses[d.Port]->Add(d.Slave);
            d.Sim->Fault = [&r](const TModbusRequest&) {
                TAnswer a;
                a.Delay = milliseconds(r.Below(8));
                return a;
            };
            for (int a = 0; a < 60; ++a) {
                d.Sim->Set(EType::HOLDING, a, r.Below(1000));
                d.Sim->Set(EType::INPUT, a, r.Below(1000));
                d.Sim->Set(EType::COIL, a, r.Below(2));
            }
            std::string model = "SIG1", fw = "1.4.0";
            for (int a = 0; a < 20; ++a) {
                d.Sim->Set(EType::HOLDING, 200 + a, a < 4 ? model[a] : 0);
                d.Sim->Set(EType::HOLDING, 250 + a, a < 5 ? fw[a] : 0);
            }
            if (i == 0 || r.Chance(70)) {
                d.Id = "dev" + std::to_string(i);
                Json::Value c(Json::objectValue);
                c["slave_id"] = std::to_string(d.Slave);
                c["id"] = d.Id;
                c["name"] = d.Id;
                c["device_type"] = d.Type;
                cfg["ports"][d.Port]["devices"].append(c);
            }
            devs.push_back(d);
        }
        sys::TService svc(cfg, map, templates);
        rpcenv::TRpc rpc(svc, templates);
        TDevicesConfedSchemasMap deviceSchemas(*templates, sys::Static().Factory, sys::Static().Common);
        TRPCConfigHandler configHandler(mon::Scratch() + "/config.json", sys::Static().Ports, templates, deviceSchemas, *sys::Static().Protocols, Json::Value(Json::objectValue), rpc.Server);
        std::deque<TCall> calls;
        int pending = 0;
        bool deviceFaults = r.Chance(30), portFaults = r.Chance(20), faultsNow = true;
        for (auto& d: devs) {
            if (deviceFaults) {
                d.Sim->Fault = [&](const TModbusRequest&) {
                    TAnswer a;
                    a.Delay = milliseconds(r.Below(8));
                    if (faultsNow && r.Chance(20)) {
                        a.Kind = r.Of({TAnswer::SILENCE, TAnswer::LOST, TAnswer::RAW});
                        a.Raw = r.Bytes(r.Range(1, 12));
                    }
                    return a;
                };
            }
        }
        bool portBad = false;
        for (auto& p: ports) {
            auto f = [&]() { return portBad && r.Chance(60); };
            if (portFaults) {
                p->FailRead = p->FailWrite = p->FailOpen = f;
            }
        }
        for (int i = 0; i < nPorts; ++i) {
            buses[i]->OnOther = [&, i](TSimPort& port, const TBytes& b) {
                TBytes pdu;
                int slave = -1;
                if (tcp && b.size() > 8) {
                    slave = b[6];
                    pdu.assign(b.begin() + 7, b.end());
                } else if (!tcp && b.size() > 3) {
                    slave = b[0];
                    pdu.assign(b.begin() + 1, b.end() - 2);
                }
                mon::Count("frames");
                if (!pending) {
                    bool poll = slave >= 0 && pdu[0] >= 1 && pdu[0] <= 4;
                    bool known = false;
                    for (auto& d: devs) {
                        known = known || d.Port == i && d.Slave == slave && !d.Id.empty();
                        // continuous read is turned on by polling
                        poll = poll || pdu.size() == 5 && pdu[0] == 6 && pdu[1] == 0 && pdu[2] == 114 && d.Port == i && d.Slave == slave && d.Type == "t2";
                    }
                    MON_EXPECT(poll && known, "sent-without-request",
                               mon::Hex(b) << " is sent while no accepted request waits for its reply; the last: " << (calls.empty() ? "" : calls.back().Str()));
                }
                if (tcp) {
                    return b.size() < 9 || b[2] || b[3] || 256 * b[4] + b[5] + 6 != int(b.size());
                }
                return b.size() < 4 || Crc16(b.data(), b.size() - 2) != b[b.size() - 2] + 256 * b[b.size() - 1];
            };
        }
        auto target = [&](Json::Value& q, const TDev& d, bool line) {
            if (tcp) {
                q["ip"] = "sim";
                q["port"] = 502;
            } else {
                q["path"] = names[d.Port];
                if (line) {
                    q["baud_rate"] = r.Of({9600, 9600, 19200});
                    q["parity"] = r.Of({"N", "E"});
                    q["data_bits"] = 8;
                    q["stop_bits"] = r.Range(1, 2);
                }
            }
        };
        auto timeouts = [&](Json::Value& q) {
            if (r.Chance(30)) {
                q["response_timeout"] = r.Of({0, 20, 100, 500});
            }
            if (r.Chance(20)) {
                q["frame_timeout"] = r.Of({0, 10, 50});
            }
            if (r.Chance(20)) {
                q["total_timeout"] = r.Of({0, 100, 3000, 20000});
            }
        };
        auto start = [&](bool idle) {
            calls.emplace_back();
            auto& c = calls.back();
            c.Id = calls.size();
            auto& d = devs[r.Below(devs.size())];
            Json::Value q(Json::objectValue);
            bool byId = !d.Id.empty() && r.Chance(50);
            std::string service = "device", method;
            auto items = [&](bool values) {
                for (auto* list: {"channels", "parameters"}) {
                    if (r.Chance(25)) {
                        continue;
                    }
                    std::vector<std::string> ids = *list == 'c' ? std::vector<std::string>{"c1", "c2", "c3", "c4", "c5", "c6"}
                                                                : std::vector<std::string>{"p1", "p2", "p3", "p4", "p5", "p6", "q1", "q2"};
                    Json::Value v(values ? Json::objectValue : Json::arrayValue);
                    for (int i = r.Below(4); i > 0; --i) {
                        auto& id = r.Pick(ids);
                        if (!values) {
                            v.append(id);
                        } else if (r.Chance(80)) {
                            v[id] = r.Chance(50) ? Json::Value(int(r.Below(5))) : Json::Value(std::to_string(r.Below(5)));
                        } else {
                            v[id] = Junk(r);
                        }
                    }
                    q[list] = v;
                }
            };
            auto kind = r.Below(10);
            if (kind == 5 && !idle) { // waits for the end of the poll cycle
                kind = 9;
            }
            switch (kind) {
                case 0:
                    service = "port";
                    method = "Load";
                    target(q, d, true);
                    q["msg"] = r.Chance(80) ? r.Of({"0b030001000195a0", "00", "", "zz", "0"}) : "11030001000195a0";
                    q["response_size"] = r.Of({0, 1, 7, 100});
                    q["format"] = r.Of({"HEX", "HEX", "STR"});
                    timeouts(q);
                    break;
                case 1:
                    service = "port";
                    method = "Load";
                    if (byId) {
                        q["device_id"] = d.Id;
                    } else {
                        target(q, d, true);
                        q["protocol"] = tcp ? "modbus-tcp" : "modbus";
                        q["slave_id"] = d.Slave;
                    }
                    q["function"] = r.Of({1, 2, 3, 4, 5, 6, 15, 16, 23});
                    q["address"] = r.Of({0, 1, 10, 50});
                    q["count"] = r.Range(1, 4);
                    if (r.Chance(60)) {
                        q["msg"] = r.Of({"0001", "00010002", "ff00", "01", "x", ""});
                        q["write_address"] = 45;
                        q["write_count"] = r.Range(1, 2);
                    }
                    timeouts(q);
                    break;
                case 2: {
                    service = "port";
                    method = "Setup";
                    target(q, d, false);
                    Json::Value a(Json::arrayValue);
                    for (int i = r.Below(3); i >= 0; --i) {
                        Json::Value x(Json::objectValue);
                        x["slave_id"] = 200 + int(r.Below(3));
                        if (r.Chance(30)) {
                            x["sn"] = 12345;
                        }
                        if (r.Chance(50)) {
                            x["baud_rate"] = 19200;
                            x["parity"] = "E";
                        }
                        x["cfg"]["baud_rate"] = 9600;
                        x["cfg"]["stop_bits"] = 2;
                        a.append(x);
                    }
                    q["items"] = a;
                    break;
                }
                case 3:
                    service = "port";
                    method = "Scan";
                    target(q, d, true);
                    q["command"] = r.Of({70, 96});
                    q["mode"] = r.Of({"all", "start", "next"});
                    break;
                case 4:
                    method = "Probe";
                    target(q, d, true);
                    q["slave_id"] = r.Chance(70) ? d.Slave : 201;
                    if (tcp) {
                        q["protocol"] = "modbus-tcp";
                    }
                    break;
                case 5:
                    method = "SetPoll";
                    if (byId) {
                        q["device_id"] = d.Id;
                    } else {
                        target(q, d, false);
                        q["slave_id"] = std::to_string(d.Slave);
                    }
                    q["poll"] = r.Chance(60);
                    break;
                case 9:
                    if (r.Chance(40)) {
                        service = "config";
                        method = r.Of({"Load", "GetSchema"});
                        q["lang"] = r.Of({"en", "ru", "de", ""});
                        q["type"] = r.Of({"t1", "t4", "uniel", "protocol:modbus", "zzz"});
                        break;
                    }
                    [[fallthrough]];
                default:
                    method = r.Of({"Load", "Set", "LoadConfig"});
                    if (byId) {
                        q["device_id"] = d.Id;
                    } else {
                        target(q, d, true);
                        q["slave_id"] = r.Chance(50) ? Json::Value(d.Slave) : Json::Value(std::to_string(d.Slave));
                        q["device_type"] = r.Chance(80) ? d.Type : r.Of({"t1", "t2", "t3", "t4", "zzz"});
                        if (tcp) {
                            q["modbus_mode"] = "TCP";
                        }
                        timeouts(q);
                    }
                    if (method == "LoadConfig") {
                        q["force"] = r.Chance(30);
                    } else {
                        items(method == "Set");
                    }
            }
            bool mutated = r.Chance(55);
            if (mutated) {
                for (int i = r.Of({1, 1, 1, 2, 3}); i > 0; --i) {
                    Mutate(r, q);
                }
                mon::Count("mutated");
            }
            if (r.Chance(2)) {
                q = Junk(r);
            }
            // Real threads, real ports and long waits are not for this test
            if (q.isObject()) {
                auto path = q.isMember("path") ? q["path"] : Json::Value();
                if (path.isString() && path.asString() != names[0] && (path.asString() != names[1] || nPorts < 2) || path.isString() && tcp) {
                    q.removeMember("path");
                }
                if (q.isMember("ip") && q.isMember("port") && (!tcp || q["ip"] != "sim" || q["port"] != 502)) {
                    q.removeMember("ip");
                }
                for (auto* t: {"response_timeout", "frame_timeout", "total_timeout", "response_size"}) {
                    if (q.isMember(t) && q[t].isNumeric() && q[t].asDouble() > 20000) {
                        q[t] = 20000;
                    }
                }
            }
            c.Method = service + "/" + method;
            c.Request = q;
            // for a frame sent in the call itself
            auto before = Now();
            uint64_t frames = 0;
            for (auto& b: buses) {
                frames += b->Log.size();
            }
            auto replied = std::make_shared<bool>(false);
            ++pending;
            c.Reply = rpc.Call(service, method, q, [&pending, replied]() {
                if (!*replied) {
                    --pending;
                }
                *replied = true;
            });
            uint64_t after = 0;
            for (auto& b: buses) {
                after += b->Log.size();
            }
            MON_EXPECT(Now() == before, "blocked", c.Str());
            MON_EXPECT(frames == after, "sent-from-call", c.Str());
            mon::Count("requests");
            mon::Count("requests-" + c.Method);
            if (c.Reply->Immediate) {
                mon::Count(c.Reply->Errors ? "refused" : "answered-at-once");
            } else {
                mon::Count("accepted");
            }
            if (c.Method == "device/SetPoll" && c.Reply->Results) {
                auto known = false;
                for (auto& x: devs) {
                    if (x.Id.empty()) {
                        continue;
                    }
                    auto q1 = q.isMember("device_id") && q["device_id"].isString() && q["device_id"].asString() == x.Id;
                    auto q2 = !q1 && q.isMember("slave_id") && q["slave_id"].asString() == std::to_string(x.Slave);
                    if (q1 || q2) {
                        x.Suspended = !q["poll"].asBool();
                        known = true;
                        break;
                    }
                }
                MON_EXPECT(known, "unknown-device-suspended", c.Str());
            }
        };
        svc.RunFor(2s);
        int steps = mon::Thorough() ? 30 : 18;
        for (int i = 0; i < steps; ++i) {
            portBad = portFaults && r.Chance(30);
            for (int k = r.Of({1, 1, 2, 3, 8}); k > 0; --k) {
                if (r.Chance(60)) {
                    start(true);
                } else {
                    bool idle = r.Chance(30);
                    sim::At(Now() + milliseconds(r.Below(300)), [&start, idle]() { start(idle); }, idle);
                }
            }
            if (r.Chance(70)) {
                svc.RunFor(milliseconds(r.Of({5, 100, 1000, 4000})));
            }
        }
        portBad = faultsNow = false;
        svc.RunFor(1s);
        for (auto& p: ports) {
            p->DropRx(); // M04 is about answers nobody has read
        }
        svc.RunFor(90s);
        for (auto& c: calls) {
            MON_EXPECT(c.Reply->Count() == 1, c.Reply->Count() ? "several-replies" : "no-reply", c.Str());
            if (c.Reply->Errors) {
                MON_EXPECT(c.Reply->Code == -32000 || c.Reply->Code == -32600, "error-code", c.Str());
                MON_EXPECT(!c.Reply->Error.empty(), "error-text", c.Str());
                if (c.Reply->Code == -32600) {
                    mon::Count("timeouts");
                }
                mon::Count("errors");
            } else {
                mon::Count("results");
                if (c.Method != "ports/Load") {
                    MON_EXPECT(c.Reply->Result.isObject() || c.Method == "config/GetSchema", "result-type", c.Str());
                }
            }
            std::string what = c.Method + (c.Reply->Errors ? c.Reply->Error.substr(0, 60) : "ok");
            for (auto& m: c.Request.isObject() ? c.Request.getMemberNames() : std::vector<std::string>()) {
                what += m + std::to_string(c.Request[m].type());
            }
            mon::Distinct(what);
        }
        MON_EXPECT(pending == 0, "pending", pending);
        // polling goes on
        std::map<TDev*, size_t> was;
        std::vector<size_t> logs;
        for (auto& d: devs) {
            if (d.Suspended) {
                Json::Value q(Json::objectValue);
                q["device_id"] = d.Id;
                q["poll"] = true;
                auto reply = rpc.Call("device", "SetPoll", q);
                mon::Count("resumed");
                MON_EXPECT(reply->Results == 1, "not-resumed", d.Id << ": " << reply->Str());
            }
        }
        svc.RunFor(30s);
        for (int i = 0; i < nPorts; ++i) {
            logs.push_back(buses[i]->Log.size());
            MON_EXPECT(!ports[i]->Opened || tcp || ports[i]->Current.BaudRate == 9600 && ports[i]->Current.Parity == ports[i]->Configured.Parity && ports[i]->Current.StopBits == ports[i]->Configured.StopBits,
                       "line-settings", ports[i]->Current.BaudRate << " " << ports[i]->Current.Parity);
        }
        for (auto& d: devs) {
            d.Sim->Set(EType::HOLDING, 1, 2000 + r.Below(1000));
        }
        svc.RunFor(5s);
        for (auto& d: devs) {
            if (d.Id.empty()) {
                continue;
            }
            auto v = svc.Rec->Value(d.Id, "c1");
            mon::Count("polling-judged");
            MON_EXPECT(v && *v == std::to_string(d.Sim->Get(EType::HOLDING, 1)), "polling-disturbed",
                       d.Id << " shows " << (v ? *v : "nothing") << " instead of " << d.Sim->Get(EType::HOLDING, 1) << "; the last request " << (calls.empty() ? "" : calls.back().Str()));
            MON_EXPECT(svc.Rec->Error(d.Id, "c1").empty(), "polling-disturbed", d.Id << " error " << svc.Rec->Error(d.Id, "c1"));
        }
        if (!calls.empty()) {
            mon::Sample(calls.back().Str());
        }
    }
}

MON_CHECK("R01", Case);
