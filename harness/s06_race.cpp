#include <locale>
// S06: the threads of the program run in real time under ThreadSanitizer
#include "confed_device_schemas_map.h"
#include "files_watcher.h"
#include "rpc/rpc_config_handler.h"
#include "rpc/rpc_device_handler.h"
#include "rpc/rpc_fw_update_handler.h"
#include "rpc/rpc_port_handler.h"
#include "rpc/rpc_templates_handler.h"
#include "sys.h"
#include <arpa/inet.h>
#include <filesystem>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>

namespace
{
    using namespace std::chrono_literals;
    using namespace sim;
    using mon::Rng;
    namespace fs = std::filesystem;
    using TClock = std::chrono::steady_clock;

    const int CONTROLS = 6;

    std::string Template(const std::string& type, int version, bool wb)
    {
        std::string s = R"({"device_type":")" + type + R"(","title":"T )" + std::to_string(version) + R"(",)";
        if (wb) {
            s += R"("hw":[{"signature":"SIG1"},{"signature":"SIG2","fw":"1.2.3"}],)";
        }
        s += R"("device":{"name":")" + type + R"(","id":")" + type + R"(","response_timeout_ms":20,"guard_interval_us":100,)";
        if (wb) {
            s += R"("enable_wb_continuous_read":true,)";
        }
        s += R"("parameters":{"p1":{"title":"p1","address":50,"min":0,"max":1000},"p2":{"title":"p2","address":51,"format":"s16","condition":"p1>3"},
"p3":{"title":"p3","address":52,"format":"u32"}},"channels":[)";
        for (int i = 0; i < CONTROLS; ++i) {
            s += R"({"name":"c)" + std::to_string(i) + R"(","reg_type":"holding","address":)" + std::to_string(i) + R"(,"type":"value"},)";
        }
        s += R"({"name":"i1","reg_type":"input","address":1,"type":"value"},{"name":"u1","reg_type":"holding","address":40,"format":"u32","type":"value"}]}})";
        return s;
    }

    // A bus used by the thread of its port and by the check
    struct TLockedBus: public TModbusBus
    {
        using TModbusBus::TModbusBus;
        std::mutex M;
        void OnWrite(TSimPort& port, const TBytes& data) override
        {
            std::lock_guard<std::mutex> l(M);
            TModbusBus::OnWrite(port, data);
        }
        uint16_t Get(int slave, EType t, uint32_t a)
        {
            std::lock_guard<std::mutex> l(M);
            return Slaves[slave]->Get(t, a);
        }
        void Set(int slave, EType t, uint32_t a, uint16_t v)
        {
            std::lock_guard<std::mutex> l(M);
            Slaves[slave]->Set(t, a, v);
        }
    };

    struct TCalls
    {
        std::mutex M;
        struct TCall
        {
            std::string What;
            int Replies = 0;
            bool Error = false;
            std::string Text;
            TClock::time_point At;
        };
        std::deque<TCall> All;

        void Make(WBMQTT::TMqttRpcServer& server, const std::string& service, const std::string& method, const Json::Value& q)
        {
            TCall* c;
            {
                std::lock_guard<std::mutex> l(M);
                All.emplace_back();
                c = &All.back();
                Json::FastWriter w;
                c->What = service + "/" + method + " " + w.write(q).substr(0, 300);
                c->At = TClock::now();
            }
            server.Call(
                service,
                method,
                q,
                [this, c](const Json::Value& v) {
                    std::lock_guard<std::mutex> l(M);
                    ++c->Replies;
                    Json::FastWriter w;
                    c->Text = w.write(v).substr(0, 200);
                },
                [this, c](WBMQTT::TMqttRpcErrorCode, const std::string& text) {
                    std::lock_guard<std::mutex> l(M);
                    ++c->Replies;
                    c->Error = true;
                    c->Text = text;
                });
        }
        size_t Waiting()
        {
            std::lock_guard<std::mutex> l(M);
            size_t n = 0;
            for (auto& c: All) {
                n += c.Replies == 0;
            }
            return n;
        }
    };

    class THttp: public IHttpClient
    {
    public:
        std::string GetText(const std::string& url) override
        {
            std::this_thread::sleep_for(2ms);
            return "releases:\n  sigA:\n    stable: fw/sigA/2.0.0.wbfw\n    : fw/sigA/2.0.0.wbfw\n";
        }
        std::vector<uint8_t> GetBinary(const std::string& url) override
        {
            std::this_thread::sleep_for(2ms);
            return std::vector<uint8_t>(32 + 136 * 3, 0x5a);
        }
    };

    // Answers whatever it gets with the same bytes
    struct TEcho
    {
        int Fd;
        int Port;
        std::atomic<bool> Stop{false};
        std::thread Thread;
        TEcho()
        {
            Fd = socket(AF_INET, SOCK_STREAM, 0);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if (bind(Fd, (sockaddr*)&a, sizeof(a)) || listen(Fd, 16)) {
                abort();
            }
            socklen_t l = sizeof(a);
            getsockname(Fd, (sockaddr*)&a, &l);
            Port = ntohs(a.sin_port);
            Thread = std::thread([this] {
                std::vector<pollfd> p{{Fd, POLLIN, 0}};
                while (!Stop) {
                    if (poll(p.data(), p.size(), 20) <= 0) {
                        continue;
                    }
                    for (size_t i = 1; i < p.size(); ++i) {
                        if (p[i].revents) {
                            char b[500];
                            auto n = recv(p[i].fd, b, sizeof(b), 0);
                            if (n <= 0) {
                                close(p[i].fd);
                                p.erase(p.begin() + i);
                                break;
                            }
                            if (send(p[i].fd, b, n, MSG_NOSIGNAL) < 0) {
                                // it will be closed
                            }
                        }
                    }
                    if (p[0].revents) {
                        p.push_back({accept(Fd, nullptr, nullptr), POLLIN, 0});
                    }
                }
                for (size_t i = 1; i < p.size(); ++i) {
                    close(p[i].fd);
                }
            });
        }
        ~TEcho()
        {
            Stop = true;
            Thread.join();
            close(Fd);
        }
    };

    struct TDev
    {
        int Port, Slave;
        std::string Id, Type;
        int Last[CONTROLS];
    };

    bool WaitFor(const std::function<bool()>& f, TClock::duration limit)
    {
        auto end = TClock::now() + limit;
        while (!f()) {
            if (TClock::now() > end) {
                return false;
            }
            std::this_thread::sleep_for(5ms);
        }
        return true;
    }

    std::atomic<uint64_t> Writes, Rpcs, FwRpcs, Files;

    void Case(Rng& r, uint64_t n)
    {
        auto scratch = mon::Scratch();
        auto dir = scratch + "/templates";
        auto user = scratch + "/user";
        fs::remove_all(dir);
        fs::remove_all(user);
        fs::create_directories(dir);
        fs::create_directories(user);
        for (int t = 1; t <= 3; ++t) {
            sys::WriteFile(dir + "/config-t" + std::to_string(t) + ".json", Template("t" + std::to_string(t), 0, t == 2));
        }
        auto templates = std::make_shared<TTemplateMap>(LoadConfigTemplatesSchema(mon::Repo() + "/wb-mqtt-serial-device-template.schema.json", sys::Static().Common), "");
        templates->AddTemplatesDir(dir);
        templates->AddTemplatesDir(user);
        TDevicesConfedSchemasMap schemas(*templates, sys::Static().Factory, sys::Static().Common);
        std::unique_ptr<TFilesWatcher> watcher;
        bool watch = r.Chance(60);
        std::atomic<uint64_t> events{0};
        if (watch) {
            // as main() does
            watcher = std::make_unique<TFilesWatcher>(std::vector<std::string>{dir, user}, [&](std::string file, TFilesWatcher::TEvent e) {
                ++events;
                if (e == TFilesWatcher::TEvent::CloseWrite) {
                    try {
                        for (auto& t: templates->UpdateTemplate(file)) {
                            schemas.InvalidateCache(t);
                        }
                    } catch (const std::exception&) {
                    }
                } else {
                    schemas.InvalidateCache(templates->DeleteTemplate(file));
                }
            });
        }
        int nPorts = r.Range(1, 3);
        bool faults = r.Chance(40);
        std::vector<PSimPort> ports;
        std::vector<std::shared_ptr<TLockedBus>> buses;
        std::vector<std::unique_ptr<Rng>> rngs;
        sys::TPortMap map;
        Json::Value cfg(Json::objectValue);
        cfg["debug"] = false;
        if (r.Chance(50)) {
            cfg["rate_limit"] = 100000;
        }
        cfg["max_unchanged_interval"] = r.Of({-1, 0, 1});
        cfg["ports"] = Json::Value(Json::arrayValue);
        std::deque<TDev> devs;
        std::vector<bool> tcps;
        std::atomic<bool> faultsNow{faults};
        for (int i = 0; i < nPorts; ++i) {
            bool tcp = r.Chance(35);
            tcps.push_back(tcp);
            auto name = tcp ? "sim" + std::to_string(i) + ":502" : "/dev/ttySIM" + std::to_string(i);
            ports.push_back(std::make_shared<TSimPort>(name, 115200 * 8));
            ports[i]->Serial = !tcp;
            buses.push_back(std::make_shared<TLockedBus>(tcp));
            ports[i]->Wire = buses[i];
            rngs.push_back(std::make_unique<Rng>(r.Next()));
            auto* g = rngs.back().get();
            if (faults && r.Chance(50)) {
                ports[i]->FailRead = ports[i]->FailWrite = [g, &faultsNow] { return faultsNow && g->Below(300) == 0; };
                ports[i]->FailOpen = [g, &faultsNow] { return faultsNow && g->Chance(30); };
            }
            buses[i]->OnOther = [tcp](TSimPort&, const TBytes& b) { return tcp ? b.size() < 8 || b[6] == 0xfd || 256 * b[4] + b[5] + 6 != int(b.size()) : b.size() < 4 || b[0] == 0xfd || Crc16(b.data(), b.size() - 2) != b[b.size() - 2] + 256 * b[b.size() - 1]; };
            map[name] = std::make_shared<TFeaturePort>(ports[i], tcp);
            Json::Value p(Json::objectValue);
            if (tcp) {
                p["port_type"] = "modbus tcp";
                p["address"] = "sim" + std::to_string(i);
                p["port"] = 502;
            } else {
                p["port_type"] = "serial";
                p["path"] = name;
                p["baud_rate"] = 115200;
            }
            p["response_timeout_ms"] = 20;
            p["connection_timeout_ms"] = 200;
            p["devices"] = Json::Value(Json::arrayValue);
            for (int k = r.Range(1, 3); k--;) {
                TDev d{i, int(11 + devs.size()), "dev" + std::to_string(devs.size()), r.Of({"t1", "t2", "t3"}), {}};
                auto sim = buses[i]->Add(d.Slave);
                sim->Fault = [g, &faultsNow](const TModbusRequest&) {
                    TAnswer a;
                    a.Delay = microseconds(g->Below(500));
                    if (faultsNow && g->Below(100) < 3) {
                        a.Kind = g->Of({TAnswer::SILENCE, TAnswer::LOST});
                    }
                    return a;
                };
                auto text = [&](int at, const std::string& s, int n) {
                    for (int a = 0; a < n; ++a) {
                        sim->Set(EType::HOLDING, at + a, a < int(s.size()) ? s[a] : 0);
                    }
                };
                text(200, "SIG1", 20);
                text(250, "1.4.0", 16);
                text(290, "sigA", 12);
                text(330, "1.0.0", 7);
                Json::Value c(Json::objectValue);
                c["slave_id"] = std::to_string(d.Slave);
                c["id"] = d.Id;
                c["name"] = d.Id;
                c["device_type"] = d.Type;
                p["devices"].append(c);
                devs.push_back(d);
            }
            cfg["ports"].append(p);
        }
        TEcho echo;
        auto rpcConfig = std::make_shared<TRPCConfig>();
        auto rec = std::make_shared<sys::TRecorder>();
        auto config = sys::Load(cfg, map, templates, rpcConfig);
        auto mqtt = WBMQTT::NewDriver(WBMQTT::TDriverArgs{}.SetId("wb-mqtt-serial").SetBackend(WBMQTT::NewDriverBackend(rec)));
        auto driver = std::make_shared<TMQTTSerialDriver>(mqtt, config);
        auto server = WBMQTT::NewMqttRpcServer(nullptr, "wb-mqtt-serial");
        auto fwServer = WBMQTT::NewMqttRpcServer(nullptr, "wb-mqtt-serial");
        TRPCDeviceParametersCache cache;
        cache.RegisterCallbacks(config);
        const std::string configFile = scratch + "/config.json";
        auto file = [](const std::string& s) { return mon::Repo() + "/wb-mqtt-serial-rpc-" + s + "-request.schema.json"; };
        Json::Value groups(Json::objectValue);
        TRPCConfigHandler configHandler(configFile, sys::Static().Ports, templates, schemas, *sys::Static().Protocols, groups, server);
        TRPCTemplatesHandler templatesHandler(user, configFile, templates, schemas, groups, file("templates-upload"), file("templates-delete"));
        RegisterTemplatesRpcHandlers(templatesHandler, server);
        TSerialClientTaskRunner runner(driver);
        auto portHandler = std::make_shared<TRPCPortHandler>(file("port-load"), file("port-setup"), file("port-scan"), rpcConfig, runner, cache, server);
        auto deviceHandler = std::make_shared<TRPCDeviceHandler>(configFile, file("device-load-config"), file("device-load"), file("device-set"), file("device-probe"), file("device-set-poll"),
                                                                 sys::Static().Factory, templates, runner, cache, server);
        auto fwHandler = std::make_shared<TRPCFwUpdateHandler>(runner, fwServer, rec, std::make_shared<THttp>());
        TCalls calls, fwCalls;
        std::atomic<bool> stopWrites{false}, stopRpc{false}, stopFw{false};
        Rng rw(r.Next()), rr(r.Next()), rf(r.Next()), rt(r.Next());
        std::thread writer, caller, fwCaller, editor;
        bool withRpc = r.Chance(85), withFw = r.Chance(50);
        bool early = r.Chance(20); // is stopped at once
        uint64_t written = 0;
        if (r.Chance(30)) { // requests come before the driver starts
            driver->Start();
        }
        // --- the thread of MQTT
        writer = std::thread([&] {
            int v = 0;
            while (!stopWrites) {
                auto& d = devs[rw.Below(devs.size())];
                int c = rw.Below(CONTROLS);
                v = (v + 1) % 60000;
                for (int k = rw.Of({1, 1, 2, 6}); k--;) { // the last ones may come while the first one is being written
                    v = (v + 1) % 60000;
                    MON_EXPECT(mqtt->DeliverOn(d.Id, "c" + std::to_string(c), std::to_string(v)), "no-control", d.Id << "/c" << c);
                    d.Last[c] = v;
                    ++written;
                    if (rw.Chance(50)) {
                        std::this_thread::sleep_for(microseconds(rw.Below(300)));
                    }
                }
                if (rw.Chance(20)) {
                    mqtt->DeliverOn(d.Id, "u1", std::to_string(rw.Below(100000)));
                }
                if (rw.Chance(70)) {
                    std::this_thread::sleep_for(microseconds(rw.Below(4000)));
                }
            }
        });
        // --- the thread of the RPC server
        caller = std::thread([&] {
            while (!stopRpc && withRpc) {
                auto& r = rr;
                auto& d = devs[r.Below(devs.size())];
                Json::Value q(Json::objectValue);
                auto target = [&] {
                    if (tcps[d.Port]) {
                        q["ip"] = "sim" + std::to_string(d.Port);
                        q["port"] = 502;
                        q["protocol"] = "modbus-tcp";
                        return;
                    }
                    q["path"] = "/dev/ttySIM" + std::to_string(d.Port);
                    q["baud_rate"] = 115200;
                    q["parity"] = "N";
                    q["data_bits"] = 8;
                    q["stop_bits"] = 2;
                };
                switch (r.Below(15)) {
                    case 0:
                        target();
                        q["msg"] = "0b030001000195a0";
                        q["format"] = "HEX";
                        q["response_size"] = 7;
                        q["response_timeout"] = 5;
                        calls.Make(*server, "port", "Load", q);
                        break;
                    case 1:
                        q["device_id"] = d.Id;
                        q["function"] = 3;
                        q["address"] = r.Range(0, 5);
                        q["count"] = 1;
                        calls.Make(*server, "port", "Load", q);
                        break;
                    case 2: // a port that is not in the configuration
                    case 3:
                        q["ip"] = "127.0.0.1";
                        q["port"] = r.Chance(70) ? echo.Port : 1 + int(r.Below(6));
                        q["msg"] = "0102030405";
                        q["format"] = "HEX";
                        q["response_size"] = 5;
                        q["response_timeout"] = 10;
                        calls.Make(*server, "port", "Load", q);
                        break;
                    case 4:
                        target();
                        q["command"] = 70;
                        q["mode"] = "start";
                        calls.Make(*server, "port", "Scan", q);
                        break;
                    case 5:
                        target();
                        q["slave_id"] = d.Slave;
                        calls.Make(*server, "device", "Probe", q);
                        break;
                    case 6:
                        q["device_id"] = d.Id;
                        q["poll"] = r.Chance(50);
                        calls.Make(*server, "device", "SetPoll", q);
                        break;
                    case 7:
                    case 12:
                    case 13:
                        if (r.Chance(50)) {
                            q["device_id"] = d.Id;
                        } else {
                            target();
                            q["slave_id"] = std::to_string(d.Slave);
                            q["device_type"] = d.Type;
                        }
                        q["force"] = r.Chance(50);
                        calls.Make(*server, "device", "LoadConfig", q);
                        break;
                    case 8:
                        q["device_id"] = d.Id;
                        q["channels"].append("c1");
                        q["parameters"].append("p1");
                        calls.Make(*server, "device", "Load", q);
                        break;
                    case 9:
                        q["device_id"] = d.Id;
                        q["parameters"]["p1"] = int(r.Below(1000));
                        calls.Make(*server, "device", "Set", q);
                        break;
                    case 10:
                        q["lang"] = "en";
                        calls.Make(*server, "config", "Load", q);
                        break;
                    case 11:
                        q["type"] = r.Of({"t1", "t2", "t3", "u1"});
                        calls.Make(*server, "config", "GetSchema", q);
                        break;
                    default:
                        if (r.Chance(60)) {
                            q["content"] = Template(r.Of({"u1", "u2", "t3"}), r.Below(1000), false);
                            q["filename"] = "x" + std::to_string(r.Below(3)) + ".json";
                            q["force"] = true;
                            calls.Make(*server, "templates", "Upload", q);
                        } else {
                            q["type"] = r.Of({"u1", "u2", "t3"});
                            q["force"] = true;
                            calls.Make(*server, "templates", "Delete", q);
                        }
                }
                ++Rpcs;
                std::this_thread::sleep_for(microseconds(r.Below(30000)));
            }
        });
        // --- that of the other RPC server
        fwCaller = std::thread([&] {
            while (!stopFw && withFw) {
                auto& r = rf;
                auto& d = devs[r.Below(devs.size())];
                Json::Value q(Json::objectValue);
                q["slave_id"] = d.Slave;
                if (r.Chance(15)) { // a port that is not in the configuration
                    q["port"]["path"] = scratch + "/no" + std::to_string(r.Below(3));
                } else if (tcps[d.Port]) {
                    q["port"]["path"] = "sim" + std::to_string(d.Port) + ":502";
                    q["protocol"] = "modbus-tcp";
                } else {
                    q["port"]["path"] = "/dev/ttySIM" + std::to_string(d.Port);
                }
                std::string method = r.Of({"GetFirmwareInfo", "GetFirmwareInfo", "GetFirmwareInfo", "Update", "Restore", "ClearError"});
                if (method == "ClearError" || method == "Update") {
                    q["type"] = "firmware";
                }
                fwCalls.Make(*fwServer, "fw-update", method, q);
                ++FwRpcs;
                std::this_thread::sleep_for(microseconds(r.Below(60000)));
            }
        });
        // --- somebody edits templates
        std::atomic<bool> stopEdit{false};
        editor = std::thread([&] {
            while (!stopEdit && watch) {
                auto name = rt.Chance(50) ? dir + "/config-t" + std::to_string(rt.Range(1, 3)) + ".json" : user + "/y.json";
                if (rt.Chance(15) && fs::exists(user + "/y.json")) {
                    fs::remove(user + "/y.json");
                } else {
                    auto type = name[name.size() - 6] == 'y' ? std::string("u1") : "t" + std::string(1, name[name.size() - 6]);
                    auto text = Template(type, rt.Below(100), type == "t2");
                    sys::WriteFile(scratch + "/new", rt.Chance(90) ? text : text.substr(0, rt.Below(text.size())));
                    fs::rename(scratch + "/new", name);
                }
                ++Files;
                std::this_thread::sleep_for(microseconds(rt.Below(40000)));
            }
        });
        try {
            driver->Start(); // the second start does nothing
        } catch (...) {
        }
        std::this_thread::sleep_for(early ? milliseconds(r.Below(30)) : milliseconds(r.Range(300, 800)));
        bool judge = !early && r.Chance(60);
        if (judge) {
            stopWrites = true;
            stopRpc = true;
            stopFw = true;
            stopEdit = true;
            writer.join();
            caller.join();
            fwCaller.join();
            editor.join();
            faultsNow = false;
            for (auto& d: devs) {
                Json::Value q(Json::objectValue);
                q["device_id"] = d.Id;
                q["poll"] = true;
                TCalls ignored;
                ignored.Make(*server, "device", "SetPoll", q);
            }
            // every request is answered
            bool all = WaitFor([&] { return !calls.Waiting() && !fwCalls.Waiting(); }, 40s);
            if (!all) {
                for (auto* c: {&calls, &fwCalls}) {
                    std::lock_guard<std::mutex> l(c->M);
                    for (auto& x: c->All) {
                        MON_EXPECT(x.Replies, "no-reply", x.What);
                    }
                }
            }
            // a running update of firmware holds the port
            // the last written values get to the devices and values of devices are shown
            for (auto& d: devs) {
                for (int c = 0; c < CONTROLS; ++c) {
                    if (d.Last[c]) {
                        bool ok = WaitFor([&] { return buses[d.Port]->Get(d.Slave, EType::HOLDING, c) == d.Last[c]; }, 20s);
                        MON_EXPECT(ok, "write-lost", d.Id << "/c" << c << " is " << buses[d.Port]->Get(d.Slave, EType::HOLDING, c) << " instead of " << d.Last[c]);
                        mon::Count("writes-judged");
                    }
                }
                int value = r.Range(1, 60000);
                buses[d.Port]->Set(d.Slave, EType::INPUT, 1, value);
                auto topic = "/devices/" + d.Id + "/controls/i1";
                bool ok = WaitFor([&] { return rec->Get(topic) == std::to_string(value); }, 20s);
                MON_EXPECT(ok, "value-not-shown", topic << " is " << rec->Get(topic) << " instead of " << value << ", error " << rec->Get(topic + "/meta/error"));
                for (int c = 0; c < CONTROLS; ++c) {
                    if (d.Last[c]) {
                        auto t = "/devices/" + d.Id + "/controls/c" + std::to_string(c);
                        bool ok = WaitFor([&] { return rec->Get(t) == std::to_string(d.Last[c]); }, 20s);
                        MON_EXPECT(ok, "written-value-not-shown", t << " is " << rec->Get(t) << " instead of " << d.Last[c]);
                    }
                }
                mon::Count("values-judged");
            }
        }
        // --- the end, as main() does it: messages, then requests, then the driver
        stopWrites = true;
        if (writer.joinable()) {
            writer.join();
        }
        stopRpc = true;
        if (caller.joinable()) {
            caller.join();
        }
        auto at = TClock::now();
        driver->Stop();
        auto took = std::chrono::duration_cast<milliseconds>(TClock::now() - at).count();
        mon::Max("stop-ms", took);
        mon::Count("stops");
        stopFw = true;
        stopEdit = true;
        if (fwCaller.joinable()) {
            fwCaller.join();
        }
        if (editor.joinable()) {
            editor.join();
        }
        fwHandler.reset();
        deviceHandler.reset();
        portHandler.reset();
        for (auto* c: {&calls, &fwCalls}) {
            std::lock_guard<std::mutex> l(c->M);
            for (auto& x: c->All) {
                MON_EXPECT(x.Replies <= 1, "several-replies", x.What);
                mon::Count(x.Replies ? x.Error ? "replies-error" : "replies-result" : "replies-none");
                mon::Count((x.Error ? "error:" : x.Replies ? "done:" : "none:") + x.What.substr(0, x.What.find(' ')));
                if (x.Error) {
                    mon::Distinct(x.Text);
                }
            }
        }
        mon::Count("writes", written);
        mon::Count("rpcs", Rpcs.exchange(0));
        mon::Count("fw-rpcs", FwRpcs.exchange(0));
        mon::Count("file-changes", Files.exchange(0));
        mon::Count("file-events", events);
        uint64_t polls = 0;
        for (auto& b: buses) {
            polls += b->Log.size();
        }
        mon::Count("device-requests", polls);
        mon::Count("threads", nPorts + 5);
        std::ostringstream story;
        story << nPorts << " ports " << devs.size() << " devices " << written << " writes " << calls.All.size() << "+" << fwCalls.All.size() << " requests " << events << " template changes " << polls << " device requests, stopped in "
              << took << " ms";
        mon::Distinct(story.str());
        mon::Sample(story.str());
    }
}

namespace
{
    // The standard library remembers conversions of characters in the common locale when they are first asked for,
    // without synchronization (every thread stores the same): the memory is filled beforehand
    struct TWarmUp
    {
        TWarmUp()
        {
            auto& f = std::use_facet<std::ctype<char>>(std::locale());
            char in[256], out[256];
            for (int i = 0; i < 256; ++i) {
                in[i] = char(i);
                f.widen(in[i]);
                f.narrow(in[i], 0);
            }
            f.widen(in, in + 256, out);
            f.narrow(in, in + 256, 0, out);
        }
    } WarmUp;
}

MON_CHECK("S06", Case);
