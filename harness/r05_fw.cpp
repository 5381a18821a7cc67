// R05: a firmware update sends the image exactly and in order, one at a time, and tells the truth about it
#include "rpc/rpc_fw_update_handler.h"
#include "rpc/rpc_fw_update_helpers.h"
#include "rpcenv.h"

// The handler lets this class choose the release suite
class FwHandlerTest
{
public:
    static std::shared_ptr<TRPCFwUpdateHandler> Make(ITaskRunner& runner,
                                                     PHttpClient http,
                                                     PFwUpdateState state,
                                                     const std::string& suite,
                                                     WBMQTT::PMqttRpcServer server)
    {
        std::shared_ptr<TRPCFwUpdateHandler> h(new TRPCFwUpdateHandler(runner, http, state, suite));
        h->RegisterRpcMethods(server);
        return h;
    }
};

namespace
{
    using namespace std::chrono_literals;
    using namespace sim;
    using mon::Rng;

    const std::string Base = "https://fw-releases.wirenboard.com/";
    const std::string FwIndex = Base + "fw/by-signature/release-versions.yaml";
    const std::string BootIndex = Base + "boot/by-signature/release-versions.yaml";
    const std::string Topic = "/wb-mqtt-serial/firmware_update/state";

    struct TImage
    {
        std::string Version, Path;
        TBytes Info, Data;
        size_t Blocks() const
        {
            return (Data.size() + 135) / 136;
        }
        TBytes Block(size_t k) const
        {
            return TBytes(Data.begin() + 136 * k, Data.begin() + std::min<size_t>(136 * (k + 1), Data.size()));
        }
        TBytes File() const
        {
            auto f = Info;
            f.insert(f.end(), Data.begin(), Data.end());
            return f;
        }
    };

    class THttp: public IHttpClient
    {
    public:
        std::map<std::string, std::string> Texts;
        std::map<std::string, TBytes> Binaries;
        std::set<std::string> Down;
        std::map<std::string, TBytes> Wrong; // is got instead
        std::set<std::string> Asked;
        void Ask(const std::string& url)
        {
            Asked.insert(url);
            sim::Advance(20ms);
            if (Down.count(url)) {
                throw std::runtime_error("HTTP 503 downloading " + url);
            }
        }
        std::string GetText(const std::string& url) override
        {
            Ask(url);
            auto it = Texts.find(url);
            if (it == Texts.end()) {
                throw std::runtime_error("HTTP 404 downloading " + url);
            }
            return it->second;
        }
        TBytes GetBinary(const std::string& url) override
        {
            Ask(url);
            auto w = Wrong.find(url);
            if (w != Wrong.end()) {
                return w->second;
            }
            auto it = Binaries.find(url);
            if (it == Binaries.end()) {
                throw std::runtime_error("HTTP 404 downloading " + url);
            }
            return it->second;
        }
    };

    struct TStateLog: public WBMQTT::TMqttClient
    {
        std::function<void(const std::string&, const std::string&, bool)> On;
        WBMQTT::TFuture<void> Publish(const WBMQTT::TMqttMessage& m) override
        {
            On(m.Topic, m.Payload, m.Retained);
            return WBMQTT::TPromise<void>().GetFuture();
        }
    };

    enum EOutcome
    {
        NONE,
        GOOD,
        EXCEPTION,
        SILENT,
        BAD
    };

    struct TEvent
    {
        enum EKind
        {
            REBOOT,
            REBOOT_PRESERVE,
            INFO,
            DATA
        } Kind;
        TBytes Bytes;
        EOutcome Outcome;
        int Code; // of the exception
    };

    struct TComponent
    {
        int Number;
        std::string Signature, Version, Model;
        bool Unavailable = false;
    };

    std::string Text(Rng& r, int max)
    {
        std::string s;
        for (int i = r.Range(1, max); i > 0; --i) {
            s += char(r.Chance(85) ? r.Range('a', 'z') : r.Of({'-', '_', '.', '5', 'X', '~', '!'}));
        }
        return s;
    }

    std::string Version(Rng& r)
    {
        return std::to_string(r.Below(4)) + "." + std::to_string(r.Below(12)) + "." + std::to_string(r.Below(12));
    }

    int Compare(const std::string& a, const std::string& b)
    {
        int x[3] = {}, y[3] = {};
        sscanf(a.c_str(), "%d.%d.%d", x, x + 1, x + 2);
        sscanf(b.c_str(), "%d.%d.%d", y, y + 1, y + 2);
        for (int i = 0; i < 3; ++i) {
            if (x[i] != y[i]) {
                return x[i] < y[i] ? -1 : 1;
            }
        }
        return 0;
    }

    class TFwSlave: public TModbusSlave
    {
    public:
        using TModbusSlave::TModbusSlave;
        std::string Signature, FwVersion, BootVersion, Model;
        int Reg131 = -1; // -1: there is no such a register
        bool ShortModel = false;
        std::vector<TComponent> Components;
        bool Boot = false;
        bool RepeatIsError = true; // answers with an error to a repeated block
        bool RefusesInfo = false;  // does not like images
        // flashing
        const std::vector<TImage>* Images = nullptr;
        const TImage* Current = nullptr;
        TBytes Received;
        TBytes LastBlock;
        bool LastLost = false;
        std::function<void(const TImage&)> Flashed;

        void PutText(EType t, int addr, int count, const std::string& s)
        {
            for (int i = 0; i < count; ++i) {
                Set(t, addr + i, i < int(s.size()) ? uint8_t(s[i]) : 0);
            }
        }

        void Refresh()
        {
            PutText(EType::HOLDING, 290, 12, Signature);
            PutText(EType::HOLDING, 250, 16, FwVersion);
            PutText(EType::HOLDING, 330, 7, BootVersion);
            PutText(EType::HOLDING, 200, 20, Model);
            auto& ill = Illegal[EType::HOLDING];
            for (int a = 206; a < 220; ++a) {
                if (ShortModel) {
                    ill.insert(a);
                }
            }
            if (Reg131 >= 0) {
                Set(EType::HOLDING, 131, Reg131);
            } else {
                ill.insert(131);
            }
            if (Components.empty()) {
                for (int i = 0; i < 8; ++i) {
                    Illegal[EType::DISCRETE].insert(65152 + i);
                }
            }
            for (auto& c: Components) {
                Set(EType::DISCRETE, 65152 + c.Number, 1);
                auto base = 64768 + 48 * c.Number;
                PutText(EType::INPUT, base, 20, c.Model);
                PutText(EType::INPUT, base + 32, 16, c.Version);
                if (c.Unavailable) {
                    for (int i = 0; i < 12; ++i) {
                        Set(EType::INPUT, base + 20 + i, 0xfe);
                    }
                } else {
                    PutText(EType::INPUT, base + 20, 12, c.Signature);
                }
            }
        }

        void Finish()
        {
            auto* i = Current;
            Current = nullptr;
            Flashed(*i);
        }

        TBytes Execute(const TModbusRequest& q) override
        {
            auto error = [&](int code) { return TBytes{uint8_t(q.Fn | 0x80), uint8_t(code)}; };
            if (q.Fn == 6 && q.Addr == 131) {
                if (Boot || Reg131 < 0) {
                    return error(2);
                }
                Boot = true;
                return q.Pdu;
            }
            if (q.Fn == 6 && q.Addr == 129) {
                Boot = true;
                return q.Pdu;
            }
            if (q.Fn == 16 && q.Addr == 0x1000 && q.Count == 16) {
                Current = nullptr;
                if (RefusesInfo) {
                    return error(4);
                }
                for (auto& i: *Images) {
                    if (i.Info == q.Data && (Boot || i.Path.find(".compfw") != std::string::npos)) {
                        Current = &i;
                        Received.clear();
                        LastBlock.clear();
                        if (i.Data.empty()) {
                            Finish();
                        }
                        return TBytes(q.Pdu.begin(), q.Pdu.begin() + 5);
                    }
                }
                return error(4);
            }
            if (q.Fn == 16 && q.Addr == 0x2000) {
                TBytes ok(q.Pdu.begin(), q.Pdu.begin() + 5);
                if (LastLost && q.Data == LastBlock) {
                    return RepeatIsError ? error(4) : ok;
                }
                if (!Current) {
                    return error(4);
                }
                LastBlock = q.Data;
                Received.insert(Received.end(), q.Data.begin(), q.Data.end());
                if (Received.size() >= Current->Data.size()) {
                    Finish();
                }
                return ok;
            }
            if (Boot && !(q.Fn == 3 && (q.Addr == 290 || q.Addr == 330))) {
                return error(2);
            }
            return TModbusSlave::Execute(q);
        }
    };
    using PFwSlave = std::shared_ptr<TFwSlave>;

    struct TInfo // of a device, as read
    {
        bool SignatureRead = false;
        std::string Signature, Version, BootVersion, Model;
        bool CanPreserve = false;
        std::vector<TComponent> Components;
    };

    struct TFlash // that has to be done
    {
        std::string Type;
        int Component = -1;
        std::string ComponentModel, From;
        const TImage* Image = nullptr;
        bool Downloaded = false, Reboot = false, Preserve = false;
        // what was seen
        size_t Begin = 0, End = 0;
        std::vector<size_t> Confirmed; // positions in the list of events after which a block was confirmed
        bool Done = false, Started = false;
    };

    struct TState
    {
        size_t At; // number of events before it
        Json::Value Value;
    };

    bool Printable(const std::string& s)
    {
        for (unsigned char c: s) {
            if (c < 32 || c > 126) {
                return false;
            }
        }
        return true;
    }

    void Case(Rng& r, uint64_t)
    {
        sim::Reset();
        bool mbap = r.Chance(20);
        bool serial = !mbap && r.Chance(80);
        auto name = serial ? std::string("/dev/ttySIM") : std::string("sim:502");
        auto port = std::make_shared<TSimPort>(name, 9600);
        port->Serial = serial;
        auto bus = std::make_shared<TModbusBus>(mbap);
        port->Wire = bus;
        sys::TPortMap map;
        map[name] = std::make_shared<TFeaturePort>(port, mbap, false);
        Json::Value cfg(Json::objectValue), p(Json::objectValue);
        cfg["debug"] = false;
        if (serial) {
            p["port_type"] = "serial";
            p["path"] = name;
            p["baud_rate"] = 9600;
        } else {
            p["port_type"] = mbap ? "modbus tcp" : "tcp";
            p["address"] = "sim";
            p["port"] = 502;
        }
        p["devices"] = Json::Value(Json::arrayValue);
        // -------------------------------------------------------------- releases
        bool publicCtor = r.Chance(40);
        std::string suite = publicCtor ? "" : r.Of({"stable", "testing", "bullseye"});
        auto http = std::make_shared<THttp>();
        std::vector<TImage> images;
        images.reserve(100);
        std::map<std::string, const TImage*> fwOf, bootOf;
        std::ostringstream fwText, bootText;
        fwText << "releases:\n";
        bootText << "releases:\n";
        auto release = [&](const std::string& sig, bool boot, bool component, const std::string& version) {
            TImage i;
            i.Version = version;
            i.Path = std::string(boot ? "boot" : "fw") + "/by-signature/" + sig + "/" + (suite.empty() ? "main" : suite) + "/" + version + (component ? ".compfw" : ".wbfw");
            i.Info = r.Bytes(32);
            size_t n = r.Chance(10) ? 0 : r.Range(0, r.Of({1, 3, 8, mon::Thorough() ? 200 : 40})) * 136 + (r.Chance(40) ? 0 : 2 * r.Range(1, 67));
            i.Data = r.Chance(10) ? TBytes(n, r.Of({0xff, 0})) : r.Bytes(n);
            images.push_back(i);
            http->Binaries[Base + i.Path] = i.File();
            (boot ? bootOf : fwOf)[sig] = &images.back();
            auto& t = boot ? bootText : fwText;
            t << "  " << sig << ":\n";
            if (!suite.empty()) {
                t << "    other: " << (boot ? "boot/" : "fw/") << "decoy/9.9.9.wbfw\n";
            }
            t << "    " << suite << ": " << i.Path << "\n";
        };
        // -------------------------------------------------------------- devices
        std::vector<PFwSlave> devs;
        int readFault = 0, writeFault = 0;
        bool portFaults = false, portFailed = false;
        std::set<std::string> sigs;
        auto newSignature = [&]() {
            std::string s;
            do {
                s = r.Chance(6) ? r.Of({"msw5GL", "msw3G419L"}) : Text(r, 12);
            } while (!sigs.insert(s).second);
            return s;
        };
        for (int k = 0, n = r.Range(1, 3); k < n; ++k) {
            auto d = std::make_shared<TFwSlave>(r.Chance(90) ? 20 + k : r.Of({1, 247}) + 0 * k);
            if (bus->Slaves.count(d->Id)) {
                continue;
            }
            d->Images = &images;
            d->Signature = newSignature();
            d->FwVersion = r.Chance(90) ? Version(r) : r.Of({"", "\xfe\xfe", "1.2\x01"});
            d->BootVersion = r.Chance(90) ? Version(r) : r.Of({"", "\x80", "1"});
            d->Model = r.Of({"WB-MR6C", "WBLED", "\x02WB-MSW\x02", "", "WB-MIO-E Mod.1234567"});
            d->ShortModel = r.Chance(30);
            d->Reg131 = r.Of({0, 0, 0, 1, -1, -1});
            d->RepeatIsError = r.Chance(60);
            if (r.Chance(40)) {
                for (int c = 0; c < 8; ++c) {
                    if (r.Chance(35)) {
                        TComponent x;
                        x.Number = c;
                        x.Signature = newSignature();
                        x.Version = Version(r);
                        x.Model = Text(r, 20);
                        x.Unavailable = r.Chance(15);
                        d->Components.push_back(x);
                        if (r.Chance(85)) {
                            release(x.Signature, false, true, r.Chance(25) ? x.Version : Version(r));
                        }
                    }
                }
            }
            if (r.Chance(90)) {
                release(d->Signature, false, false, Version(r));
            }
            if (r.Chance(80)) {
                release(d->Signature, true, false, Version(r));
            }
            d->Set(EType::HOLDING, 1, 100 + k);
            d->Refresh();
            auto* dev = d.get();
            d->Flashed = [&, dev](const TImage& i) {
                mon::Count("flashed-by-device");
                MON_EXPECT(portFailed || dev->Received == i.Data, "image", "the device has got " << mon::Hex(dev->Received).substr(0, 400) << " instead of " << mon::Hex(i.Data).substr(0, 400));
                bool component = false;
                for (auto& c: dev->Components) {
                    if (fwOf.count(c.Signature) && fwOf[c.Signature] == &i) {
                        c.Version = i.Version;
                        component = true;
                    }
                }
                if (!component) {
                    if (i.Path.rfind("boot", 0) == 0) {
                        dev->BootVersion = i.Version;
                    } else {
                        dev->FwVersion = i.Version;
                        dev->Boot = false;
                    }
                }
                dev->Refresh();
            };
            bus->Slaves[d->Id] = d;
            devs.push_back(d);
            if (r.Chance(50)) {
                p["devices"].append(sys::Json("{\"slave_id\":\"" + std::to_string(d->Id) + "\",\"id\":\"dev" + std::to_string(k) + "\",\"name\":\"dev\",\"protocol\":\"modbus\",\"channels\":[{\"name\":\"c1\",\"reg_type\":\"holding\",\"address\":1,\"type\":\"value\"}]}"));
            }
        }
        http->Texts[FwIndex] = fwText.str();
        http->Texts[BootIndex] = bootText.str();
        cfg["ports"] = Json::Value(Json::arrayValue);
        cfg["ports"].append(p);
        // -------------------------------------------------------------- what is seen of a request
        int target = -1;
        std::map<std::pair<int, int>, EOutcome> reads; // of attributes: {address, count}
        std::vector<TEvent> events;
        std::vector<TState> states;
        for (auto& d: devs) {
            auto* dev = d.get();
            d->Fault = [&, dev](const TModbusRequest& q) {
                TAnswer a;
                if (q.Fn == 3 && q.Addr == 1) {
                    if (dev->Boot) {
                        a.Kind = TAnswer::SILENCE;
                    }
                    return a;
                }
                if (dev->Id != target) {
                    mon::Violation("other-device", q.Str() + " instead of " + std::to_string(target));
                    return a;
                }
                bool read = q.IsRead();
                bool bad = r.Chance(read ? readFault : writeFault);
                EOutcome o = GOOD;
                int code = 0;
                bool reboot = q.Fn == 6;
                a.Delay = milliseconds(r.Below(100));
                if (bad) {
                    mon::Count("faults");
                    switch (r.Below(reboot ? 3 : 5)) {
                        case 0:
                            a.Kind = TAnswer::SILENCE;
                            o = SILENT;
                            break;
                        case 1:
                            a.Kind = TAnswer::LOST;
                            o = SILENT;
                            break;
                        case 2:
                            a.Kind = TAnswer::RAW_NOEXEC;
                            code = r.Of({1, 2, 3, 6, 8});
                            o = EXCEPTION;
                            a.Raw = mbap ? TcpFrame(q.Tid, q.Slave, {uint8_t(q.Fn | 0x80), uint8_t(code)}) : RtuFrame(q.Slave, {uint8_t(q.Fn | 0x80), uint8_t(code)});
                            break;
                        default:
                            if (mbap) {
                                a.Kind = TAnswer::LOST;
                                o = SILENT;
                                break;
                            }
                            a.Kind = TAnswer::RAW;
                            o = BAD;
                            a.Raw = RtuFrame(q.Slave, read ? dev->TModbusSlave::Execute(q) : TBytes(q.Pdu.begin(), q.Pdu.begin() + 5));
                            a.Raw[a.Raw.size() - 1 - r.Below(2)] ^= 1 << r.Below(8);
                    }
                }
                if (read) {
                    auto& x = reads[{int(q.Addr), int(q.Count)}];
                    x = o;
                    if (o == GOOD && (dev->Execute(q)[0] & 0x80)) {
                        x = EXCEPTION;
                    }
                    MON_EXPECT(events.empty(), "read-while-flashing", q.Str());
                    return a;
                }
                TEvent e{TEvent::DATA, q.Data, o, code};
                if (q.Fn == 6 && q.Addr == 131) {
                    e.Kind = TEvent::REBOOT_PRESERVE;
                } else if (q.Fn == 6 && q.Addr == 129) {
                    e.Kind = TEvent::REBOOT;
                } else if (q.Fn == 16 && q.Addr == 0x1000 && q.Count == 16) {
                    e.Kind = TEvent::INFO;
                } else if (q.Fn != 16 || q.Addr != 0x2000) {
                    mon::Violation("other-write", q.Str());
                }
                if (reboot) {
                    MON_EXPECT(q.Pdu.size() == 5 && q.Pdu[3] == 0 && q.Pdu[4] == 1, "reboot-value", q.Str());
                }
                events.push_back(e);
                return a;
            };
            d->OnAnswered = [&, dev](const TModbusRequest& q, const TBytes& pdu, bool delivered) {
                if (q.IsRead() || dev->Id != target) {
                    return;
                }
                if (delivered && (pdu[0] & 0x80) && !events.empty()) {
                    events.back().Outcome = EXCEPTION;
                    events.back().Code = pdu[1];
                }
                if (q.Fn == 16 && q.Addr == 0x2000) {
                    dev->LastLost = !delivered;
                }
            };
        }
        bus->OnRequest = [&](const TModbusRequest& q) {
            if (!(q.Fn == 3 && q.Addr == 1)) {
                MON_EXPECT(q.Slave == target, "wrong-slave", q.Str() << " instead of " << target);
            }
        };
        auto fail = [&]() {
            if (portFaults && r.Chance(4)) {
                portFailed = true;
                return true;
            }
            return false;
        };
        port->FailRead = port->FailWrite = fail;
        std::string lastState;
        auto onState = [&](const std::string& topic, const std::string& payload, bool retained) {
            MON_EXPECT(topic == Topic && retained, "topic", topic);
            lastState = payload;
            mon::Count("states");
            states.push_back({events.size(), sys::Json(payload)});
            for (auto& d: states.back().Value["devices"]) {
                std::set<std::string> m;
                for (auto& x: d.getMemberNames()) {
                    m.insert(x);
                }
                static const std::set<std::string> known{"port", "protocol", "slave_id", "to_version", "progress", "from_version", "type", "error", "component_number", "component_model"};
                MON_EXPECT(m == known && d["port"]["path"] == name, "state-members", payload);
            }
        };
        sys::TService svc(cfg, map);
        rpcenv::TRpc rpc(svc, sys::EmptyTemplates());
        std::shared_ptr<TRPCFwUpdateHandler> handler;
        auto mqtt = std::make_shared<TStateLog>();
        mqtt->On = onState;
        if (publicCtor) {
            handler = std::make_shared<TRPCFwUpdateHandler>(rpc.Runner, rpc.Server, mqtt, http);
            MON_EXPECT(lastState == "{\"devices\":[]}", "first-state", lastState);
        } else {
            handler = FwHandlerTest::Make(rpc.Runner, http, std::make_shared<TFwUpdateState>(onState, Topic), suite, rpc.Server);
        }
        // errors that are shown and not cleared: {slave, type, component}
        using TKey = std::tuple<int, std::string, int>;
        auto keyOf = [](const Json::Value& d) {
            return TKey{d["slave_id"].asInt(), d["type"].asString(), d["component_number"].isNull() ? -1 : d["component_number"].asInt()};
        };
        auto shown = [&]() {
            std::map<TKey, Json::Value> s;
            if (!lastState.empty()) {
                auto j = sys::Json(lastState);
                for (auto& d: j["devices"]) {
                    MON_EXPECT(!s.count(keyOf(d)), "double-entry", lastState);
                    s[keyOf(d)] = d;
                }
            }
            return s;
        };
        svc.RunFor(1s);
        std::string story;
        int steps = mon::Thorough() ? 10 : 6;
        for (int step = 0; step < steps; ++step) {
            auto& dev = *devs[r.Below(devs.size())];
            bool absent = r.Chance(6);
            target = absent ? 99 : dev.Id;
            int faults = r.Of({0, 0, 1, 2});
            readFault = faults == 2 ? 15 : 0;
            writeFault = faults == 0 ? 0 : r.Of({2, 10, 40});
            portFaults = r.Chance(6);
            portFailed = false;
            dev.RefusesInfo = r.Chance(8);
            if (dev.Boot && r.Chance(30)) {
                dev.Boot = false; // somebody has brought it back
            }
            reads.clear();
            events.clear();
            states.clear();
            http->Asked.clear();
            http->Down.clear();
            http->Wrong.clear();
            if (r.Chance(20)) {
                for (auto& i: images) {
                    auto url = Base + i.Path;
                    if (r.Chance(25)) {
                        http->Down.insert(url);
                    } else if (r.Chance(25)) {
                        auto f = i.File();
                        f.resize(r.Chance(50) ? r.Below(32) : f.size() - 1);
                        http->Wrong[url] = f;
                    }
                }
            }
            for (auto& u: {FwIndex, BootIndex}) {
                if (r.Chance(5)) {
                    http->Down.insert(u);
                }
            }
            if (r.Chance(15)) {
                svc.RunFor(std::chrono::minutes(r.Of({5, 11, 31})));
            }
            Json::Value q(Json::objectValue);
            q["slave_id"] = target;
            q["port"]["path"] = name;
            if (serial) {
                q["port"]["baud_rate"] = r.Of({9600, 9600, 19200});
                q["port"]["parity"] = "N";
                q["port"]["data_bits"] = 8;
                q["port"]["stop_bits"] = 2;
            }
            if (mbap || r.Chance(50)) {
                q["protocol"] = mbap ? "modbus-tcp" : "modbus";
            }
            std::string method = r.Of({"Update", "Update", "Update", "Update", "Restore", "GetFirmwareInfo", "ClearError"});
            std::string type = "firmware";
            if (method == "Update" || method == "ClearError") {
                type = r.Of({"firmware", "firmware", "bootloader", "component", "component"});
                if (type != "firmware" || r.Chance(50)) {
                    q["type"] = type;
                }
            }
            bool invalid = r.Chance(10);
            if (invalid) {
                switch (r.Below(6)) {
                    case 0:
                        q.removeMember("slave_id");
                        break;
                    case 1:
                        q["slave_id"] = r.Of({-1, 256, 100000});
                        break;
                    case 2:
                        q["slave_id"] = "12";
                        break;
                    case 3:
                        q["port"].removeMember("path");
                        break;
                    case 4:
                        q.removeMember("port");
                        break;
                    default:
                        if (method == "GetFirmwareInfo" || method == "Restore") {
                            q["port"]["path"] = "";
                        } else {
                            q["type"] = Json::Value(Json::objectValue);
                        }
                }
            }
            auto before = shown();
            auto here = std::make_shared<bool>(true);
            auto reply = rpc.Call("fw-update", method, q);
            // other requests while it runs
            std::vector<std::pair<std::string, rpcenv::PReply>> others;
            auto otherUpdate = [&]() {
                std::string m = r.Of({"Update", "Restore"});
                others.push_back({m, rpc.Call("fw-update", m, q)});
            };
            bool working = !invalid && (method == "Update" || method == "Restore");
            if (working && r.Chance(30)) {
                otherUpdate();
                MON_EXPECT(others.back().second->Errors == 1, "second-update", others.back().second->Str());
            }
            if (working && r.Chance(30)) {
                sim::At(Now() + milliseconds(r.Range(1, 3000)), [&, here]() {
                    // only while it runs
                    if (*here && !events.empty() && reply->Results && handler) {
                        auto now = shown();
                        bool active = false;
                        for (auto& d: now) {
                            active = active || std::get<0>(d.first) == target && d.second["error"].isNull();
                        }
                        if (active) {
                            others.push_back({"GetFirmwareInfo", rpc.Call("fw-update", "GetFirmwareInfo", q)});
                            MON_EXPECT(others.back().second->Errors == 1, "info-while-updating", others.back().second->Str() << " " << lastState);
                        }
                    }
                });
            }
            auto start = Now();
            for (int i = 0; !reply->Count() && i < 600; ++i) {
                svc.RunFor(100ms);
            }
            svc.RunFor(100ms);
            *here = false;
            portFaults = false;
            auto why = [&]() {
                Json::FastWriter w;
                std::ostringstream o;
                o << method << " " << w.write(q) << " -> " << reply->Str() << "\n state " << lastState << "\n reads";
                for (auto& x: reads) {
                    o << " " << x.first.first << "/" << x.first.second << "=" << x.second;
                }
                o << "\n events";
                for (auto& e: events) {
                    static const char* names[] = {"reboot", "reboot-preserve", "info", "data"};
                    o << " " << names[e.Kind] << " " << mon::Hex(e.Bytes).substr(0, 12) << "=" << e.Outcome << (e.Code ? ":" + std::to_string(e.Code) : "");
                }
                return o.str().substr(0, 3000);
            };
            MON_EXPECT(reply->Count() == 1, "reply", why());
            for (auto& o: others) {
                MON_EXPECT(o.second->Count() == 1, "reply-of-other", o.first << o.second->Str());
                mon::Count("refused-while-updating");
                if (o.first != "GetFirmwareInfo") {
                    MON_EXPECT(o.second->Errors == 1, "two-updates", o.second->Str() << " " << why());
                }
            }
            if (!reply->Count()) {
                break;
            }
            mon::Max("request-ms", std::chrono::duration_cast<milliseconds>(Now() - start).count());
            mon::Count("requests");
            story += method[0];
            auto after = shown();
            if (invalid) {
                mon::Count("invalid");
                MON_EXPECT(reply->Errors == 1 && events.empty() && reads.empty() && before == after, "invalid-request", why());
                continue;
            }
            if (method == "ClearError") {
                MON_EXPECT(reply->Results == 1 && reply->Result == "Ok" && events.empty() && reads.empty(), "clear-error", why());
                for (auto& b: before) {
                    bool mine = std::get<0>(b.first) == target && std::get<1>(b.first) == type;
                    MON_EXPECT(mine != after.count(b.first), "clear-error-effect", why());
                    mon::Count(mine ? "cleared" : "not-cleared");
                }
                continue;
            }
            // what was read
            auto got = [&](int a, int c) {
                auto it = reads.find({a, c});
                return it != reads.end() && it->second == GOOD;
            };
            auto clean = [&](const std::string& s) { return Printable(s) ? s : std::string(); };
            TInfo info;
            info.SignatureRead = got(290, 12);
            if (info.SignatureRead) {
                info.Signature = clean(dev.Signature);
            }
            // The device may have been changed by the update itself: the texts of before are needed
            static const std::map<std::string, int> none;
            // ------------------------------------------------------ information
            if (portFailed) {
                mon::Count("port-failures");
            }
            bool started = info.SignatureRead && !absent && !portFailed;
            if (method == "GetFirmwareInfo") {
                MON_EXPECT(events.empty() && before == after, "info-changes", why());
                if (portFailed) {
                    continue;
                }
                if (!started) {
                    mon::Count("unreadable");
                    MON_EXPECT(reply->Errors == 1, "unreadable", why());
                    continue;
                }
                MON_EXPECT(reply->Results == 1, "info-refused", why());
                auto& j = reply->Result;
                auto ver = got(250, 16) ? clean(dev.FwVersion) : "";
                auto boot = got(330, 7) ? clean(dev.BootVersion) : "";
                std::string model = got(200, 20) ? dev.Model : got(200, 6) ? dev.Model.substr(0, 6) : "";
                model.erase(std::remove(model.begin(), model.end(), '\x02'), model.end());
                MON_EXPECT(j["fw"] == ver && j["bootloader"] == boot && j["model"] == model, "info", why());
                bool updatable = info.Signature != "msw5GL" && info.Signature != "msw3G419L";
                auto offered = [&](std::map<std::string, const TImage*>& of, const std::string& index, const std::string& sig) -> std::string {
                    if (!updatable || http->Asked.count(index) && http->Down.count(index) || !of.count(sig)) {
                        return "";
                    }
                    return of[sig]->Version;
                };
                auto av = offered(fwOf, FwIndex, info.Signature);
                auto ab = offered(bootOf, BootIndex, info.Signature);
                MON_EXPECT(j["available_fw"] == av && j["available_bootloader"] == ab, "offered", av << " " << ab << " " << why());
                MON_EXPECT(j["fw_has_update"] == (!av.empty() && !ver.empty() && Compare(av, ver) > 0), "has-update", why());
                MON_EXPECT(j["bootloader_has_update"] == (!ab.empty() && !boot.empty() && Compare(ab, boot) > 0), "has-update", why());
                MON_EXPECT(j["can_update"] == (!av.empty() || !ab.empty()), "can-update", why());
                std::set<std::string> comps;
                for (auto& c: dev.Components) {
                    auto base = 64768 + 48 * c.Number;
                    if (!updatable || !got(65152, 8) || c.Unavailable || !got(base + 20, 12) || !got(base + 32, 16) || !got(base, 20)) {
                        continue;
                    }
                    auto a = offered(fwOf, FwIndex, c.Signature);
                    if (a.empty()) {
                        continue;
                    }
                    auto n = std::to_string(c.Number);
                    comps.insert(n);
                    auto& x = j["components"][n];
                    MON_EXPECT(x["model"] == c.Model && x["fw"] == c.Version && x["available_fw"] == a && x["has_update"] == (a != c.Version), "component", n << " " << why());
                    mon::Count("components-compared");
                }
                MON_EXPECT(comps.size() == j["components"].size(), "components", why());
                mon::Count("infos-compared");
                continue;
            }
            (void)none;
            // ------------------------------------------------------ an update
            MON_EXPECT(reply->Results == 0 || reply->Result == "Ok", "ok", why());
            if (!info.SignatureRead || absent) {
                mon::Count("unreadable");
                MON_EXPECT(events.empty() && before == after, "flashed-unknown", why());
                if (!portFailed) {
                    MON_EXPECT(method == "Restore" ? reply->Results == 1 : reply->Errors == 1, "unreadable", why());
                }
                continue;
            }
            // the list of what has to be flashed
            bool refused = false; // nothing can be done
            std::vector<TFlash> plan;
            auto find = [&](std::map<std::string, const TImage*>& of, const std::string& index, const std::string& sig) -> const TImage* {
                if (http->Asked.count(index) && http->Down.count(index) || !of.count(sig)) {
                    return nullptr;
                }
                return of[sig];
            };
            auto downloaded = [&](const TImage& i) {
                auto url = Base + i.Path;
                return !http->Asked.count(url) || !http->Down.count(url) && !http->Wrong.count(url);
            };
            bool preserve = got(131, 1) && dev.Reg131 == 0;
            auto add = [&](const std::string& t, const TImage* i, bool reboot, const std::string& from) {
                TFlash f;
                f.Type = t;
                f.Image = i;
                f.Reboot = reboot;
                f.Preserve = preserve;
                f.From = from;
                f.Downloaded = downloaded(*i);
                plan.push_back(f);
            };
            auto* fw = find(fwOf, FwIndex, info.Signature);
            auto* boot = type == "bootloader" ? find(bootOf, BootIndex, info.Signature) : nullptr;
            if (method == "Restore") {
                refused = !fw;
                if (fw) {
                    add("firmware", fw, false, "");
                }
            } else if (type == "bootloader") {
                refused = !boot;
                if (boot) {
                    add("bootloader", boot, true, "*");
                    if (fw) {
                        add("firmware", fw, false, "");
                    } else {
                        refused = true;
                    }
                }
            } else if (type == "firmware") {
                refused = !fw;
                if (fw) {
                    add("firmware", fw, true, "*");
                }
            }
            std::vector<int> componentNumbers;
            if (method == "Update" && type != "bootloader" && !refused) {
                for (auto& c: dev.Components) {
                    auto base = 64768 + 48 * c.Number;
                    if (!got(65152, 8) || c.Unavailable || !got(base + 20, 12) || !got(base + 32, 16) || !got(base, 20)) {
                        continue;
                    }
                    auto* i = find(fwOf, FwIndex, c.Signature);
                    // its version before: the one shown at the start of flashing or the present one
                    if (!i) {
                        continue;
                    }
                    bool mentioned = false;
                    for (auto& s: states) {
                        for (auto& d: s.Value["devices"]) {
                            mentioned = mentioned || d["slave_id"] == target && d["type"] == "component" && d["component_number"] == c.Number && d["error"].isNull();
                        }
                    }
                    if (c.Version == i->Version && !mentioned) {
                        continue;
                    }
                    add("component", i, false, "*");
                    plan.back().Component = c.Number;
                    plan.back().ComponentModel = c.Model;
                }
            }
            if (portFailed) {
                // judged softly: whatever has happened, nothing stays active
                for (auto& a: after) {
                    MON_EXPECT(!a.second["error"].isNull(), "stays-active", why());
                }
                mon::Count("updates-with-failed-port");
                story += "p";
                continue;
            }
            if (refused) {
                mon::Count("not-released");
                // the bootloader may have been flashed when only firmware is not known
                if (plan.empty()) {
                    MON_EXPECT(events.empty(), "flashed-without-release", why());
                }
                bool tells = reply->Errors == 1;
                for (auto& a: after) {
                    tells = tells || std::get<0>(a.first) == target && !a.second["error"].isNull();
                }
                MON_EXPECT(tells, "silent-failure", why());
                for (auto& a: after) {
                    MON_EXPECT(!a.second["error"].isNull(), "stays-active", why());
                }
                story += "r";
                continue;
            }
            MON_EXPECT(reply->Results == 1, "update-refused", why());
            // ------------------------------------------------------ the list of events against the plan
            size_t pos = 0;
            auto next = [&](const char* key, TEvent::EKind kind, const TBytes* bytes) -> TEvent* {
                if (pos >= events.size()) {
                    mon::Violation(std::string("no-") + key, why());
                    return nullptr;
                }
                auto& e = events[pos];
                if (e.Kind != kind || bytes && e.Bytes != *bytes) {
                    mon::Violation(std::string("wrong-") + key, "event " + std::to_string(pos) + (bytes ? " instead of " + mon::Hex(*bytes) : "") + " is " + mon::Hex(e.Bytes) + " " + why());
                    return nullptr;
                }
                ++pos;
                return &e;
            };
            bool broken = false;
            auto flash = [&](TFlash& f) {
                f.Begin = f.End = pos;
                f.Started = true;
                if (!f.Downloaded) {
                    mon::Count("not-downloaded");
                    return;
                }
                if (f.Reboot) {
                    auto* e = next("reboot", f.Preserve ? TEvent::REBOOT_PRESERVE : TEvent::REBOOT, nullptr);
                    if (!e) {
                        broken = true;
                        return;
                    }
                    mon::Count("reboots");
                    if (e->Outcome != GOOD && (f.Preserve || e->Outcome != SILENT)) {
                        return;
                    }
                }
                auto* e = next("info", TEvent::INFO, &f.Image->Info);
                if (!e) {
                    broken = true;
                    return;
                }
                if (e->Outcome != GOOD) {
                    mon::Count("info-refused");
                    return;
                }
                for (size_t k = 0; k < f.Image->Blocks(); ++k) {
                    auto block = f.Image->Block(k);
                    bool ok = false;
                    for (int t = 0; t < 3 && !ok; ++t) {
                        auto* e = next("block", TEvent::DATA, &block);
                        if (!e) {
                            broken = true;
                            return;
                        }
                        ok = e->Outcome == GOOD || e->Outcome == EXCEPTION && e->Code == 4;
                        mon::Count(t ? "repeated-blocks" : "blocks");
                    }
                    if (!ok) {
                        mon::Count("block-failures");
                        return;
                    }
                    f.Confirmed.push_back(pos);
                }
                f.Done = true;
            };
            for (auto& f: plan) {
                if (f.Type == "component" && !f.Started) {
                    bool failedBefore = false;
                    for (auto& g: plan) {
                        failedBefore = failedBefore || g.Type == "firmware" && !g.Done;
                    }
                    if (failedBefore) {
                        continue;
                    }
                }
                if (f.Type == "firmware" && &f != &plan[0] && !plan[0].Done) {
                    continue;
                }
                flash(f);
                f.End = pos;
                if (broken) {
                    break;
                }
            }
            if (broken) {
                continue;
            }
            MON_EXPECT(pos == events.size(), "extra-writes", pos << " " << why());
            // ------------------------------------------------------ what was shown
            bool anyFailed = false;
            for (auto& f: plan) {
                TKey key{target, f.Type, f.Component};
                if (!f.Started) {
                    continue;
                }
                mon::Count("flashes");
                mon::Distinct(f.Type + " " + std::to_string(f.Image->Data.size()) + " " + std::to_string(f.Done) + " " + std::to_string(f.End - f.Begin));
                anyFailed = anyFailed || !f.Done;
                bool present = false;
                int last = 0;
                size_t total = f.Image->Blocks();
                for (auto& s: states) {
                    if (s.At < f.Begin) {
                        continue;
                    }
                    const Json::Value* e = nullptr;
                    for (auto& d: s.Value["devices"]) {
                        if (keyOf(d) == key) {
                            e = &d;
                        }
                    }
                    if (!e) {
                        if (present) {
                            MON_EXPECT(f.Done && s.At >= f.End, "finished-too-early", f.Type << " at " << s.At << " " << s.Value.toStyledString() << why());
                            present = false;
                        }
                        continue;
                    }
                    if (!(*e)["error"].isNull()) {
                        if (present) {
                            MON_EXPECT(!f.Done && s.At >= f.End, "false-error", f.Type << " at " << s.At << " " << why());
                        }
                        continue;
                    }
                    if (!present) {
                        present = true;
                        MON_EXPECT((*e)["progress"] == 0 && s.At == f.Begin, "first-progress", s.Value.toStyledString() << why());
                        last = 0;
                    }
                    MON_EXPECT((*e)["to_version"] == f.Image->Version && (f.From == "*" || (*e)["from_version"] == f.From), "versions", s.Value.toStyledString() << why());
                    if (f.Component >= 0) {
                        MON_EXPECT((*e)["component_model"] == f.ComponentModel, "component-model", s.Value.toStyledString());
                    } else {
                        MON_EXPECT((*e)["component_model"].isNull(), "component-model", s.Value.toStyledString());
                    }
                    size_t confirmed = std::upper_bound(f.Confirmed.begin(), f.Confirmed.end(), s.At) - f.Confirmed.begin();
                    int progress = (*e)["progress"].asInt();
                    MON_EXPECT(progress >= last && progress <= 100, "progress-goes-back", s.Value.toStyledString() << why());
                    MON_EXPECT(progress * total <= 100 * confirmed, "progress-ahead", confirmed << "/" << total << s.Value.toStyledString() << why());
                    if (confirmed < total) {
                        // not much behind
                        MON_EXPECT(progress + 10 >= int(100 * (confirmed ? confirmed - 1 : 0) / total), "progress-behind", confirmed << "/" << total << s.Value.toStyledString() << why());
                    }
                    last = progress;
                    mon::Count("progress-judged");
                }
                auto it = after.find(key);
                if (f.Done) {
                    MON_EXPECT(it == after.end(), "done-but-shown", f.Type << " " << why());
                    mon::Count("done");
                    mon::Count("done-" + f.Type);
                } else {
                    MON_EXPECT(it != after.end() && !it->second["error"].isNull() && !it->second["error"]["message"].asString().empty(), "failure-not-shown", f.Type << " " << f.Component << " " << why());
                    mon::Count("failed");
                    mon::Count("failed-" + f.Type);
                }
            }
            for (auto& a: after) {
                MON_EXPECT(!a.second["error"].isNull(), "stays-active", why());
                bool mine = before.count(a.first);
                for (auto& f: plan) {
                    mine = mine || a.first == TKey{target, f.Type, f.Component};
                }
                MON_EXPECT(mine, "foreign-error", why());
            }
            for (auto& b: before) {
                bool touched = false;
                for (auto& f: plan) {
                    touched = touched || f.Started && b.first == TKey{target, f.Type, f.Component};
                }
                MON_EXPECT(touched || after.count(b.first) && after[b.first] == b.second, "error-lost", why());
            }
            story += anyFailed ? "f" : "d";
            mon::Sample(why().substr(0, 500));
        }
        readFault = writeFault = 0;
        // answers left unread by the failed reads are the subject of M04
        port->DropRx();
        // polling goes on
        for (auto& d: devs) {
            d->Boot = false;
            d->Set(EType::HOLDING, 1, 500 + d->Id);
        }
        svc.RunFor(20s);
        MON_EXPECT(!serial || port->Current.BaudRate == 9600 && port->Current.StopBits == port->Configured.StopBits, "line-settings", port->Current.BaudRate);
        for (auto& d: p["devices"]) {
            auto v = svc.Rec->Value(d["id"].asString(), "c1");
            MON_EXPECT(v && *v == std::to_string(500 + std::stoi(d["slave_id"].asString())), "polling", (v ? *v : "nothing") << " " << story);
            mon::Count("polling-judged");
        }
        mon::Distinct(story);
        handler.reset();
    }
}

MON_CHECK("R05", Case);
