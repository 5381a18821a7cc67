#include "sys.h"
#include <fstream>

namespace sys
{
    using namespace WBMQTT;

    TFuture<void> TRecorder::Publish(const TMqttMessage& m)
    {
        std::lock_guard<std::recursive_mutex> lock(M);
        Last[m.Topic] = m.Payload;
        auto& t = Times[m.Topic];
        t.first = sim::Now();
        ++t.second;
        if (KeepLog) {
            Log.push_back({sim::Now(), m.Topic, m.Payload});
        }
        if (On) {
            auto p = StringSplit(m.Topic, '/'); // "", devices, id, controls, id, meta, error
            if (p.size() == 5 && p[3] == "controls") {
                On(p[2], p[4], false, m.Payload);
            } else if (p.size() == 7 && p[6] == "error") {
                On(p[2], p[4], true, m.Payload);
            } else if (p.size() == 5 && p[3] == "meta" && p[4] == "error") {
                On(p[2], "", true, m.Payload);
            }
        }
        return Ready();
    }

    std::string TRecorder::Get(const std::string& topic)
    {
        std::lock_guard<std::recursive_mutex> lock(M);
        auto i = Last.find(topic);
        return i == Last.end() ? "" : i->second;
    }

    const std::string* TRecorder::Value(const std::string& dev, const std::string& ctl) const
    {
        auto i = Last.find("/devices/" + dev + "/controls/" + ctl);
        return i == Last.end() ? nullptr : &i->second;
    }
    std::string TRecorder::Error(const std::string& dev, const std::string& ctl) const
    {
        auto i = Last.find("/devices/" + dev + "/controls/" + ctl + "/meta/error");
        return i == Last.end() ? "" : i->second;
    }
    std::string TRecorder::DeviceError(const std::string& dev) const
    {
        auto i = Last.find("/devices/" + dev + "/meta/error");
        return i == Last.end() ? "" : i->second;
    }

    TStatic::TStatic()
    {
        auto repo = mon::Repo();
        RegisterProtocols(Factory);
        Common = JSON::Parse(repo + "/wb-mqtt-serial-confed-common.schema.json");
        Ports = JSON::Parse(repo + "/wb-mqtt-serial-ports.schema.json");
        Protocols = std::make_unique<TProtocolConfedSchemasMap>(repo + "/protocols", Common);
    }

    TStatic& Static()
    {
        static TStatic s;
        return s;
    }

    PTemplateMap EmptyTemplates()
    {
        static PTemplateMap t = std::make_shared<TTemplateMap>(
            LoadConfigTemplatesSchema(mon::Repo() + "/wb-mqtt-serial-device-template.schema.json", Static().Common), "");
        return t;
    }

    Json::Value Json(const std::string& text)
    {
        Json::Value v;
        Json::Reader r;
        if (!r.parse(text, v)) {
            throw std::runtime_error("bad JSON in the harness: " + text);
        }
        return v;
    }

    void WriteFile(const std::string& path, const std::string& text)
    {
        std::ofstream(path, std::ios::binary) << text;
    }

    std::string ReadFile(const std::string& path)
    {
        std::ifstream f(path, std::ios::binary);
        std::stringstream s;
        s << f.rdbuf();
        return s.str();
    }

    PHandlerConfig Load(const Json::Value& cfg, const TPortMap& ports, PTemplateMap templates, PRPCConfig rpc)
    {
        auto file = mon::Scratch() + "/config.json";
        std::ostringstream s;
        s << cfg;
        WriteFile(file, s.str());
        if (!templates) {
            templates = EmptyTemplates();
        }
        if (!rpc) {
            rpc = std::make_shared<TRPCConfig>();
        }
        return LoadConfig(file, Static().Factory, Static().Common, *templates, rpc, Static().Ports, *Static().Protocols,
                          [&](const Json::Value& p, PRPCConfig) {
                              auto name = p.isMember("path") ? p["path"].asString()
                                                             : p["address"].asString() + ":" + std::to_string(p["port"].asInt());
                              return ports.at(name);
                          });
    }

    TService::TService(const Json::Value& cfg, const TPortMap& ports, PTemplateMap templates)
        : Rec(std::make_shared<TRecorder>()),
          Rpc(std::make_shared<TRPCConfig>())
    {
        if (getenv("VLOG")) { // for looking at a replayed case
            WBMQTT::TLogger::Sink = [](const std::string& prefix, const std::string& text) {
                fprintf(stderr, "%10.6f %s%s\n", double((sim::Now() - sim::TTime{}).count()) / 1e9, prefix.c_str(), text.c_str());
            };
            ::Debug.SetEnabled(true);
        }
        Config = Load(cfg, ports, templates, Rpc);
        Mqtt = NewDriver(TDriverArgs{}.SetId("wb-mqtt-serial").SetBackend(NewDriverBackend(Rec)));
        Driver = std::make_shared<TMQTTSerialDriver>(Mqtt, Config);
    }

    TService::~TService()
    {
        Rec->On = nullptr;
        Driver->ClearDevices();
    }

    void TService::Cycle()
    {
        ++Cycles;
        Driver->LoopOnce();
    }

    void TService::RunUntil(sim::TTime t)
    {
        int same = 0;
        while (sim::Now() < t) {
            auto was = sim::Now();
            Cycle();
            if (sim::Now() == was) {
                // a cycle that neither waits nor talks; a few in a row are fine. Running them takes some time too:
                // waiting for less than a millisecond this way is not a fault
                if (++same % 50 == 0) {
                    sim::Advance(sim::microseconds(200), true);
                }
                if (same > 5000) {
                    mon::Violation("spin", "the program cycles without waiting or talking to the port for 20 ms");
                    sim::Advance(sim::milliseconds(100), true);
                    same = 0;
                }
            } else {
                same = 0;
            }
        }
    }

    bool TService::Write(const std::string& dev, const std::string& ctl, const std::string& value)
    {
        return Mqtt->DeliverOn(dev, ctl, value);
    }

    PSerialDevice TService::Device(const std::string& id) const
    {
        for (auto& p: Config->PortConfigs) {
            for (auto& d: p->Devices) {
                if (d->Device->DeviceConfig()->Id == id) {
                    return d->Device;
                }
            }
        }
        return nullptr;
    }
}
