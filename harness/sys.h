// Runs the program's own wiring (configuration, drivers, serial clients) over simulated ports and records what it
// publishes.
#pragma once
#include "confed_protocol_schemas_map.h"
#include "mon.h"
#include "rpc/rpc_config.h"
#include "serial_config.h"
#include "serial_driver.h"
#include "sim.h"
#include "templates_map.h"
#include "wblib/wbmqtt.h"

namespace sys
{
    struct TPub
    {
        sim::TTime At;
        std::string Topic, Payload;
    };

    class TRecorder: public WBMQTT::TMqttClient
    {
    public:
        WBMQTT::TFuture<void> Publish(const WBMQTT::TMqttMessage& m) override;
        // of a control, of the error of a control, of the error of a device
        const std::string* Value(const std::string& dev, const std::string& ctl) const;
        std::string Error(const std::string& dev, const std::string& ctl) const;
        std::string DeviceError(const std::string& dev) const;
        // Called for messages of values and errors. ctl is empty for a device
        std::function<void(const std::string& dev, const std::string& ctl, bool error, const std::string& payload)> On;
        std::vector<TPub> Log;
        bool KeepLog = false;
        std::recursive_mutex M; // messages come from several threads in checks with threads
        std::string Get(const std::string& topic);
        std::map<std::string, std::string> Last;
        std::map<std::string, std::pair<sim::TTime, uint64_t>> Times; // time of the last message and their number
    };

    // Things that do not change between histories
    struct TStatic
    {
        TSerialDeviceFactory Factory;
        Json::Value Common, Ports;
        std::unique_ptr<TProtocolConfedSchemasMap> Protocols;
        TStatic();
    };
    TStatic& Static();
    PTemplateMap EmptyTemplates();
    Json::Value Json(const std::string& text);
    void WriteFile(const std::string& path, const std::string& text);
    std::string ReadFile(const std::string& path);

    using TPortMap = std::map<std::string, PFeaturePort>; // by path (or host:port)

    PHandlerConfig Load(const Json::Value& cfg, const TPortMap& ports, PTemplateMap templates = nullptr, PRPCConfig rpc = nullptr);

    class TService
    {
    public:
        TService(const Json::Value& cfg, const TPortMap& ports, PTemplateMap templates = nullptr);
        ~TService();
        void Cycle();
        void RunUntil(sim::TTime t);
        void RunFor(sim::microseconds d)
        {
            RunUntil(sim::Now() + d);
        }
        bool Write(const std::string& dev, const std::string& ctl, const std::string& value);
        PSerialDevice Device(const std::string& id) const;
        PSerialClient Client(size_t port = 0) const
        {
            return Driver->GetPortDrivers().at(port)->GetSerialClient();
        }

        std::shared_ptr<TRecorder> Rec;
        PRPCConfig Rpc;
        PHandlerConfig Config;
        WBMQTT::PDeviceDriver Mqtt;
        PMQTTSerialDriver Driver;
        uint64_t Cycles = 0;
    };
}
