// Stand-in for libwbmqtt1: see wblib/shim_core.h
#include "wblib/shim_core.h"

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <fstream>
#include <pthread.h>

namespace WBMQTT
{
    std::function<void(const std::string&, const std::string&)> TLogger::Sink;
    bool TLogger::Mute = false;

    TLogger Error("ERROR: ", TLogger::StdErr, TLogger::RED);
    TLogger Warn("WARNING: ", TLogger::StdErr, TLogger::YELLOW);
    TLogger Info("INFO: ", TLogger::StdErr, TLogger::GREY);
    TLogger Debug("DEBUG: ", TLogger::StdErr, TLogger::WHITE, false);

    void TLogger::Flush(const std::string& text)
    {
        static std::mutex m;
        std::lock_guard<std::mutex> l(m);
        if (Sink) {
            Sink(Prefix, text);
        }
        if (!Mute) {
            std::cerr << Prefix << text << std::endl;
        }
    }

    // ------------------------------------------------------------ utils
    std::string StringFormat(const std::string& fmt, ...)
    {
        va_list ap, ap2;
        va_start(ap, fmt);
        va_copy(ap2, ap);
        int n = vsnprintf(nullptr, 0, fmt.c_str(), ap);
        va_end(ap);
        std::string s(n > 0 ? n : 0, '\0');
        if (n > 0) {
            vsnprintf(s.data(), n + 1, fmt.c_str(), ap2);
        }
        va_end(ap2);
        return s;
    }

    bool StringStartsWith(const std::string& s, const std::string& p)
    {
        return s.compare(0, p.size(), p) == 0 && s.size() >= p.size();
    }

    bool StringHasSuffix(const std::string& s, const std::string& p)
    {
        return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0;
    }

    std::vector<std::string> StringSplit(const std::string& s, char delim)
    {
        std::vector<std::string> r;
        std::istringstream ss(s);
        std::string item;
        while (std::getline(ss, item, delim)) {
            r.push_back(item);
        }
        return r;
    }

    std::vector<std::string> StringSplit(const std::string& s, const std::string& delim)
    {
        std::vector<std::string> r;
        size_t pos = 0;
        while (true) {
            auto e = s.find(delim, pos);
            if (e == std::string::npos) {
                if (pos < s.size()) {
                    r.push_back(s.substr(pos));
                }
                return r;
            }
            r.push_back(s.substr(pos, e - pos));
            pos = e + delim.size();
        }
    }

    std::string HexDump(const uint8_t* buf, size_t size)
    {
        std::string r;
        char b[4];
        for (size_t i = 0; i < size; ++i) {
            snprintf(b, sizeof b, i ? " %02x" : "%02x", buf[i]);
            r += b;
        }
        return r;
    }

    std::string HexDump(const std::vector<uint8_t>& v)
    {
        return HexDump(v.data(), v.size());
    }

    void SetThreadName(const std::string& name)
    {
        pthread_setname_np(pthread_self(), name.substr(0, 15).c_str());
    }

    std::vector<std::string> GetUnitTypes()
    {
        return {"mm/h", "m/s", "W", "kWh", "V", "mV", "m^3/h", "m^3", "Gcal/h", "cal", "Gcal", "Ohm", "mOhm", "bar",
                "mbar", "s", "min", "h", "m", "g", "kg", "mol", "cd", "%, RH", "deg C", "%", "ppm", "ppb", "A", "mA",
                "VA", "kVA", "var", "lx", "dB", "Hz", "rpm", "Pa", "deg"};
    }

    // ------------------------------------------------------------ RPC
    void TMqttRpcServer::RegisterMethod(const std::string& service, const std::string& method, TMethodHandler h)
    {
        Methods[service + "/" + method] = [h](const Json::Value& p, TResultCallback ok, TErrorCallback err) {
            ok(h(p));
        };
    }

    void TMqttRpcServer::RegisterAsyncMethod(const std::string& service,
                                             const std::string& method,
                                             TAsyncMethodHandler h)
    {
        Methods[service + "/" + method] = std::move(h);
    }

    bool TMqttRpcServer::Has(const std::string& service, const std::string& method) const
    {
        return Methods.count(service + "/" + method) != 0;
    }

    void TMqttRpcServer::Call(const std::string& service,
                              const std::string& method,
                              const Json::Value& params,
                              TResultCallback onResult,
                              TErrorCallback onError)
    {
        auto it = Methods.find(service + "/" + method);
        if (it == Methods.end()) {
            throw std::logic_error("no RPC method " + service + "/" + method);
        }
        try {
            it->second(params, onResult, onError);
        } catch (const std::exception& e) {
            onError(E_RPC_SERVER_ERROR, e.what());
        }
    }

    PMqttRpcServer NewMqttRpcServer(PMqttClient, const std::string&)
    {
        return std::make_shared<TMqttRpcServer>();
    }

    PMqttClient NewMosquittoMqttClient(const TMosquittoMqttConfig&)
    {
        throw std::runtime_error("no MQTT here");
    }

    PDriverBackend NewDriverBackend(PMqttClient c)
    {
        return std::make_shared<TDriverBackend>(std::move(c));
    }

    // ------------------------------------------------------------ driver
    PDeviceDriver NewDriver(const TDriverArgs& args)
    {
        return std::make_shared<TDeviceDriver>(args);
    }

    TDeviceDriver::TDeviceDriver(const TDriverArgs& args): Args(args)
    {
        if (Args.Backend && Args.Backend->Client) {
            Args.Backend->Client->Subscribe(
                [this](const TMqttMessage& m) {
                    // /devices/<dev>/controls/<control>/on
                    auto parts = StringSplit(m.Topic, "/");
                    if (parts.size() == 6 && parts[1] == "devices" && parts[3] == "controls" && parts[5] == "on") {
                        DeliverOn(parts[2], parts[4], m.Payload);
                    }
                },
                "/devices/+/controls/+/on");
        }
    }

    void TDeviceDriver::StopLoop()
    {
        if (Args.Backend && Args.Backend->Client) {
            Args.Backend->Client->Stop();
        }
    }

    PDriverTx TDeviceDriver::BeginTx()
    {
        return std::make_unique<TDriverTx>(this);
    }

    bool TDeviceDriver::DeliverOn(const std::string& dev, const std::string& control, const std::string& value)
    {
        PControl c;
        {
            std::lock_guard<std::recursive_mutex> l(TxMutex);
            auto it = Devices.find(dev);
            if (it == Devices.end()) {
                return false;
            }
            for (const auto& x: it->second->Controls) {
                if (x->GetId() == control) {
                    c = x;
                }
            }
        }
        if (!c || c->Args.Readonly) {
            return false;
        }
        std::vector<std::function<void(const TControlOnValueEvent&)>> handlers;
        {
            std::lock_guard<std::mutex> l(HandlersMutex);
            handlers = Handlers;
        }
        for (auto& h: handlers) {
            h(TControlOnValueEvent{c, value});
        }
        return true;
    }

    void TDeviceDriver::Publish(const std::string& topic, const std::string& payload)
    {
        if (Args.Backend && Args.Backend->Client) {
            Args.Backend->Client->Publish(TMqttMessage(topic, payload, 1, true));
        }
    }

    TDriverTx::TDriverTx(TDeviceDriver* drv): Drv(drv), Lock(drv->TxMutex)
    {}
    TDriverTx::~TDriverTx() = default;

    TFuture<PLocalDevice> TDriverTx::CreateDevice(const TLocalDeviceArgs& args)
    {
        auto d = std::make_shared<TLocalDevice>(Drv, args);
        Drv->Devices[args.Id] = d;
        d->PublishMeta(false);
        return Ready<PLocalDevice>(d);
    }

    TFuture<void> TDriverTx::RemoveDeviceById(const std::string& id)
    {
        auto it = Drv->Devices.find(id);
        if (it == Drv->Devices.end()) {
            throw std::runtime_error("no device '" + id + "'");
        }
        for (auto c = it->second->Controls.rbegin(); c != it->second->Controls.rend(); ++c) {
            (*c)->PublishMeta(true);
        }
        it->second->PublishMeta(true);
        Drv->Devices.erase(it);
        return Ready();
    }

    PDevice TDriverTx::GetDevice(const std::string& id)
    {
        auto it = Drv->Devices.find(id);
        return it == Drv->Devices.end() ? PDevice() : PDevice(it->second);
    }

    TLocalDevice::TLocalDevice(TDeviceDriver* drv, const TLocalDeviceArgs& args): Drv(drv), Args(args)
    {
        Id = args.Id;
    }

    void TLocalDevice::Publish(const std::string& topic, const std::string& payload)
    {
        Drv->Publish(topic, payload);
    }

    namespace
    {
        std::string Compact(const Json::Value& v)
        {
            Json::StreamWriterBuilder b;
            b["indentation"] = "";
            b["commentStyle"] = "None";
            return Json::writeString(b, v);
        }
        Json::Value TitlesJson(const TTitles& t)
        {
            Json::Value r(Json::objectValue);
            for (auto& i: t) {
                r[i.first] = i.second;
            }
            return r;
        }
        std::string Num(double v)
        {
            std::ostringstream s;
            s.precision(15);
            s << v;
            return s.str();
        }
    }

    void TLocalDevice::PublishMeta(bool remove)
    {
        auto base = "/devices/" + Id;
        auto pub = [&](const std::string& t, const std::string& p) { Publish(base + t, remove ? "" : p); };
        Json::Value m(Json::objectValue);
        m["driver"] = Drv->Args.Id;
        m["title"]["en"] = Args.Title;
        pub("/meta", Compact(m));
        pub("/meta/driver", Drv->Args.Id);
        if (!remove || !Err.empty()) {
            pub("/meta/error", "");
        }
        pub("/meta/name", Args.Title);
    }

    TFuture<PControl> TLocalDevice::CreateControl(const PDriverTx&, const TControlArgs& args)
    {
        if (args.Id.empty() || args.Id.find_first_of("+#/") != std::string::npos) {
            throw std::runtime_error("bad control id '" + args.Id + "'");
        }
        auto c = std::make_shared<TControl>(this, args);
        UnusedRemoved = false;
        for (auto& x: Controls) {
            if (x->GetId() == args.Id) {
                x = c;
                c->PublishMeta(false);
                return Ready<PControl>(c);
            }
        }
        Controls.push_back(c);
        c->PublishMeta(false);
        return Ready<PControl>(c);
    }

    PControl TLocalDevice::FindControl(const std::string& id) const
    {
        for (auto& c: Controls) {
            if (c->GetId() == id) {
                return c;
            }
        }
        return nullptr;
    }

    TFuture<void> TLocalDevice::RemoveUnusedControls(const PDriverTx&)
    {
        UnusedRemoved = true;
        return Ready();
    }

    TFuture<void> TLocalDevice::SetError(const PDriverTx&, const std::string& e)
    {
        if (Err != e) {
            Err = e;
            Publish("/devices/" + Id + "/meta/error", e);
        }
        return Ready();
    }

    std::string TControl::Topic() const
    {
        return "/devices/" + Dev->GetId() + "/controls/" + Args.Id;
    }

    std::shared_ptr<TDevice> TControl::GetDevice() const
    {
        return Dev->shared_from_this();
    }

    void TControl::PublishMeta(bool remove)
    {
        auto base = Topic();
        auto pub = [&](const std::string& t, const std::string& p) { Dev->Publish(base + t, remove ? "" : p); };
        Json::Value m(Json::objectValue);
        if (!Args.EnumTitles.empty()) {
            for (auto& e: Args.EnumTitles) {
                m["enum"][e.first] = TitlesJson(e.second);
            }
        }
        if (!std::isnan(Args.Max)) {
            m["max"] = Args.Max;
        }
        if (!std::isnan(Args.Min)) {
            m["min"] = Args.Min;
        }
        if (Args.Order) {
            m["order"] = Args.Order;
        }
        if (Args.Precision != 0) {
            m["precision"] = Args.Precision;
        }
        m["readonly"] = Args.Readonly;
        if (!Args.Titles.empty()) {
            m["title"] = TitlesJson(Args.Titles);
        }
        m["type"] = Args.Type;
        if (!Args.Units.empty()) {
            m["units"] = Args.Units;
        }
        pub("/meta", Compact(m));
        if (!remove || !Err.empty()) {
            pub("/meta/error", "");
        }
        if (!std::isnan(Args.Max)) {
            pub("/meta/max", Num(Args.Max));
        }
        if (!std::isnan(Args.Min)) {
            pub("/meta/min", Num(Args.Min));
        }
        if (Args.Order) {
            pub("/meta/order", std::to_string(Args.Order));
        }
        if (Args.Precision != 0) {
            pub("/meta/precision", Num(Args.Precision));
        }
        pub("/meta/readonly", Args.Readonly ? "1" : "0");
        pub("/meta/type", Args.Type);
        if (!Args.Units.empty()) {
            pub("/meta/units", Args.Units);
        }
        // libwbmqtt1 gives a new control an initial value and clears it on removal
        bool empty = Args.Type == "text" || Args.Type == "rgb" || Args.Type == "pushbutton" || Args.Type == "dimmer";
        pub("", empty ? "" : "0");
    }

    TFuture<void> TControl::SetRawValue(const PDriverTx&, const std::string& v)
    {
        Value = v;
        Dev->Publish(Topic(), v);
        return Ready();
    }

    TFuture<void> TControl::SetError(const PDriverTx&, const std::string& e)
    {
        if (Err != e) {
            Err = e;
            Dev->Publish(Topic() + "/meta/error", e);
        }
        return Ready();
    }

    TFuture<void> TControl::UpdateRawValueAndError(const PDriverTx& tx, const std::string& v, const std::string& e)
    {
        SetError(tx, e);
        return SetRawValue(tx, v);
    }

    namespace SignalHandling
    {
        void Handle(std::initializer_list<int>)
        {}
        void OnSignals(std::initializer_list<int>, std::function<void()>)
        {}
        void SetOnTimeout(std::chrono::seconds, std::function<void()>)
        {}
        void Start()
        {}
        void Stop()
        {}
        void Wait()
        {}
    }
}
