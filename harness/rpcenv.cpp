#include "rpcenv.h"

namespace rpcenv
{
    std::string TReply::Str() const
    {
        std::ostringstream o;
        if (!Count()) {
            return "no reply";
        }
        if (Results) {
            Json::FastWriter w;
            auto s = w.write(Result);
            o << Results << " result " << s.substr(0, s.size() - 1) << " ";
        }
        if (Errors) {
            o << Errors << " error " << Code << " " << mon::Quote(Error);
        }
        return o.str();
    }

    TRpc::TRpc(sys::TService& svc, PTemplateMap templates)
        : ConfigFile(mon::Scratch() + "/config.json"),
          Server(WBMQTT::NewMqttRpcServer(nullptr, "wb-mqtt-serial")),
          Runner(svc.Driver)
    {
        Cache.RegisterCallbacks(svc.Config);
        auto s = mon::Repo() + "/wb-mqtt-serial-rpc-";
        auto e = std::string("-request.schema.json");
        Port = std::make_shared<TRPCPortHandler>(s + "port-load" + e, s + "port-setup" + e, s + "port-scan" + e, svc.Rpc, Runner, Cache, Server);
        Device = std::make_shared<TRPCDeviceHandler>(ConfigFile,
                                                     s + "device-load-config" + e,
                                                     s + "device-load" + e,
                                                     s + "device-set" + e,
                                                     s + "device-probe" + e,
                                                     s + "device-set-poll" + e,
                                                     sys::Static().Factory,
                                                     templates,
                                                     Runner,
                                                     Cache,
                                                     Server);
    }

    PReply TRpc::Call(const std::string& service, const std::string& method, const Json::Value& params, std::function<void()> done)
    {
        auto r = std::make_shared<TReply>();
        r->Called = sim::Now();
        bool* inCall = new bool(true);
        std::shared_ptr<bool> in(inCall);
        Server->Call(
            service,
            method,
            params,
            [r, in, done](const Json::Value& v) {
                ++r->Results;
                r->Result = v;
                r->At = sim::Now();
                r->Immediate = *in;
                if (done) {
                    done();
                }
            },
            [r, in, done](WBMQTT::TMqttRpcErrorCode code, const std::string& text) {
                ++r->Errors;
                r->Code = code;
                r->Error = text;
                r->At = sim::Now();
                r->Immediate = *in;
                if (done) {
                    done();
                }
            });
        *in = false;
        return r;
    }
}
