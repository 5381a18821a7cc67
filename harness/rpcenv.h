// The RPC handlers of the program, wired as in main()
#pragma once
#include "rpc/rpc_config_handler.h"
#include "rpc/rpc_device_handler.h"
#include "rpc/rpc_port_handler.h"
#include "sys.h"

namespace rpcenv
{
    struct TReply
    {
        int Results = 0, Errors = 0;
        Json::Value Result;
        int Code = 0;
        std::string Error;
        sim::TTime Called, At;
        bool Immediate = false; // came before the call returned
        int Count() const
        {
            return Results + Errors;
        }
        std::string Str() const;
    };
    using PReply = std::shared_ptr<TReply>;

    class TRpc
    {
    public:
        TRpc(sys::TService& svc, PTemplateMap templates);
        PReply Call(const std::string& service, const std::string& method, const Json::Value& params, std::function<void()> done = nullptr);

        const std::string ConfigFile; // the handlers keep a reference
        WBMQTT::PMqttRpcServer Server;
        TRPCDeviceParametersCache Cache;
        TSerialClientTaskRunner Runner;
        std::shared_ptr<TRPCPortHandler> Port;
        std::shared_ptr<TRPCDeviceHandler> Device;
    };
}
