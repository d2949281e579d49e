// Stand-in for libwbmqtt1's rpc.h
#pragma once
#include "driver_args.h"
#include "json/json.h"
#include <functional>
#include <map>
#include <memory>
#include <string>
namespace WBMQTT
{
    enum TMqttRpcErrorCode
    {
        E_RPC_PARSE_ERROR = -32700,
        E_RPC_REQUEST_TIMEOUT = -32600,
        E_RPC_SERVER_ERROR = -32000
    };
    class TMqttRpcServer
    {
    public:
        typedef std::function<void(const Json::Value&)> TResultCallback;
        typedef std::function<void(int, const std::string&)> TErrorCallback;
        typedef std::function<Json::Value(const Json::Value&)> TMethodHandler;
        typedef std::function<void(const Json::Value&, TResultCallback, TErrorCallback)> TAsyncMethodHandler;
        std::map<std::string, TMethodHandler> Methods;
        std::map<std::string, TAsyncMethodHandler> AsyncMethods;
        void RegisterMethod(const std::string& service, const std::string& method, TMethodHandler handler)
        {
            Methods[service + "/" + method] = handler;
        }
        void RegisterAsyncMethod(const std::string& service, const std::string& method, TAsyncMethodHandler handler)
        {
            AsyncMethods[service + "/" + method] = handler;
        }
        void Start()
        {}
        void Stop()
        {}
    };
    typedef std::shared_ptr<TMqttRpcServer> PMqttRpcServer;
}
