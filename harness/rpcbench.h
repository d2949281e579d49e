// What harnesses of requests to ports and devices share: a task runner that keeps its tasks, a port that logs how it is used,
// replies that are counted.
#pragma once
#include "fakeport.h"
#include "rpc_port_driver_list.h"
#include <wblib/json_utils.h>
#include <wblib/rpc.h>
#include <map>
using namespace std::chrono;
static const int64_t MS = 1000000;
// files that can be read
static std::map<std::string, Json::Value> Files;
Json::Value WBMQTT::JSON::Parse(const std::string& name)
{
    auto it = Files.find(name);
    return it == Files.end() ? Json::Value(Json::objectValue) : it->second;
}
// what would be started and for which device
static std::vector<PSerialClientTask> Tasks;
static PSerialDevice RequestedDevice;
TSerialClientTaskRunner::TSerialClientTaskRunner(PMQTTSerialDriver driver): SerialDriver(driver)
{}
TSerialClientParams TSerialClientTaskRunner::GetSerialClientParams(const Json::Value&)
{
    TSerialClientParams p;
    p.Device = RequestedDevice;
    return p;
}
void TSerialClientTaskRunner::RunTask(const Json::Value&, PSerialClientTask task)
{
    Tasks.push_back(task);
}
// serial ports log how they are used
class TLoggingPort: public TFakePort
{
public:
    struct TSettings
    {
        int Baud, Data, Stop;
        char Parity;
    };
    std::vector<TSettings> Applied; // a reset is an entry with Baud = 0
    std::vector<size_t> AppliedAt;  // requests sent before
    bool FailApply = false, FailWrite = false, FailOpen = false, FailRead = false;
    void Open() override
    {
        if (FailOpen)
            throw TSerialDeviceException("can't open");
        TFakePort::Open();
    }
    using TFakePort::WriteBytes;
    void WriteBytes(const uint8_t* buf, int count) override
    {
        symx_assert(IsOpenFlag, "nothing is sent to a closed port");
        if (FailWrite)
            throw TSerialDeviceException("can't write");
        TFakePort::WriteBytes(buf, count);
    }
    TReadFrameResult ReadFrame(uint8_t* buf, size_t count, const microseconds& responseTimeout, const microseconds& frameTimeout, TFrameCompletePred pred = 0) override
    {
        if (FailRead)
            throw TSerialDeviceException("can't read");
        return TFakePort::ReadFrame(buf, count, responseTimeout, frameTimeout, pred);
    }
    void ApplySerialPortSettings(const TSerialPortConnectionSettings& s) override
    {
        Applied.push_back({s.BaudRate, s.DataBits, s.StopBits, s.Parity});
        AppliedAt.push_back(Sent.size());
        if (FailApply)
            throw TSerialDeviceException("can't change settings");
    }
    void ResetSerialPortSettings() override
    {
        Applied.push_back({0, 0, 0, 0});
        AppliedAt.push_back(Sent.size());
    }
    // settings are applied before the first byte and taken back after the last one
    void CheckSettings(const Json::Value& request, size_t at, size_t from, size_t to)
    {
        symx_assert(Applied.size() > at && Applied[at].Baud == request["baud_rate"].asInt() && Applied[at].Data == request["data_bits"].asInt() && Applied[at].Stop == request["stop_bits"].asInt() && Applied[at].Parity == request["parity"].asString()[0] && AppliedAt[at] == from, "the requested settings are applied before the first byte is sent");
        if (FailApply)
            symx_assert(Sent.empty(), "without the requested settings nothing is sent");
        else
            symx_assert(Applied.size() > at + 1 && Applied[at + 1].Baud == 0 && AppliedAt[at + 1] == to, "the settings of the port are restored after the exchange");
    }
};
struct TReply
{
    int Results = 0, Errors = 0, Code = 0;
    Json::Value Result;
    WBMQTT::TMqttRpcServer::TResultCallback OnResult()
    {
        return [this](const Json::Value& v) { ++Results, Result = v; };
    }
    WBMQTT::TMqttRpcServer::TErrorCallback OnError()
    {
        return [this](int code, const std::string&) { ++Errors, Code = code; };
    }
    void One() const
    {
        symx_assert(Results + Errors == 1, "a request is answered exactly once");
    }
};
static bool Throws(std::function<void()> f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
static void AddSettings(Json::Value& v, int which = 0)
{
    v["path"] = "/dev/ttyRS485-1";
    v["baud_rate"] = which ? 115200 : 19200;
    v["parity"] = which ? "O" : "E";
    v["data_bits"] = which ? 7 : 8;
    v["stop_bits"] = which ? 1 : 2;
}
