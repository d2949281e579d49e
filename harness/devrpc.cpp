// C59 requests to devices: reading and writing channels and parameters of a template, reading the configuration of a device
#include "rpcbench.h"
#include "devices/modbus_device.h"
#include "rpc_device_handler.h"
#include "templates_map.h"
#include "wb_registers.h"
#include <algorithm>
#include <set>
Json::Value WBMQTT::JSON::ParseWithSettings(const std::string& name, const Json::Value&)
{
    return Parse(name);
}
static Json::Value Obj()
{
    return Json::Value(Json::objectValue);
}
static Json::Value Arr()
{
    return Json::Value(Json::arrayValue);
}
static Json::Value Item(const char* key, const char* id, int addr)
{
    Json::Value v = Obj();
    v[key] = id;
    v["reg_type"] = "holding";
    v["address"] = addr;
    return v;
}
// a Modbus device with some registers; a Wiren Board device can be told to answer reads of missing registers too
struct TSlave
{
    std::map<unsigned, uint16_t> Regs;
    std::set<unsigned> Refused;   // registers that are not written
    bool Continuous = false, HasContinuous = false;
    std::string Fw, Model;
    bool LongModel = true; // the model has 20 registers
    int SilentFrom = -1, SilentCount = 0; // requests that are lost
    int Requests = 0;
    std::vector<std::pair<unsigned, uint16_t>> Writes;
    std::set<unsigned> Reads;
    static uint16_t Word(const std::string& s, size_t i)
    {
        return i < s.size() ? (uint8_t)s[i] : 0;
    }
    bool Get(unsigned a, unsigned first, unsigned count, uint16_t& v)
    {
        if (a >= 250 && a < 266 && !Fw.empty()) {
            v = Word(Fw, a - 250);
            return true;
        }
        if (a >= 200 && a < 220 && !Model.empty()) {
            v = Word(Model, a - 200);
            return a < 206 || LongModel;
        }
        if (a == 114 && HasContinuous) {
            v = Continuous;
            return true;
        }
        auto it = Regs.find(a);
        if (it != Regs.end()) {
            v = it->second;
            return true;
        }
        v = 0xFFFE;
        return Continuous && a < 200;
    }
    bool Set(unsigned a, uint16_t v)
    {
        if (a == 114 && HasContinuous) {
            Continuous = v;
            return true;
        }
        if (!Regs.count(a) || Refused.count(a))
            return false;
        Regs[a] = v;
        Writes.push_back({a, v});
        return true;
    }
    std::vector<uint8_t> Do(const std::vector<uint8_t>& q)
    {
        std::vector<uint8_t> head{q[0], q[1]};
        auto refuse = [&](uint8_t code) { return std::vector<uint8_t>{(uint8_t)(q[0] | 0x80), code}; };
        unsigned addr = q[1] * 256u + q[2], count = q[3] * 256u + q[4];
        if (q[0] == 3) {
            if (addr != 114 && addr < 200)
                for (unsigned i = 0; i < count; ++i)
                    Reads.insert(addr + i);
            std::vector<uint8_t> r{3, (uint8_t)(2 * count)};
            for (unsigned i = 0; i < count; ++i) {
                uint16_t v;
                if (!Get(addr + i, addr, count, v))
                    return refuse(2);
                r.push_back((uint8_t)(v >> 8));
                r.push_back((uint8_t)v);
            }
            return r;
        }
        if (q[0] == 6)
            return Set(addr, (uint16_t)count) ? q : refuse(2);
        symx_assert(q[0] == 16 && q.size() == 6 + 2 * count && q[5] == 2 * count, "a request the device knows");
        for (unsigned i = 0; i < count; ++i)
            if (!(addr + i == 114 && HasContinuous) && (!Regs.count(addr + i) || Refused.count(addr + i)))
                return refuse(2);
        for (unsigned i = 0; i < count; ++i)
            Set(addr + i, (uint16_t)(q[6 + 2 * i] * 256u + q[7 + 2 * i]));
        return {q[0], q[1], q[2], q[3], q[4]};
    }
};
static void AddModbusCrc(std::vector<uint8_t>& f)
{
    uint16_t crc = 0xFFFF;
    for (auto b: f) {
        crc ^= b;
        for (int i = 0; i < 8; ++i)
            crc = (uint16_t)(crc & 1 ? (crc >> 1) ^ 0xA001 : crc >> 1);
    }
    f.push_back((uint8_t)crc);
    f.push_back((uint8_t)(crc >> 8));
}
struct TDeviceBench
{
    WBMQTT::PMqttRpcServer Server = std::make_shared<WBMQTT::TMqttRpcServer>();
    TSerialClientTaskRunner Runner{nullptr};
    TRPCDeviceParametersCache Cache;
    TSerialDeviceFactory Factory;
    PTemplateMap Templates = std::make_shared<TTemplateMap>(Json::Value());
    std::string Config = "config";
    std::shared_ptr<TRPCDeviceHandler> Handler;
    std::shared_ptr<TLoggingPort> Base = std::make_shared<TLoggingPort>();
    TSlave Slave;
    TReply Reply;
    Json::Value Template = Obj(); // "device" part
    Json::Value Hardware;
    bool ById = false, Tcp = false, Wb = false;
    TDeviceBench()
    {
        Tasks.clear();
        RequestedDevice.reset();
        Files.clear();
        TModbusDevice::Register(Factory);
        Handler = std::make_shared<TRPCDeviceHandler>(Config, "", "", "", "", "", Factory, Templates, Runner, Cache, Server);
        Template["name"] = "n";
        Base->Description = "/dev/ttyRS485-1";
        Base->Answer = [this](const std::vector<uint8_t>& sent) {
            symx_assert(sent[Tcp ? 6 : 0] == 12, "the request is for the device");
            int n = Slave.Requests++;
            if (Slave.SilentFrom >= 0 && n >= Slave.SilentFrom && n < Slave.SilentFrom + Slave.SilentCount)
                return std::vector<uint8_t>();
            std::vector<uint8_t> q = Tcp ? std::vector<uint8_t>(sent.begin() + 7, sent.end()) : std::vector<uint8_t>(sent.begin() + 1, sent.end() - 2);
            auto pdu = Slave.Do(q);
            std::vector<uint8_t> r{12};
            if (Tcp)
                r = {sent[0], sent[1], 0, 0, 0, (uint8_t)(pdu.size() + 1), 12};
            r.insert(r.end(), pdu.begin(), pdu.end());
            if (!Tcp)
                AddModbusCrc(r);
            return r;
        };
    }
    void Init()
    {
        Json::Value root = Obj();
        root["device_type"] = "D";
        if (Wb) {
            Template["enable_wb_continuous_read"] = true;
            root["hw"] = Hardware;
        }
        root["device"] = Template;
        Files["/d.json"] = root;
        Templates->UpdateTemplate("/d.json");
        if (!ById)
            return;
        auto t = Templates->GetTemplate("D");
        auto params = Factory.GetProtocolParams(Tcp ? "modbus-tcp" : "modbus");
        auto c = std::make_shared<TDeviceConfig>("id", "12", Tcp ? "modbus-tcp" : "modbus");
        c->DeviceType = "D";
        LoadCommonDeviceParameters(*c, t->GetTemplate(), Wb);
        RequestedDevice = params.factory->CreateDevice(t->GetTemplate(), c, params.protocol);
        RequestedDevice->SetWbDevice(Wb);
    }
    Json::Value Request()
    {
        Json::Value r = Obj();
        if (ById) {
            r["device_id"] = "id";
            return r;
        }
        AddSettings(r);
        r["slave_id"] = "12";
        r["device_type"] = "D";
        if (Tcp)
            r["modbus_mode"] = "TCP";
        return r;
    }
    bool Call(const std::string& method, const Json::Value& request)
    {
        Reply = TReply();
        bool refused = Throws([&] { Server->AsyncMethods.at(method)(request, Reply.OnResult(), Reply.OnError()); });
        symx_assert(!refused && !Reply.Results && !Reply.Errors && Tasks.size() == 1, "a good request is accepted");
        auto port = std::make_shared<TFeaturePort>(Base, false);
        TSerialClientDeviceAccessHandler access(nullptr);
        ISerialClientTask::TRunResult r = ISerialClientTask::TRunResult::RETRY;
        size_t applied = Base->Applied.size(), sent = Base->Sent.size();
        bool thrown = Throws([&] { r = Tasks[0]->Run(port, access, {}); });
        symx_assert(!thrown && r == ISerialClientTask::TRunResult::OK, "the task is over");
        Reply.One();
        Tasks.clear();
        if (ById)
            symx_assert(Base->Applied.size() == applied, "a configured device is used with the settings of its port");
        else
            Base->CheckSettings(request, applied, sent, Base->Sent.size());
        return Reply.Results;
    }
};
static uint16_t AnyValue(const char* name)
{
    static const uint16_t values[] = {0x8001, 1, 0, 2, 0xFFFE};
    return values[Pick(name, 0, symx_param("values", 4))];
}
static bool Is(const Json::Value& v, bool exists, uint16_t raw, bool s16)
{
    if (!exists)
        return v.isString() && v.asString() == "unsupported";
    return v.isInt64() && v.asInt64() == (s16 ? (int64_t)(int16_t)raw : (int64_t)raw);
}
// C59: reading of channels and parameters
HARNESS h_load()
{
    TDeviceBench b;
    b.ById = symx_param("by_id", 0);
    b.Tcp = symx_param("tcp", 0);
    b.Wb = symx_param("wb", 0);
    bool faults = symx_param("faults", 0);
    auto chan = [&](const char* id, int addr) -> Json::Value& {
        b.Template["channels"].append(Item("name", id, addr));
        return b.Template["channels"][b.Template["channels"].size() - 1];
    };
    b.Template["channels"] = Arr();
    chan("A", 10);
    auto& cb = chan("B", 11);
    bool readonly = Pick("readonly", 0, 1), array = Pick("array", 0, 1);
    cb["condition"] = "p==1";
    cb["readonly"] = readonly;
    auto& cc = chan("C", 12);
    cc["format"] = "s16";
    cc["fw"] = "1.3.0";
    Json::Value w = Item("name", "W", 0);
    w.removeMember("address");
    w["write_address"] = 15;
    b.Template["channels"].append(w);
    Json::Value params = array ? Arr() : Obj();
    auto param = [&](const char* id, int addr, bool ro) {
        auto v = Item("id", id, addr);
        if (ro)
            v["readonly"] = true;
        if (array)
            params.append(v);
        else
            params[id] = v;
    };
    param("p", 30, readonly);
    param("q", 31, false);
    b.Template["parameters"] = params;
    if (b.Wb) {
        b.Slave.HasContinuous = faults || Pick("continuous", 0, 1);
        static const char* versions[] = {"1.3.0", "1.2.5", ""};
        b.Slave.Fw = versions[faults ? 0 : Pick("fw", 0, 2)];
    }
    b.Init();
    // at most one register is missing
    static const unsigned addrs[] = {10, 11, 12, 30, 31};
    int missing = 5 - (int)Pick("missing", 0, symx_param("missing", 5));
    bool channelsOnly = false;
    for (int i = 0; i < 5; ++i)
        if (i != missing)
            b.Slave.Regs[addrs[i]] = i == 3 ? (uint16_t)Pick("p", 0, 1) : i == 0 || i == 2 ? (faults ? 7 : AnyValue("value")) : 5;
    auto req = b.Request();
    // what is asked
    static const std::vector<std::vector<std::string>> channelSets{{}, {"A"}, {"C", "B", "C"}, {"W"}};
    static const std::vector<std::vector<std::string>> paramSets{{}, {"p"}, {"q", "p"}, {"x"}};
    int cs = (int)Pick("channels", 0, faults ? 2 : 3), ps = (int)Pick("params", 0, faults ? 2 : 3);
    for (auto& c: channelSets[cs])
        req["channels"].append(c);
    for (auto& c: paramSets[ps])
        req["parameters"].append(c);
    (void)channelsOnly;
    bool hasP = b.Slave.Regs.count(30);
    uint16_t p = hasP ? b.Slave.Regs[30] : 0;
    bool fwOld = b.Wb && b.Slave.Fw == "1.2.5";
    if (faults) {
        b.Slave.SilentFrom = (int)Pick("silent", 0, 12);
        b.Slave.SilentCount = Pick("long", 0, 1) ? 3 : 1;
    }
    auto before = b.Slave.Regs;
    bool ok = b.Call("device/Load", req);
    symx_assert(b.Slave.Regs == before, "reading changes nothing");
    symx_assert(!b.Wb || b.Slave.Continuous == (b.Slave.HasContinuous && b.Slave.Requests > 0) || faults, "the device answers reads of missing registers afterwards as it did before");
    if (faults) {
        bool lost = b.Slave.SilentFrom < b.Slave.Requests;
        symx_assert(ok || lost, "the request succeeds if the device answers");
        symx_assert(!lost || b.Slave.SilentFrom < 1 || b.Slave.SilentCount > 1 || b.Slave.Continuous == b.Slave.HasContinuous, "the device answers reads of missing registers afterwards as it did before");
        symx_reach(lost ? ok ? "recovered" : "lost" : "nothing lost");
        if (!ok) {
            symx_assert(b.Reply.Code == WBMQTT::E_RPC_SERVER_ERROR, "an error");
            return;
        }
    } else {
        bool bad = cs == 3 || ps == 3;
        symx_assert(ok == !bad, "the request succeeds if the template has what is asked");
        if (bad) {
            symx_reach("unknown item");
            return;
        }
    }
    // what is answered
    std::set<std::string> channels, parameters, ro;
    const auto& c = b.Reply.Result["channels"];
    auto asked = [&](const char* id) { return !cs || std::find(channelSets[cs].begin(), channelSets[cs].end(), id) != channelSets[cs].end(); };
    if (asked("A"))
        channels.insert("A");
    if (asked("B") && hasP && p == 1) {
        channels.insert("B");
        if (readonly)
            ro.insert("B");
    }
    if (asked("C") && !fwOld)
        channels.insert("C");
    symx_assert(c.size() == channels.size(), "the answer has the channels that were asked, that the device has in its present mode and version");
    for (auto& id: channels) {
        unsigned a = id == "A" ? 10 : id == "B" ? 11 : 12;
        symx_assert(c.isMember(id) && Is(c[id], before.count(a), before[a], id == "C"), "channels have the values of the device");
    }
    const auto& q = b.Reply.Result["parameters"];
    for (auto& id: paramSets[ps])
        parameters.insert(id);
    symx_assert(q.size() == parameters.size(), "the answer has the parameters that were asked");
    for (auto& id: parameters) {
        unsigned a = id == "p" ? 30 : 31;
        symx_assert(q.isMember(id) && Is(q[id], before.count(a), before[a], false), "parameters have the values of the device");
        if (id == "p" && readonly)
            ro.insert(id);
    }
    const auto& r = b.Reply.Result["readonly"];
    std::set<std::string> got;
    for (const auto& i: r)
        got.insert(i.asString());
    symx_assert(got == ro && r.size() == ro.size(), "what can not be written is listed once");
    symx_reach(parameters.empty() ? "channels" : "done");
}
// C59: writing of channels and parameters
HARNESS h_set()
{
    TDeviceBench b;
    b.ById = symx_param("by_id", 0);
    b.Tcp = symx_param("tcp", 0);
    b.Wb = symx_param("wb", 0);
    b.Slave.HasContinuous = b.Wb;
    b.Slave.Fw = b.Wb ? "1.3.0" : "";
    b.Template["channels"] = Arr();
    b.Template["channels"].append(Item("name", "A", 10));
    auto ro = Item("name", "R", 11);
    ro["readonly"] = true;
    b.Template["channels"].append(ro);
    auto w = Item("name", "W", 0);
    w.removeMember("address");
    w["write_address"] = 15;
    b.Template["channels"].append(w);
    bool array = Pick("array", 0, 1);
    b.Template["parameters"] = array ? Arr() : Obj();
    auto param = [&](const char* id, const char* addr, const char* format) {
        auto v = Item("id", id, 0);
        v["address"] = addr;
        if (*format)
            v["format"] = format;
        if (array)
            b.Template["parameters"].append(v);
        else
            b.Template["parameters"][id] = v;
    };
    param("p", "16", "s16");
    param("lo", "32:0:4", "");
    param("hi", "32:4:4", "");
    if (Pick("order", 0, 1))
        b.Template["preserve_setup_order"] = true;
    if (int max = (int)Pick("max", 0, 1))
        b.Template["max_write_registers"] = 10 * max;
    b.Init();
    static const char* ids[] = {"A", "W", "p", "lo", "hi", "R", "x"};
    static const unsigned addrs[] = {10, 15, 16, 32, 32};
    b.Slave.Regs[10] = b.Slave.Regs[11] = b.Slave.Regs[15] = b.Slave.Regs[16] = 1000;
    b.Slave.Regs[32] = 0x5A77;
    auto expected = b.Slave.Regs;
    auto req = b.Request();
    bool bad = false, any = false;
    std::set<unsigned> touched;
    for (int i = 0; i < 7; ++i) {
        if (i >= symx_param("items", symx_param("faults", 0) ? 5 : 7) || i < symx_param("from", 0))
            continue;
        if (i < 5 ? !Pick(ids[i], 0, 1) : i == 5 ? !Pick("other", 0, 1) : bad || any || !Pick("other2", 0, 1))
            continue;
        any = true;
        bad |= i >= 5;
        int v = i < 5 ? (int)SymRange("value", 0, 9) : 3;
        Json::Value value(i == 2 ? -v : v);
        if (i == 0 && Pick("text", 0, 1))
            value = Json::Value(std::string(1, (char)('0' + v)));
        req[i < 2 || i >= 5 ? "channels" : "parameters"][ids[i]] = value;
        if (i >= 5)
            continue;
        touched.insert(addrs[i]);
        auto& r = expected[addrs[i]];
        r = i == 2 ? (uint16_t)-v : i == 3 ? (uint16_t)((r & 0xFFF0) | v) : i == 4 ? (uint16_t)((r & 0xFF0F) | (v << 4)) : (uint16_t)v;
    }
    // a register the device does not write
    bool refused = false;
    if (Pick("refuse", 0, 1)) {
        unsigned a = addrs[Pick("refused", 0, 3)];
        b.Slave.Refused.insert(a);
        refused = touched.count(a);
    }
    int lost = -1;
    if (symx_param("faults", 0)) {
        lost = (int)Pick("lost", 0, 5);
        b.Slave.SilentFrom = lost;
        b.Slave.SilentCount = 1;
    }
    auto before = b.Slave.Regs;
    bool ok = b.Call("device/Set", req);
    bool failed = lost >= 0 && lost < b.Slave.Requests;
    for (auto& w: b.Slave.Writes)
        symx_assert(touched.count(w.first), "only what is asked is written");
    if (bad) {
        symx_assert(!ok && b.Slave.Regs == before, "a request with something that can not be written changes nothing");
        symx_reach("refused");
        return;
    }
    if (!any) {
        symx_assert(ok || failed, "nothing to write is a success");
        symx_reach("nothing");
        return;
    }
    if (ok)
        symx_assert(!refused && b.Slave.Regs == expected, "success means that everything is written");
    else
        symx_assert(refused || failed, "the request fails only if the device does not accept it");
    symx_reach(ok ? "done" : "failed");
}
// C59: the configuration read from a device
HARNESS h_config()
{
    TDeviceBench b;
    b.ById = symx_param("by_id", 0);
    b.Wb = symx_param("wb", 0);
    bool faults = symx_param("faults", 0);
    bool array = Pick("array", 0, 1);
    b.Template["parameters"] = array ? Arr() : Obj();
    auto param = [&](const char* id, int addr, const char* key, const Json::Value& value) {
        auto v = Item("id", id, addr);
        if (*key)
            v[key] = value;
        if (array)
            b.Template["parameters"].append(v);
        else
            b.Template["parameters"][id] = v;
    };
    param("a", 12, "condition", "p==1");
    param("p", 10, "", Json::Value());
    param("f", 11, "fw", "1.3.0");
    param("r", 13, "readonly", true);
    b.Hardware = Arr();
    auto hw = Obj();
    hw["signature"] = "OTHER";
    hw["fw"] = "9.0.0";
    b.Hardware.append(hw);
    hw["signature"] = "MODEL-NAME";
    hw["fw"] = "1.2.0";
    b.Hardware.append(hw);
    bool longModel = true, known = true;
    if (b.Wb) {
        b.Slave.HasContinuous = true;
        static const char* versions[] = {"1.3.0", "1.2.5", "1.1.9"};
        b.Slave.Fw = versions[faults ? 0 : Pick("fw", 0, 2)];
        int model = faults ? 0 : (int)Pick("model", 0, 2);
        longModel = b.Slave.LongModel = model != 2;
        b.Slave.Model = model == 1 ? "UNKNOWN" : "MODEL-NAME";
        if (!longModel) {
            hw["signature"] = "MODEL-"; // six characters
            b.Hardware.append(hw);
        }
        known = model != 1 && b.Slave.Fw != "1.1.9";
    }
    b.Init();
    int missing = (int)Pick("missing", 0, 3);
    static const unsigned addrs[] = {10, 11, 12};
    for (int i = 0; i < 3; ++i)
        if (i != missing)
            b.Slave.Regs[addrs[i]] = i ? (uint16_t)Pick("value", 0, 1) * 0xFFFE : (uint16_t)Pick("p", 0, 1);
    // what the file tells: nothing, values of this device, values of a device with the same address on another port
    int inFile = (int)Pick("file", 0, 2);
    Json::Value cfg = Obj(), port = Obj();
    auto dev = Obj();
    dev["device_type"] = "D";
    dev["slave_id"] = "12";
    if (inFile == 2) {
        dev["p"] = 7;
        port["path"] = "/dev/ttyRS485-2";
        port["devices"].append(dev);
        cfg["ports"].append(port);
        port = Obj();
        dev.removeMember("p");
    }
    if (inFile == 1)
        dev["p"] = 1;
    port["path"] = "/dev/ttyRS485-1";
    port["devices"].append(dev);
    cfg["ports"].append(port);
    Files["config"] = cfg;
    bool cached = false;
    Json::Value cachedParams;
    int steps = (int)symx_param("steps", 1);
    for (int s = 0; s < steps; ++s) {
        auto req = b.Request();
        bool force = Pick("force", 0, 1);
        if (force)
            req["force"] = true;
        bool fromFile = b.ById && !force && !cached && inFile == 1;
        if (faults && s == steps - 1) {
            b.Slave.SilentFrom = b.Slave.Requests + (int)Pick("silent", 0, 8);
            b.Slave.SilentCount = Pick("long", 0, 1) ? 3 : 1;
        }
        b.Slave.Reads.clear();
        int requests = b.Slave.Requests;
        auto regs = b.Slave.Regs;
        bool ok = b.Call("device/LoadConfig", req);
        symx_assert(b.Slave.Regs == regs, "reading changes nothing");
        bool lost = b.Slave.SilentFrom >= 0 && b.Slave.SilentFrom < b.Slave.Requests;
        if (lost) {
            symx_reach(ok ? "recovered" : "lost");
            symx_assert(ok || b.Slave.SilentCount > 1 || b.Slave.SilentFrom == requests, "one lost answer is not a failure");
            if (!ok)
                return;
        }
        symx_assert(ok == known, "the request succeeds if the device is one of the template");
        if (!ok) {
            symx_reach("unknown device");
            return;
        }
        const auto& res = b.Reply.Result;
        symx_assert(res["model"].isNull() == !b.Wb && (!b.Wb || res["model"].asString() == (longModel ? "MODEL-NAME" : "MODEL-")), "the model of the device");
        symx_assert(res["fw"].isNull() == !b.Wb && (!b.Wb || res["fw"].asString() == b.Slave.Fw), "the firmware version of the device");
        const auto& params = res["parameters"];
        bool useCache = b.ById && cached && !force;
        auto check = [&](const char* id, unsigned addr, bool present, bool maybe) {
            if (useCache && cachedParams.isMember(id)) {
                symx_assert(params[id] == cachedParams[id], "what is known is returned");
                return;
            }
            if (!present) {
                symx_assert(!params.isMember(id) || (maybe && params[id].asString() == "unsupported"), "no parameter that the device does not have in its mode and version");
                return;
            }
            bool unsupported = !regs.count(addr);
            if (unsupported && !params.isMember(id))
                return;
            symx_assert(Is(params[id], !unsupported, regs[addr], false), "parameters have the values of the device");
        };
        bool pIsOne;
        if (fromFile) {
            symx_assert(params["p"].asInt() == 1 && !b.Slave.Reads.count(10), "a parameter set in the configuration is not read");
            pIsOne = true;
        } else {
            check("p", 10, true, false);
            pIsOne = params["p"].isInt() && params["p"].asInt() == 1;
        }
        check("a", 12, pIsOne, true);
        check("f", 11, !b.Wb || b.Slave.Fw == "1.3.0", false);
        symx_assert(!params.isMember("r"), "a read only parameter is not configured");
        if (b.ById) {
            cached = true;
            cachedParams = params;
        }
        if (s + 1 == steps)
            break;
        // something happens
        int event = (int)Pick("event", 0, 3);
        if (event == 1 || event == 2) { // a parameter is set
            if (!b.Slave.Regs.count(10))
                break;
            auto set = b.Request();
            uint16_t v = (uint16_t)(b.Slave.Regs[10] ^ 1);
            set["parameters"]["p"] = v;
            if (event == 2)
                b.Slave.Refused.insert(10);
            bool done = b.Call("device/Set", set);
            symx_assert(done == (event == 1), "the parameter is set if the device accepts it");
            cached = false;
            inFile = 0;
            Files["config"] = Obj();
        }
        if (event == 3) { // changed by itself
            if (b.Slave.Regs.count(10))
                b.Slave.Regs[10] ^= 1;
        }
        static const char* names[] = {"again", "set", "refused set", "changed"};
        symx_reach(names[event]);
    }
    symx_reach("done");
}
// How a value read from a device appears in an answer: text registers as texts, numbers as numbers.
HARNESS h_json()
{
    int kind = (int)Pick("kind", 0, 3);
    auto reg = TRegisterConfig::Create(0, 0);
    if (kind == 0) { // texts stay texts, even if they look like numbers
        int k = (int)Pick("format", 0, 2);
        reg->Format = k == 0 ? Char8 : k == 1 ? String : String8;
        std::string s;
        size_t n = k == 0 ? 1 : Pick("len", 0, symx_param("hi", 3));
        for (size_t i = 0; i < n; ++i)
            s += (char)symx_var("char", 8);
        Json::Value v = RawValueToJSON(*reg, k == 0 ? TRegisterValue((uint64_t)(uint8_t)s[0]) : TRegisterValue(s));
        symx_assert(v.isString() && v.asString() == s, "the text of a register is answered as it is");
        symx_reach("text");
    } else if (kind == 1) { // every small number, and those at the ends of the formats
        static const struct
        {
            RegisterFormat F;
            uint64_t Base;
            bool Neg;
        } F[] = {{U8, 0, false}, {S8, 0xe0, true}, {U16, 0, false}, {S16, 0xffe0, true}, {U16, 0xffe0, false}, {S16, 0x7fe0, false}, {U32, 0xffffffe0, false}, {S32, 0x80000000, true},
                 {S64, 0x8000000000000000, true}, {U64, 0x7fffffffffffffe0, false}, {U64, 0x8000000000000000, false}, {U64, 0xffffffffffffffe0, false}};
        auto& f = F[Pick("format", 0, 11)];
        reg->Format = f.F;
        uint64_t raw = f.Base | (symx_var("low", 8) & 0x1f);
        Json::Value v = RawValueToJSON(*reg, TRegisterValue(raw));
        symx_assert(v.isIntegral(), "a whole number is answered as one");
        if (f.Neg) {
            int64_t want = f.F == S8 ? (int8_t)raw : f.F == S16 ? (int16_t)raw : f.F == S32 ? (int32_t)raw : (int64_t)raw;
            symx_assert(v.isInt64() && v.asInt64() == want, "a negative number is answered exactly");
        } else
            symx_assert(v.isUInt64() && v.asUInt64() == raw, "a number is answered exactly");
        symx_reach(f.Neg ? "negative" : "whole");
    } else { // fractions, large and small numbers
        static const double X[] = {0, 1, -1, 0.5, -2.25, 1e20, -1e20, 1e-5, -1.5e-7, 123456.789, 1e15, 1e300, 4294967296.5, NAN, INFINITY, -INFINITY};
        double x = X[Pick("value", 0, 15)];
        double want = x;
        TRegisterValue val;
        if (kind == 2) {
            reg->Format = Double;
            uint64_t raw;
            memcpy(&raw, &x, 8);
            val.Set(raw);
        } else {
            static const double scales[] = {0.1, 0.001, 1e-7, 1e10, -2.5};
            double sc = scales[Pick("scale", 0, 4)];
            reg->Format = S16;
            reg->Scale = sc;
            int16_t r = (int16_t)((int)Pick("raw", 0, 5) - 2);
            want = r * sc;
            val.Set((uint64_t)(uint16_t)r);
        }
        Json::Value v = RawValueToJSON(*reg, val);
        if (want != want || want - want != 0)
            symx_assert(v.isString(), "what is not a number is answered as a text");
        else {
            symx_assert(v.isDouble() || v.isIntegral(), "a number is answered as a number");
            double got = v.isIntegral() ? (double)v.asInt64() : v.asDouble(), e = want < 0 ? -want * 1e-12 : want * 1e-12;
            symx_assert(got - want <= e && want - got <= e, "a fractional number is answered with its value");
        }
        symx_reach("number");
    }
}
