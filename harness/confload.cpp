// C61 the whole configuration: old formats, ports and devices
#include "confed_json_generator.h"
#include "config_schema_generator.h"
#include "confed_protocol_schemas_map.h"
#include "old_serial_config.h"
#include "port/serial_port.h"
#include "port/tcp_port.h"
#include "rpc_config.h"
#include "serial_config.h"
#include "symx.h"
#include <map>
using namespace std::chrono;
static std::map<std::string, Json::Value> Files;
Json::Value WBMQTT::JSON::Parse(const std::string& name)
{
    auto it = Files.find(name);
    if (it == Files.end())
        throw std::runtime_error("can't parse " + name);
    return it->second;
}
Json::Value WBMQTT::JSON::ParseWithSettings(const std::string& name, const Json::Value&)
{
    return Parse(name);
}
static bool Invalid;
void ValidateConfig(const Json::Value&, TSerialDeviceFactory&, const Json::Value&, const Json::Value&, TTemplateMap&, TProtocolConfedSchemasMap&)
{
    if (Invalid)
        throw std::runtime_error("invalid");
}
TProtocolConfedSchemasMap::TProtocolConfedSchemasMap(const std::string&, const Json::Value& c): CommonDeviceSchema(c)
{}
static int Cores = 1;
extern "C" int get_nprocs_conf(void) noexcept
{
    return Cores;
}
static Json::Value Obj()
{
    return Json::Value(Json::objectValue);
}
template<class F> static bool Throws(F f)
{
    try {
        f();
        return false;
    } catch (const std::exception&) {
        return true;
    }
}
static TRegisterTypes Types = {{0, "holding", "value", U16}};
class TAnyDevice: public TSerialDevice
{
public:
    TAnyDevice(PDeviceConfig c, PProtocol p): TSerialDevice(c, p)
    {}
};
struct TFactory: public IDeviceFactory
{
    TFactory(): IDeviceFactory(std::make_unique<TUint32RegisterAddressFactory>(2, true), "c", "d")
    {}
    PSerialDevice CreateDevice(const Json::Value&, PDeviceConfig c, PProtocol p) const override
    {
        return std::make_shared<TAnyDevice>(c, p);
    }
};
static TUint32SlaveIdProtocol& Proto()
{
    static TUint32SlaveIdProtocol p("proto", Types, true);
    return p;
}
struct TModbusProto: TUint32SlaveIdProtocol
{
    TModbusProto(const char* name): TUint32SlaveIdProtocol(name, Types, true)
    {}
    bool IsModbus() const override
    {
        return true;
    }
};
static TModbusProto& ModbusProto(bool tcp)
{
    static TModbusProto p("mb"), q("mb-tcp");
    return tcp ? q : p;
}
static void AddTemplate(TTemplateMap& m)
{
    Json::Value t = Obj(), d = Obj(), c = Obj();
    t["device_type"] = "T";
    d["name"] = "Device";
    d["id"] = "dev";
    d["protocol"] = "mb";
    c["name"] = "A";
    c["reg_type"] = "holding";
    c["address"] = 1;
    d["channels"].append(c);
    c["name"] = "B";
    c["address"] = 2;
    d["channels"].append(c);
    t["device"] = d;
    Files["T.json"] = t;
    m.UpdateTemplate("T.json");
}
// "poll_interval" and "read_rate_limit_ms" of a node; returns the resulting limit or -1
static int Interval(Json::Value& now, Json::Value& then, int kinds)
{
    int k = (int)Pick("interval", 0, kinds), v = -1;
    if (k == 1 || k == 3)
        now["poll_interval"] = v = (int)SymRange("old_interval", 0, 100000);
    if (k == 2 || k == 3)
        now["read_rate_limit_ms"] = v = (int)SymRange("new_interval", 0, 100000);
    if (k)
        then["read_rate_limit_ms"] = v;
    return v;
}
// C61: a configuration in an old format becomes the same one in the present format
HARNESS h_old()
{
    TTemplateMap templates{Obj()};
    AddTemplate(templates);
    Json::Value now = Obj(), then = Obj();
    auto& p = now["ports"].append(Obj());
    auto& q = then["ports"].append(Obj());
    int part = (int)symx_param("part", 0); // 0: port and device, 1: channels
    p["path"] = q["path"] = "/dev/x";
    Interval(p, q, part ? 1 : 3);
    auto& d = p["devices"].append(Obj());
    auto& e = q["devices"].append(Obj());
    int type = (int)Pick("type", 0, 2); // own description, known type, unknown type
    if (type)
        d["device_type"] = e["device_type"] = type == 1 ? "T" : "X";
    d["name"] = e["name"] = "n";
    Interval(d, e, part ? 0 : 3);
    int slave = part ? 0 : (int)Pick("slave", 0, 4);
    if (slave == 1) {
        int v = (int)SymRange("number", 0, 999);
        d["slave_id"] = v;
        e["slave_id"] = std::to_string(v);
    } else if (slave == 2) {
        std::string s(1, (char)Sym8("char"));
        d["slave_id"] = e["slave_id"] = "1" + s;
    } else if (slave == 3)
        d["slave_id"] = "";
    else if (slave == 4)
        d["slave_id"] = e["slave_id"] = "0x10";
    int password = part ? 0 : (int)Pick("password", 0, 3);
    for (int i = 0; i < password; ++i)
        if (i % 2) {
            d["password"].append("0x05");
            e["password"].append("0x05");
        } else {
            int v = (int)SymRange("byte", 0, 255);
            d["password"].append(v);
            e["password"].append(std::to_string(v));
        }
    int n = part ? (int)Pick("channels", 0, symx_param("n", 2)) : (int)Pick("list", 0, 1);
    bool list = n || Pick("empty list", 0, 1);
    if (list)
        d["channels"] = Json::Value(Json::arrayValue);
    Json::Value kept(Json::arrayValue);
    for (int i = 0; i < n; ++i) {
        Json::Value c = Obj(), k = Obj();
        int kind = part ? (int)Pick("kind", 0, 5) : 0;
        static const char* names[] = {"A", "B", "Z", "Z", "Z", "Z"};
        c["name"] = k["name"] = names[kind];
        if (kind == 3)
            c["address"] = k["address"] = 7;
        if (kind == 4)
            c["write_address"] = k["write_address"] = 7;
        if (kind == 5) {
            Json::Value r = Obj();
            r["address"] = 3;
            c["consists_of"].append(r);
            k["consists_of"].append(r);
        }
        Interval(c, k, part ? (n > 1 ? 0 : 3) : 0);
        if (part && n == 1 && Pick("enum", 0, 1)) {
            int v = (int)SymRange("enum value", 0, 20);
            c["enum"].append(v - 5);
            k["enum"].append(std::to_string(v - 5));
            c["enum"].append("x");
            k["enum"].append("x");
        }
        if (n == 1 && Pick("enabled", 0, 1))
            c["enabled"] = k["enabled"] = false;
        d["channels"].append(c);
        if (type == 2)
            kept.append(c); // not known, passed as it is
        else if (kind >= 3 || (type == 1 && kind < 2))
            kept.append(k);
    }
    if (type == 2 ? list : !kept.empty())
        e["channels"] = kept;
    FixOldConfigFormat(now, templates);
    symx_assert(now == then, "a configuration in an old format means the same");
    FixOldConfigFormat(now, templates);
    symx_assert(now == then, "a configuration in the present format is not changed");
    Files["config"] = then;
    symx_assert(MakeJsonForConfed("config", templates) == then, "the editor gets the configuration the service uses");
    Files["config"] = Json::Value();
    symx_assert(Throws([&] { MakeJsonForConfed("config", templates); }), "what is no configuration is not edited");
    symx_reach(type == 2 ? "unknown type" : "done");
}
// C61: the service uses exactly the enabled ports and devices of the configuration
HARNESS h_load_config()
{
    TSerialDeviceFactory factory;
    factory.RegisterProtocol(&Proto(), new TFactory());
    factory.RegisterProtocol(&ModbusProto(false), new TFactory());
    factory.RegisterProtocol(&ModbusProto(true), new TFactory());
    TTemplateMap templates{Obj()};
    AddTemplate(templates);
    Json::Value common = Obj(), ports = Obj(), config = Obj();
    TProtocolConfedSchemasMap protocols("", common);
    auto rpc = std::make_shared<TRPCConfig>();
    struct TDev
    {
        std::string Id, Slave;
        int Delay, Channels, Kind;
    };
    struct TPort
    {
        std::string Name;
        int Type, Limit, Guard, FailTime, Cycles, Baud;
        bool Mge;
        std::vector<TDev> Devices;
    };
    std::vector<TPort> expected;
    bool rich = symx_param("rich", 0);
    Cores = 1;
    bool debug = rich && Pick("debug", 0, 1);
    if (debug)
        config["debug"] = true;
    int rate = -1, unchanged = -1;
    if (rich && Pick("rate", 0, 1))
        config["rate_limit"] = rate = (int)SymRange("rate_limit", 1, 100000);
    if (rich && Pick("unchanged", 0, 1))
        config["max_unchanged_interval"] = unchanged = (int)SymRange("max_unchanged_interval", 0, 100000);
    bool bad = false;
    Cores = rich ? (int)Pick("cores", 1, 2) : 2;
    int np = rich ? 1 : (int)Pick("ports", 0, symx_param("np", 2));
    for (int i = 0; i < np; ++i) {
        auto& p = config["ports"].append(Obj());
        TPort port{"", 0, -1, 0, 5000, 2, 9600, false, {}};
        int enabled = rich ? 0 : np > 1 ? 2 * (int)Pick("off", 0, 1) : (int)Pick("enabled", 0, 2);
        if (enabled)
            p["enabled"] = enabled == 1;
        port.Type = np > 1 ? (int)Pick("type", 1, 3) : (int)Pick("type", 0, 4);
        static const char* types[] = {"", "serial", "tcp", "modbus tcp", "bad"};
        if (port.Type)
            p["port_type"] = types[port.Type];
        if (port.Type < 2) {
            p["path"] = port.Name = np > 1 && Pick("path", 0, 1) ? "/dev/a" : "/dev/b";
            if (rich && Pick("settings", 0, 1)) {
                p["baud_rate"] = port.Baud = 115200;
                p["parity"] = "E";
                p["data_bits"] = 7;
                p["stop_bits"] = 2;
            }
        } else {
            p["address"] = "1.2.3.4";
            int n = np > 1 && Pick("tcp", 0, 1) ? 502 : 503;
            p["port"] = n;
            port.Name = "1.2.3.4:" + std::to_string(n);
            if (port.Type == 3 && rich && Pick("mge", 0, 1))
                p["connected_to_mge"] = port.Mge = true;
        }
        if (rich) {
            Json::Value dummy = Obj();
            port.Limit = Interval(p, dummy, 3);
            if (Pick("guard", 0, 1))
                p["guard_interval_us"] = port.Guard = (int)SymRange("guard_interval", 0, 100000);
            if (Pick("conn", 0, 1)) {
                p["connection_timeout_ms"] = port.FailTime = (int)SymRange("timeout", 0, 100000);
                p["connection_max_fail_cycles"] = port.Cycles = (int)SymRange("cycles", 0, 1000);
            }
        }
        int nd = (int)Pick("devices", 0, symx_param("nd", 2));
        for (int j = 0; j < nd; ++j) {
            auto& d = p["devices"].append(Obj());
            bool on = np == 1 && j == 0 ? !Pick("off", 0, 1) : true;
            if (!on)
                d["enabled"] = false;
            TDev dev{"wb-modbus-" + std::to_string(i) + "-" + std::to_string(j), "", port.Guard, 2, 0};
            int k = dev.Kind = (int)Pick("kind", 0, rich || np > 1 ? 1 : 2);
            if (k)
                d["device_type"] = k == 1 ? "T" : "X";
            else {
                d["protocol"] = "proto";
                Json::Value c = Obj();
                c["name"] = "own";
                c["reg_type"] = "holding";
                c["address"] = 5;
                d["channels"].append(c);
                dev.Channels = 1;
            }
            if (int s = (int)Pick("slave", 0, 1)) {
                dev.Slave = std::to_string(s);
                if (rich)
                    d["slave_id"] = s; // the old format
                else
                    d["slave_id"] = dev.Slave;
            }
            if (k == 1)
                dev.Id = dev.Slave.empty() ? "dev" : "dev_" + dev.Slave;
            if (!rich && Pick("id", 0, 1))
                d["id"] = dev.Id = "own" + std::to_string(j);
            if (enabled == 2 || !on)
                continue;
            bad |= k == 2 || (k == 0 && port.Type == 3); // only Modbus devices have Modbus TCP
            for (auto& o: port.Devices)
                bad |= o.Kind == k && (o.Slave.empty() || dev.Slave.empty() || o.Slave == dev.Slave);
            port.Devices.push_back(dev);
        }
        if (enabled == 2)
            continue;
        bad |= port.Type == 4;
        for (auto& o: expected) {
            bad |= o.Name == port.Name;
            for (auto& a: o.Devices)
                for (auto& b: port.Devices)
                    bad |= a.Id == b.Id;
        }
        for (size_t a = 0; a < port.Devices.size(); ++a)
            for (size_t b = 0; b < a; ++b)
                bad |= port.Devices[a].Id == port.Devices[b].Id;
        expected.push_back(port);
    }
    Files["config"] = config;
    Invalid = !rich && np < 2 && Pick("invalid", 0, 1);
    PHandlerConfig h;
    bool failed = Throws([&] { h = LoadConfig("config", factory, common, templates, rpc, ports, protocols, DefaultPortFactory); });
    symx_assert(failed == (bad || Invalid), "a configuration is used unless something in it is wrong");
    if (failed) {
        symx_reach("refused");
        return;
    }
    symx_assert(h->Debug == debug && (rate < 0 || h->LowPriorityRegistersRateLimit == (size_t)rate), "common settings");
    symx_assert(rate >= 0 || h->LowPriorityRegistersRateLimit == (Cores == 1 ? 100 : 800), "default rate limit");
    typedef WBMQTT::TPublishParameters P;
    symx_assert(h->PublishParameters.Policy == (unchanged < 0 ? P::PublishOnlyOnChange : unchanged ? P::PublishSomeUnchanged : P::PublishAll), "unchanged values are published as configured");
    if (unchanged > 0)
        symx_assert(h->PublishParameters.PublishUnchangedInterval.count() == (unchanged < 5 ? 5 : unchanged), "unchanged values are published not more often than every 5 s");
    symx_assert(h->PortConfigs.size() == expected.size(), "the enabled ports are used");
    auto json = rpc->GetPortConfigs();
    symx_assert(json.size() == expected.size(), "requests know the ports");
    for (size_t i = 0; i < expected.size(); ++i) {
        auto& e = expected[i];
        auto& p = *h->PortConfigs[i];
        symx_assert(p.Port->GetDescription(false) == e.Name && p.Port->IsModbusTcp() == (e.Type == 3), "the port is that of the configuration");
        auto& j = json[(Json::ArrayIndex)i];
        if (e.Type < 2) {
            bool def = e.Baud == 9600;
            symx_assert(p.Port->GetDescription(true) == "<" + e.Name + " " + std::to_string(e.Baud) + (def ? " 8 N 1>" : " 7 E 2>"), "settings of a serial port");
            symx_assert(j["path"].asString() == e.Name && j["baud_rate"].asInt() == e.Baud && j["data_bits"].asInt() == (def ? 8 : 7) && j["parity"].asString() == (def ? "N" : "E") && j["stop_bits"].asInt() == (def ? 1 : 2), "requests know the settings of a serial port");
        } else
            symx_assert(j["address"].asString() + ":" + std::to_string(j["port"].asInt()) == e.Name && (j["mode"].asString() == "modbus-tcp") == (e.Type == 3), "requests know the address of a network port");
        symx_assert((p.ReadRateLimit ? p.ReadRateLimit->count() : -1) == e.Limit && p.RequestDelay.count() == e.Guard, "limits of the port");
        symx_assert(p.OpenCloseSettings.MaxFailTime.count() == e.FailTime && p.OpenCloseSettings.ConnectionMaxFailCycles == e.Cycles, "settings of the connection");
        symx_assert(p.Devices.size() == e.Devices.size(), "the enabled devices are used");
        for (size_t k = 0; k < e.Devices.size(); ++k) {
            auto c = p.Devices[k]->Device->DeviceConfig();
            symx_assert(c->Id == e.Devices[k].Id && c->SlaveId == e.Devices[k].Slave && c->RequestDelay.count() == e.Guard, "a device has its identifiers and the delay of its port");
            symx_assert(p.Devices[k]->Device->Protocol()->GetName() == (!e.Devices[k].Kind ? "proto" : e.Type == 3 ? "mb-tcp" : "mb"), "a device has its protocol in the variant of the port");
            symx_assert((int)p.Devices[k]->Channels.size() == e.Devices[k].Channels, "a device has the channels of its template or its own");
            for (auto& ch: p.Devices[k]->Channels)
                for (auto& r: ch->Registers)
                    symx_assert((r->GetConfig()->ReadRateLimit ? r->GetConfig()->ReadRateLimit->count() : -1) == e.Limit, "registers have the rate limit of their port");
        }
    }
    symx_reach("done");
}
