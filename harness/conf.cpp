// C46 addresses and register options, C47 configuration and template merging, C55 templates, C58 devices built from the configuration
#include "config_merge_template.h"
#include "serial_config.h"
#include "symx.h"
#include <cmath>
using namespace std::chrono;
static std::map<std::string, Json::Value> Files;
static bool ParseFails = false;
namespace WBMQTT
{
    namespace JSON
    {
        Json::Value Parse(const std::string& name)
        {
            auto it = Files.find(name);
            if (it == Files.end() || ParseFails)
                throw std::runtime_error("can't parse " + name);
            return it->second;
        }
        Json::Value ParseWithSettings(const std::string& name, const Json::Value&)
        {
            return Parse(name);
        }
    }
}
static Json::Value Obj()
{
    return Json::Value(Json::objectValue);
}
template<class F> static bool Throws(F f)
{
    try {
        f();
        return false;
    } catch (const std::exception&) {
        return true;
    }
}
// decimal or hex text of `n` symbolic digits after `prefix`; adds its value
static std::string Digits(const char* name, bool hex, int n, const std::string& prefix, uint64_t& value)
{
    std::string s = hex ? "0x" + prefix : prefix;
    value = 0;
    for (char c: prefix)
        value = value * (hex ? 16 : 10) + (uint64_t)(c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
    for (int i = 0; i < n; ++i) {
        uint8_t d;
        char c;
        if (hex) {
            bool letter = Pick((std::string(name) + "_letter").c_str(), 0, 2);
            bool upper = letter && Pick((std::string(name) + "_upper").c_str(), 0, 1);
            d = letter ? SymRange(name, 10, 15) : SymRange(name, 0, 9);
            c = letter ? (upper ? 'A' : 'a') + (d - 10) : '0' + d;
        } else {
            d = SymRange(name, (i == 0 && prefix.empty() && n > 1) ? 1 : 0, 9);
            c = '0' + d;
        }
        s += c;
        value = value * (hex ? 16 : 10) + d;
    }
    return s;
}
// C46: an address given as a number
HARNESS h_addr_num()
{
    Json::Value reg = Obj();
    int64_t v = (int64_t)Sym64("v");
    if (Pick("unsigned", 0, 1))
        reg["address"] = Json::Value((Json::UInt64)v);
    else
        reg["address"] = Json::Value((Json::Int64)v);
    TRegisterBitsAddress a;
    bool bad = Throws([&] { a = LoadRegisterBitsAddress(reg, "address"); });
    bool good = (uint64_t)v <= 0xffffffffu;
    symx_assert(bad == !good, "a number is an address exactly if it fits 32 bits");
    if (good) {
        symx_assert(a.Address == (uint32_t)v && a.BitOffset == 0 && a.BitWidth == 0, "the address is the number");
        symx_reach("good");
    } else
        symx_reach("bad");
}
// C46: an address given as a text, with or without bits
HARNESS h_addr_str()
{
    bool hex = Pick("hex", 0, 1);
    int pre = (int)Pick("prefix", 0, 2);
    static const char* decPrefix[] = {"", "42949672", "1844674407370955161"};
    static const char* hexPrefix[] = {"", "fffffff", "fffffffffffffff"};
    int n = (int)Pick("n", 1, pre ? 2 : symx_param("digits", 3));
    uint64_t v;
    std::string s = Digits("digit", hex, n, hex ? hexPrefix[pre] : decPrefix[pre], v);
    bool fits = pre < 2 && v <= 0xffffffffu;
    uint64_t off = 0, width = 0;
    if (Pick("bits", 0, 1)) {
        s += ":" + Digits("off", false, (int)Pick("offDigits", 1, 3), "", off);
        s += ":" + Digits("width", false, (int)Pick("widthDigits", 1, 2), "", width);
        symx_reach("bits");
    }
    Json::Value reg = Obj();
    reg["write_address"] = s;
    reg["address"] = 7;
    if (Pick("string", 0, 1)) {
        uint64_t size = SymRange("size", 0, 200);
        reg["string_data_size"] = (Json::UInt)size;
        width = size * 8;
    }
    TRegisterBitsAddress a;
    bool bad = Throws([&] { a = LoadRegisterBitsAddress(reg, "write_address"); });
    bool good = fits && off <= 255;
    symx_assert(bad == !good, "a text is an address exactly if the numbers fit");
    if (good) {
        symx_assert(a.Address == (uint32_t)v, "the address is the number");
        symx_assert(a.BitOffset == off && a.BitWidth == width, "the bits are as given");
        symx_reach("good");
    } else
        symx_reach("bad");
}
// C46: an unparsed rest of a number is an error
HARNESS h_addr_tail()
{
    std::string s;
    int n = (int)Pick("n", 1, symx_param("hi", 2));
    s = SymStr("c", n);
    for (char c: s)
        symx_assume(c > ' ' && c != ':' && c != '+');
    s = (Pick("hex", 0, 1) ? "0x" : "") + s;
    bool hex = s.size() > 2 && s[0] == '0' && (s[1] | 32) == 'x';
    bool all = true, oct = !hex && s[0] == '0';
    for (size_t i = hex ? 2 : 0; i < s.size(); ++i) {
        char c = s[i];
        all &= hex ? ((c >= '0') & (c <= '9')) | (((c | 32) >= 'a') & ((c | 32) <= 'f')) : (c >= '0') & (c <= (oct ? '7' : '9'));
    }
    Json::Value reg = Obj();
    reg["address"] = s;
    bool bad = Throws([&] { LoadRegisterBitsAddress(reg, "address"); });
    symx_assert(bad == !all, "a text that is not a number is not an address");
    symx_reach(all ? "number" : "garbage");
}
static TRegisterTypes Types = {{0, "holding", "value", U16}, {1, "input", "ro", U16, true}, {2, "coil", "", U8}, {3, "wide", "w", U32, false, EWordOrder::LittleEndian, EByteOrder::LittleEndian}};
class TAnyDevice: public TSerialDevice
{
public:
    TAnyDevice(PDeviceConfig c, PProtocol p): TSerialDevice(c, p)
    {}
};
struct TFactory: public IDeviceFactory
{
    TFactory(size_t bytes, bool restrict)
        : IDeviceFactory(std::make_unique<TUint32RegisterAddressFactory>(bytes, restrict), "c", "d")
    {}
    PSerialDevice CreateDevice(const Json::Value& data, PDeviceConfig c, PProtocol p) const override
    {
        return std::make_shared<TAnyDevice>(c, p);
    }
};
// C46: addresses of registers of devices and subdevices
HARNESS h_reg_addr()
{
    static const size_t bytesOf[] = {1, 2};
    size_t bytes = bytesOf[Pick("bytes", 0, 1)];
    bool restrict = Pick("restrict", 0, 1);
    TUint32RegisterAddressFactory f(bytes, restrict);
    uint32_t base = (uint32_t)SymRange("base", 0, 0x7fffffff), stride = (uint32_t)SymRange("stride", 0, 1000);
    static const uint32_t widths[] = {1, 2, 3, 4, 8};
    uint32_t width = widths[Pick("width", 0, 4)];
    TUint32RegisterAddress baseAddr(base);
    Json::Value reg = Obj();
    uint64_t addr = 0, waddr = 0, off = 0, bits = 0, woff = 0, wbits = 0;
    int ka = (int)Pick("ka", 0, 3), kw = (int)Pick("kw", 0, 3); // absent, empty, number, text with bits
    if (ka == 1)
        reg["address"] = "";
    if (ka == 2)
        reg["address"] = (Json::UInt)(addr = SymRange("addr", 0, 0x7fffffff));
    if (ka == 3) {
        std::string s = Digits("digit", false, 2, "", addr);
        s += ":" + Digits("off", false, 1, "", off) + ":" + Digits("bits", false, 1, "", bits);
        reg["address"] = s;
    }
    if (kw == 1)
        reg["write_address"] = "";
    if (kw == 2)
        reg["write_address"] = (Json::UInt)(waddr = SymRange("waddr", 0, 0x7fffffff));
    if (kw == 3) {
        std::string s = Digits("wdigit", false, 2, "", waddr);
        s += ":" + Digits("woff", false, 1, "", woff) + ":" + Digits("wbits", false, 1, "", wbits);
        reg["write_address"] = s;
    }
    TRegisterDesc d;
    bool bad = Throws([&] { d = f.LoadRegisterAddress(reg, baseAddr, stride, width); });
    bool good = !(restrict && kw == 3 && wbits != 0 && (ka < 2 || woff != off || wbits != bits));
    symx_assert(bad == !good, "bits to write must be the bits to read");
    if (!good) {
        symx_reach("bad");
        return;
    }
    uint32_t shift = (uint32_t)((stride * width + bytes - 1) / bytes);
    symx_assert(!!d.Address == (ka >= 2), "a register can be read exactly if it has an address");
    symx_assert(!!d.WriteAddress == (ka >= 2 || kw >= 2), "a register can be written exactly if it has any address");
    if (ka >= 2)
        symx_assert(GetUint32RegisterAddress(*d.Address) == (uint32_t)(base + addr + shift), "the address is relative to that of the subdevice");
    if (kw >= 2)
        symx_assert(GetUint32RegisterAddress(*d.WriteAddress) == (uint32_t)(base + waddr + shift), "the address to write is relative to that of the subdevice");
    else if (ka >= 2)
        symx_assert(GetUint32RegisterAddress(*d.WriteAddress) == (uint32_t)(base + addr + shift), "a register is written where it is read");
    symx_assert(d.DataOffset == off && d.DataWidth == bits, "the bits are those of the address");
    symx_reach("good");
}
// C46: options of a register
HARNESS h_reg_config()
{
    TRegisterTypeMap types(Types);
    TFactory factory(2, true);
    TUint32RegisterAddress base(0);
    Json::Value reg = Obj();
    static const char* typeNames[] = {"", "holding", "input", "coil", "wide", "nothing"};
    int part = (int)symx_param("part", 0);
    int t = part == 3 ? 1 : (int)Pick("type", 0, 5);
    if (t)
        reg["reg_type"] = typeNames[t];
    const TRegisterType& rt = Types[t == 5 || t == 0 ? 0 : t - 1];
    RegisterFormat format = rt.DefaultFormat;
    EWordOrder wo = rt.DefaultWordOrder;
    EByteOrder bo = rt.DefaultByteOrder;
    uint64_t size = 0;
    bool str = false;
    if (part == 0) {
        static const struct
        {
            const char* Name;
            RegisterFormat F;
        } formats[] = {{"u16", U16}, {"s16", S16}, {"u8", U8}, {"s8", S8}, {"u24", U24}, {"s24", S24}, {"u32", U32}, {"s32", S32}, {"u64", U64}, {"s64", S64}, {"bcd8", BCD8}, {"bcd16", BCD16}, {"bcd24", BCD24},
                       {"bcd32", BCD32}, {"float", Float}, {"double", Double}, {"char8", Char8}, {"string", String}, {"string8", String8}};
        int f = (int)Pick("format", 0, 19);
        if (f) {
            reg["format"] = formats[f - 1].Name;
            format = formats[f - 1].F;
        }
        str = format == String || format == String8;
        if (str && Pick("sized", 0, 1)) {
            size = SymRange("size", 0, 50);
            reg["string_data_size"] = (Json::UInt)size;
        }
        if (int o = (int)Pick("word", 0, 2)) {
            reg["word_order"] = o == 1 ? "big_endian" : "little_endian";
            wo = o == 1 ? EWordOrder::BigEndian : EWordOrder::LittleEndian;
        }
        if (int o = (int)Pick("byte", 0, 2)) {
            reg["byte_order"] = o == 1 ? "big_endian" : "little_endian";
            bo = o == 1 ? EByteOrder::BigEndian : EByteOrder::LittleEndian;
        }
    }
    bool hasAddr = part != 1 || Pick("hasAddr", 0, 1), hasWrite = part == 1 && Pick("hasWrite", 0, 1);
    uint32_t addr = (uint32_t)SymRange("addr", 0, 65535), waddr = (uint32_t)SymRange("waddr", 0, 65535);
    if (hasAddr)
        reg["address"] = (Json::UInt)addr;
    if (hasWrite)
        reg["write_address"] = (Json::UInt)waddr;
    bool ro = rt.ReadOnly;
    auto sporadic = TRegisterConfig::TSporadicMode::DISABLED;
    bool hasError = false, hasUnsupported = false;
    uint64_t error = 0, unsupported = 0;
    if (part == 1) {
        static const char* keys[] = {"readonly", "channel_readonly"};
        for (auto k: keys) {
            int v = (int)Pick(k, 0, 2);
            if (v)
                reg[k] = v == 2;
            if (v == 2)
                ro = true;
            else if (v == 1 && !rt.ReadOnly && k == keys[0])
                ro = false;
        }
        // an option given for compatibility cannot make writable what the other one made read only
        bool s = Pick("sporadic", 0, 1), semi = Pick("semi", 0, 1);
        if (s || Pick("sporadicSet", 0, 1))
            reg["sporadic"] = s;
        if (semi)
            reg["semi-sporadic"] = true;
        sporadic = semi ? TRegisterConfig::TSporadicMode::EVENTS_AND_POLLING : s ? TRegisterConfig::TSporadicMode::ONLY_EVENTS : sporadic;
    }
    double scale = 1, offset = 0, round = 0;
    int64_t limit = -1, period = -1;
    bool badValue = false;
    if (part == 2) {
        static const double numbers[] = {0.1, 1000, -2.5, 0};
        if (int i = (int)Pick("scale", 0, 3))
            reg["scale"] = scale = numbers[i - 1];
        if (int i = (int)Pick("offset", 0, 2))
            reg["offset"] = offset = numbers[i];
        if (int i = (int)Pick("round", 0, 2))
            reg["round_to"] = round = numbers[i - 1];
    }
    if (part == 3) {
        if (int i = (int)Pick("error", 0, 3)) {
            hasError = true;
            if (i == 1) {
                error = Sym64("error");
                reg["error_value"] = (Json::UInt64)error;
            } else
                reg["error_value"] = Digits("e", true, 2, i == 2 ? "" : "ffffffffffffff", error);
        }
        if (int i = (int)Pick("unsupported", 0, 2)) {
            hasUnsupported = true;
            if (i == 1) {
                int64_t v = (int64_t)Sym64("unsupported");
                symx_assume(v >= -9); // the message of the error contains the number
                reg["unsupported_value"] = (Json::Int64)v;
                badValue = v < 0;
                unsupported = (uint64_t)v;
            } else
                reg["unsupported_value"] = Digits("u", false, 2, "", unsupported);
        }
        if (Pick("limit", 0, 1)) {
            limit = (int64_t)SymRange("limit", 0, 100000);
            reg["read_rate_limit_ms"] = (Json::Int64)limit;
        }
        if (Pick("period", 0, 1)) {
            period = (int64_t)SymRange("period", 0, 100000);
            reg["read_period_ms"] = (Json::Int64)period;
        }
    }
    TLoadRegisterConfigResult r;
    bool bad = Throws([&] { r = LoadRegisterConfig(reg, types, "p", factory, base, 0); });
    bool writeOnly = !hasAddr && hasWrite;
    bool good = t != 5 && !(str && size == 0) && (hasAddr || hasWrite) && !(writeOnly && ro) && !badValue;
    symx_assert(bad == !good, "a register is made exactly of a consistent description");
    if (!good) {
        symx_reach("bad");
        return;
    }
    auto& c = *r.RegisterConfig;
    symx_assert(c.Type == rt.Index && c.TypeName == rt.Name && c.Format == format && c.WordOrder == wo && c.ByteOrder == bo, "type, format and order of bytes are as given or the default ones");
    symx_assert(c.Scale == scale && c.Offset == offset && c.RoundTo == round, "numbers are as given or the default ones");
    symx_assert(c.SporadicMode == sporadic, "event mode is as given");
    auto access = writeOnly ? TRegisterConfig::EAccessType::WRITE_ONLY : ro ? TRegisterConfig::EAccessType::READ_ONLY : TRegisterConfig::EAccessType::READ_WRITE;
    symx_assert(c.AccessType == access, "a register is writable exactly if neither its type nor its description forbids that");
    if (hasAddr)
        symx_assert(GetUint32RegisterAddress(c.GetAddress()) == addr, "address");
    symx_assert(GetUint32RegisterAddress(c.GetWriteAddress()) == (hasWrite ? waddr : addr), "address to write");
    if (str)
        symx_assert(c.GetDataWidth() == size * 8, "size of the text");
    symx_assert(!!c.ErrorValue == hasError && !!c.UnsupportedValue == hasUnsupported, "special values are known exactly if they are given");
    if (hasError)
        symx_assert(c.ErrorValue->Get<uint64_t>() == error, "error value");
    if (hasUnsupported)
        symx_assert(c.UnsupportedValue->Get<uint64_t>() == unsupported, "value of an unsupported register");
    symx_assert((c.ReadRateLimit ? c.ReadRateLimit->count() : -1) == limit, "rate limit");
    symx_assert((c.ReadPeriod ? c.ReadPeriod->count() : -1) == period, "period");
    symx_assert(r.DefaultControlType == (rt.DefaultControlType.empty() ? "text" : rt.DefaultControlType), "type of the control");
    symx_reach("good");
}
static TUint32SlaveIdProtocol& Proto()
{
    static TUint32SlaveIdProtocol p("proto", Types);
    return p;
}
static void Register(TSerialDeviceFactory& f)
{
    f.RegisterProtocol(&Proto(), new TFactory(2, true));
}
// a channel of the configuration or a subdevice with channels, and what is expected of it
struct TModelChannel
{
    std::string Id;
    uint32_t Address;
    bool Hidden;
    int64_t Limit;
};
struct TModel
{
    std::vector<TModelChannel> Channels;
    std::vector<std::pair<uint32_t, uint32_t>> Setup; // address, value
};
static int Counter;
static Json::Value BuildSimple(const std::string& prefix, uint32_t base, uint32_t strideShift, TModel& m)
{
    Json::Value c = Obj();
    std::string name = "n" + std::to_string(Counter++), id = name;
    c["name"] = name;
    if (Pick("hasId", 0, 1))
        c["id"] = id = "i" + name;
    uint32_t a = (uint32_t)SymRange("addr", 0, 65535);
    c["address"] = (Json::UInt)a;
    c["reg_type"] = "holding";
    bool disabled = false, hidden = false;
    if (int e = symx_param("plain", 0) ? 0 : (int)Pick("enabled", 0, 2)) {
        c["enabled"] = e == 1;
        disabled = e == 2;
        if (disabled && Pick("hidden", 0, 1)) {
            c["hidden"] = true;
            hidden = true;
            disabled = false;
        }
    }
    int64_t limit = -1;
    if (symx_param("limits", 0) && Pick("limit", 0, 1)) {
        limit = (int64_t)SymRange("limit", 0, 100000);
        c["read_rate_limit_ms"] = (Json::Int64)limit;
    }
    if (!disabled)
        m.Channels.push_back({prefix.empty() ? id : prefix + " " + id, base + a + strideShift, hidden, limit});
    return c;
}
static void BuildSetup(Json::Value& owner, uint32_t base, uint32_t strideShift, TModel& m)
{
    if (!symx_param("setups", 0) || !Pick("setup", 0, 1))
        return;
    Json::Value s = Obj();
    // setup items of different places have different addresses, the same ones are one item
    uint32_t a = (uint32_t)(Pick("setupAddr", 0, 1) + 1000 * m.Setup.size()), v = (uint32_t)SymRange("setupValue", 0, 9);
    s["title"] = "t";
    s["address"] = (Json::UInt)a;
    s["value"] = (Json::UInt)v;
    s["reg_type"] = "holding";
    owner["setup"].append(s);
    m.Setup.push_back({base + a + strideShift, v});
}
static Json::Value BuildSub(const std::string& prefix, uint32_t base, int depth, TModel& m)
{
    Json::Value c = Obj();
    std::string name = "s" + std::to_string(Counter++), id = name;
    c["name"] = name;
    c["device_type"] = "T";
    int k = (int)Pick("subId", 0, 2);
    if (k == 1)
        c["id"] = id = "i" + name;
    if (k == 2)
        c["id"] = id = "";
    std::string own = id.empty() ? prefix : prefix.empty() ? id : prefix + " " + id;
    uint64_t shift = 0, stride = 0;
    switch (Pick("shift", 0, 2)) {
        case 1:
            c["shift"] = (Json::UInt)(shift = symx_param("setups", 0) ? 5000 : SymRange("shift", 0, 10000));
            break;
        case 2:
            c["shift"] = Digits("shiftDigit", true, symx_param("setups", 0) ? 0 : 1, "1", shift);
            break;
    }
    if (Pick("stride", 0, 1))
        c["stride"] = (Json::UInt)(stride = symx_param("setups", 0) ? 3 : SymRange("stride", 0, 100));
    bool disabled = symx_param("disabled", 1) && Pick("subDisabled", 0, 1);
    if (disabled)
        c["enabled"] = false;
    TModel in;
    in.Setup = m.Setup;
    BuildSetup(c, (uint32_t)(base + shift), (uint32_t)stride, in); // U16 registers of 2 bytes: one address per step
    c["channels"].append(BuildSimple(own, (uint32_t)(base + shift), (uint32_t)stride, in));
    if (depth > 1)
        c["channels"].append(BuildSub(own, (uint32_t)(base + shift), depth - 1, in));
    if (!disabled) {
        m.Channels.insert(m.Channels.end(), in.Channels.begin(), in.Channels.end());
        m.Setup = in.Setup;
    }
    return c;
}
// C58: channels and setup items of a device with subdevices
HARNESS h_build()
{
    Counter = 0;
    TSerialDeviceFactory f;
    Register(f);
    Json::Value dev = Obj();
    dev["protocol"] = "proto";
    dev["slave_id"] = "5";
    TModel m;
    BuildSetup(dev, 0, 0, m);
    dev["channels"].append(BuildSimple("", 0, 0, m));
    if (int depth = (int)symx_param("depth", 1))
        dev["channels"].append(BuildSub("", 0, depth, m));
    TSerialDeviceFactory::TCreateDeviceParams params;
    params.Defaults.Id = "default-id";
    params.Defaults.RequestDelay = microseconds(7);
    int64_t common = -1;
    if (symx_param("limits", 0)) {
        if (Pick("portLimit", 0, 1)) {
            common = (int64_t)SymRange("portLimit", 0, 100000);
            params.Defaults.ReadRateLimit = milliseconds(common);
        }
        if (Pick("deviceLimit", 0, 1))
            dev["read_rate_limit_ms"] = (Json::Int64)(common = (int64_t)SymRange("deviceLimit", 0, 100000));
    }
    bool hasId = Pick("deviceId", 0, 1);
    if (hasId)
        dev["id"] = "own-id";
    TTemplateMap templates;
    auto d = f.CreateDevice(dev, params, templates);
    symx_assert(d->Device->DeviceConfig()->Id == (hasId ? "own-id" : "default-id") && d->Device->DeviceConfig()->SlaveId == "5", "identifiers of the device");
    symx_assert(d->Device->DeviceConfig()->RequestDelay == microseconds(7), "a device without a delay has that of its port");
    symx_assert(d->Channels.size() == m.Channels.size(), "there is a channel for every enabled or hidden item");
    for (size_t i = 0; i < m.Channels.size(); ++i) {
        auto& c = *d->Channels[i];
        symx_assert(c.MqttId == m.Channels[i].Id, "the name consists of the names of the subdevices and that of the channel");
        symx_assert(c.DeviceId == d->Device->DeviceConfig()->Id && c.Order == (int)i + 1, "order");
        symx_assert(c.Registers.size() == 1 && GetUint32RegisterAddress(c.Registers[0]->GetConfig()->GetAddress()) == m.Channels[i].Address, "the address of the channel includes all shifts and its stride");
        symx_assert(c.Hidden == m.Channels[i].Hidden, "hidden");
        auto& l = c.Registers[0]->GetConfig()->ReadRateLimit;
        symx_assert((l ? l->count() : -1) == (m.Channels[i].Limit >= 0 ? m.Channels[i].Limit : common), "rate limit of the channel, its device or port");
    }
    symx_assert(d->Device->GetSetupItems().size() == m.Setup.size(), "there is a setup item for every one of an enabled part");
    for (auto& s: m.Setup) {
        bool found = false;
        for (auto& i: d->Device->GetSetupItems())
            found |= GetUint32RegisterAddress(i->RegisterConfig->GetWriteAddress()) == s.first && i->RawValue.Get<uint64_t>() == s.second;
        symx_assert(found, "every setup item has its address and value");
        symx_reach("setup");
    }
    symx_reach("done");
}
// C58: one channel with all its options
HARNESS h_channel_options()
{
    TSerialDeviceFactory f;
    Register(f);
    Json::Value dev = Obj();
    dev["protocol"] = "proto";
    dev["slave_id"] = "5";
    Json::Value c = Obj();
    c["name"] = "ch";
    int parts = (int)symx_param("parts", 1);
    std::string defaultType;
    static const char* typeNames[] = {"holding", "input", "coil"};
    static const char* controls[] = {"value", "ro", "text"};
    bool ro[2] = {}, mixed = false, broken = false;
    std::vector<uint32_t> addrs;
    int64_t limit = -1, period = -1;
    for (int i = 0; i < parts; ++i) {
        Json::Value r = Obj();
        int t = (int)Pick("type", 0, 2);
        r["reg_type"] = typeNames[t];
        addrs.push_back((uint32_t)SymRange("addr", 0, 1000));
        if (i == parts - 1 && Pick("broken", 0, 1)) {
            r["address"] = "x";
            broken = true;
        } else
            r["address"] = (Json::UInt)addrs[i];
        ro[i] = t == 1;
        if (t != 1 && Pick("readonly", 0, 1)) {
            ro[i] = true;
            r["readonly"] = true;
        }
        if (!i)
            defaultType = controls[t];
        else
            mixed |= ro[i] != ro[0];
        if (parts == 1)
            for (auto it = r.begin(); it != r.end(); ++it)
                c[it.name()] = *it;
        else {
            r["read_rate_limit_ms"] = 77; // the limit is that of the whole channel
            c["consists_of"].append(r);
        }
    }
    bool all = parts > 1 && Pick("all", 0, 1); // with two registers the options that do not depend on each other are given together
    auto option = [&](const char* name) { return parts == 1 ? (bool)Pick(name, 0, 1) : all; };
    if (option("limit"))
        c["read_rate_limit_ms"] = (Json::Int64)(limit = (int64_t)SymRange("limit", 0, 1000));
    if (option("period"))
        c["read_period_ms"] = (Json::Int64)(period = (int64_t)SymRange("period", 0, 1000));
    std::string type = defaultType;
    int tk = (int)Pick("control", 0, 3);
    if (tk) {
        static const char* types[] = {"range", "wo-switch", "pushbutton"};
        c["type"] = type = types[tk - 1];
        if (tk == 2)
            type = "switch";
    }
    uint64_t on = 0, off = 0;
    int onk = (int)Pick("on", 0, 2), offk = onk ? (int)Pick("off", 0, 1) : 0;
    if (onk == 1)
        c["on_value"] = Digits("onDigit", false, 1, "1", on);
    if (onk == 2)
        c["on_value"] = Digits("onDigit", true, 1, "F", on);
    if (offk)
        c["off_value"] = (Json::UInt)(off = Pick("off", 0, 2));
    if (option("bounds")) {
        c["min"] = -1.5;
        c["max"] = "0x10";
    }
    if (option("units")) {
        c["units"] = "m";
        c["round_to"] = 0.1;
    }
    dev["channels"].append(c);
    Json::Value second = Obj();
    second["name"] = "other";
    second["address"] = 1;
    dev["channels"].append(second);
    TSerialDeviceFactory::TCreateDeviceParams params;
    TTemplateMap templates;
    PSerialDeviceWithChannels d;
    bool bad = Throws([&] { d = f.CreateDevice(dev, params, templates); });
    // a broken plain channel is left out, an impossible combination is an error of the configuration
    bool error = parts > 1 && (broken || mixed || onk);
    symx_assert(bad == error, "a device is built exactly of a consistent description");
    if (bad) {
        symx_reach("bad");
        return;
    }
    if (broken) {
        symx_assert(d->Channels.size() == 1 && d->Channels[0]->MqttId == "other", "a broken channel does not affect other ones");
        symx_reach("broken");
        return;
    }
    symx_assert(d->Channels.size() == 2 && d->Channels[1]->MqttId == "other", "there is a channel for every item");
    auto& ch = *d->Channels[0];
    symx_assert(ch.MqttId == "ch" && ch.GetName() == "ch" && ch.Type == type, "type of the control");
    symx_assert(ch.Registers.size() == (size_t)parts, "registers of the channel");
    bool wo = tk >= 2;
    for (int i = 0; i < parts; ++i) {
        auto rc = ch.Registers[i]->GetConfig();
        symx_assert(GetUint32RegisterAddress(wo ? rc->GetWriteAddress() : rc->GetAddress()) == addrs[i], "registers are in the given order");
        symx_assert((rc->ReadRateLimit ? rc->ReadRateLimit->count() : -1) == limit && (rc->ReadPeriod ? rc->ReadPeriod->count() : -1) == period, "limits of the channel");
        symx_assert(rc->AccessType == (wo ? TRegisterConfig::EAccessType::WRITE_ONLY : ro[i] ? TRegisterConfig::EAccessType::READ_ONLY : TRegisterConfig::EAccessType::READ_WRITE), "a register of a button is only written");
    }
    symx_assert(ch.ReadOnly == (!wo && ro[0]), "a control is read only exactly if its registers are");
    symx_assert(ch.OnValue == (onk ? std::to_string(on) : "") && ch.OffValue == (offk ? std::to_string(off) : ""), "values that mean on and off");
    symx_assert(c.isMember("min") == !std::isnan(ch.Min) && c.isMember("max") == !std::isnan(ch.Max), "limits are known exactly if they are given");
    if (c.isMember("min"))
        symx_assert(ch.Min == -1.5 && ch.Max == 16, "limits of the value");
    symx_assert(ch.Units == (c.isMember("units") ? "m" : "") && ch.Precision == ((parts == 1 && c.isMember("units")) ? 0.1 : 0), "units and precision");
    symx_reach("good");
}
// C58: no two devices of one port answer to the same address, no two devices have the same identifier
void CheckDuplicateDeviceIds(const THandlerConfig& handlerConfig);
HARNESS h_duplicates()
{
    TSerialDeviceFactory f;
    Register(f);
    static TUint32SlaveIdProtocol other("other", Types);
    static TUint32SlaveIdProtocol broadcast("broadcast", Types, true);
    f.RegisterProtocol(&other, new TFactory(2, true));
    f.RegisterProtocol(&broadcast, new TFactory(2, true));
    THandlerConfig h;
    int n = (int)symx_param("n", 2);
    static const char* protos[] = {"proto", "other", "broadcast"};
    struct TDev
    {
        int Port, Proto, Id;
        bool Any;
        uint64_t Slave;
    };
    std::vector<TDev> devs;
    auto p0 = std::make_shared<TPortConfig>(), p1 = std::make_shared<TPortConfig>();
    h.AddPortConfig(p0);
    h.AddPortConfig(p1);
    bool sameId = false;
    for (int i = 0; i < n; ++i) {
        TDev d;
        d.Port = (int)Pick("port", 0, 1);
        d.Proto = (int)Pick("proto", 0, 2);
        d.Id = (int)Pick("id", 0, 1);
        d.Any = d.Proto == 2 && Pick("any", 0, 1);
        d.Slave = 0;
        Json::Value dev = Obj();
        dev["protocol"] = protos[d.Proto];
        if (!d.Any)
            dev["slave_id"] = Digits("slave", Pick("hex", 0, 1), 1, "", d.Slave);
        else if (Pick("empty", 0, 1))
            dev["slave_id"] = "";
        dev["id"] = d.Id ? "d" + std::to_string(i) : "same";
        TSerialDeviceFactory::TCreateDeviceParams params;
        TTemplateMap templates;
        auto built = f.CreateDevice(dev, params, templates);
        bool dup = false;
        for (auto& o: devs) {
            dup |= o.Port == d.Port && o.Proto == d.Proto && (o.Any || d.Any || o.Slave == d.Slave);
        }
        bool bad = Throws([&] { (d.Port ? p1 : p0)->AddDevice(built); });
        symx_assert(bad == dup, "a device is added exactly if no other one of its protocol on the port has its address");
        if (bad) {
            symx_reach("duplicate address");
            continue;
        }
        for (auto& o: devs)
            sameId |= !o.Id && !d.Id;
        devs.push_back(d);
    }
    bool bad = Throws([&] { CheckDuplicateDeviceIds(h); });
    symx_assert(bad == sameId, "identifiers of devices are different");
    symx_reach(bad ? "same id" : "fine");
}
// ---------------------------------------------------------------- C47
static const char* Conditions[] = {"", "p0==1", "isDefined(p1)", "p1>1||p0==2", "p0!=p1"};
struct TParam
{
    bool Known = false;
    int64_t V = 0;
};
static bool Holds(int c, const TParam* p)
{
    switch (c) {
        case 1:
            return p[0].Known & (p[0].V == 1);
        case 2:
            return p[1].Known;
        case 3:
            return (p[1].Known & (p[1].V > 1)) | (p[0].Known & (p[0].V == 2));
        case 4:
            return !p[0].Known | !p[1].Known | (p[0].V != p[1].V);
    }
    return true;
}
// C47: setup items of a device made of its template, parameters and conditions
HARNESS h_merge_setup()
{
    Json::Value tmpl = Obj(), user = Obj();
    tmpl["name"] = "D";
    user["slave_id"] = "1";
    static const char* names[] = {"p0", "p1"};
    TParam merged[2];
    bool given[2], text[2];
    for (int i = 0; i < 2; ++i) {
        int k = (int)Pick("user", 0, 2);
        given[i] = k != 0;
        text[i] = k == 2;
        if (k == 1) {
            merged[i].Known = true;
            merged[i].V = (int64_t)SymRange("value", 0, 3);
            user[names[i]] = (Json::Int)merged[i].V;
        }
        if (k == 2)
            user[names[i]] = "text"; // not a number: the parameter is not written and takes no part in conditions
    }
    struct TDecl
    {
        int Id, Cond;
        bool ReadOnly;
    };
    std::vector<TDecl> decls;
    bool array = symx_param("array", 0);
    int n = array ? (int)symx_param("n", 2) : 2;
    for (int i = 0; i < n; ++i) {
        TDecl d;
        d.Id = array ? (int)Pick("id", 0, 1) : i;
        d.Cond = (int)Pick("cond", 0, 4);
        d.ReadOnly = i == 0 && Pick("readonly", 0, 1);
        Json::Value p = Obj();
        p["title"] = "t" + std::to_string(i);
        p["address"] = 10 + d.Id;
        if (d.Cond)
            p["condition"] = Conditions[d.Cond];
        if (d.ReadOnly)
            p["readonly"] = true;
        if (Pick("default", 0, 1)) {
            int64_t v = (int64_t)SymRange("default", 0, 3);
            p["default"] = (Json::Int)v;
            if (!given[d.Id] && !merged[d.Id].Known) { // the first of several declarations counts
                merged[d.Id].Known = true;
                merged[d.Id].V = v;
            }
        }
        if (array) {
            p["id"] = names[d.Id];
            tmpl["parameters"].append(p);
        } else
            tmpl["parameters"][names[d.Id]] = p;
        decls.push_back(d);
    }
    int tc = array ? 4 : (int)Pick("setupCond", 0, 4);
    Json::Value item = Obj();
    item["title"] = "template";
    item["address"] = 5;
    item["value"] = 6;
    if (tc)
        item["condition"] = Conditions[tc];
    tmpl["setup"].append(item);
    int uk = array ? 1 : (int)Pick("userSetup", 0, 2);
    if (uk) {
        Json::Value u = Obj();
        u["title"] = "user";
        if (uk == 1)
            u["address"] = 9;
        u["value"] = 3;
        user["setup"].append(u);
    }
    Json::Value res;
    bool bad = Throws([&] { res = MergeDeviceConfigWithTemplate(user, "D", tmpl); });
    symx_assert(bad == (uk == 2), "a setup item without an address is an error");
    if (bad) {
        symx_reach("bad");
        return;
    }
    std::vector<std::pair<std::string, int64_t>> expected;
    if (uk)
        expected.push_back({"user", 3});
    for (int i = 0; i < n; ++i) {
        auto& d = decls[i];
        if (given[d.Id] && !text[d.Id] && !d.ReadOnly && Holds(d.Cond, merged)) {
            expected.push_back({"t" + std::to_string(i), merged[d.Id].V});
            symx_reach("written");
        } else
            symx_reach("not written");
    }
    if (Holds(tc, merged))
        expected.push_back({"template", 6});
    const auto& setup = res["setup"];
    symx_assert(setup.size() == expected.size(), "a parameter is written exactly if the user set it to a number, it is not read only and its condition holds");
    for (Json::ArrayIndex i = 0; i < setup.size(); ++i)
        symx_assert(setup[i]["title"].asString() == expected[i].first && setup[i]["value"].asInt64() == expected[i].second, "setup items: those of the user, then parameters, then those of the template");
    for (auto& d: decls)
        symx_assert(!res.isMember("parameters") && !res.isMember(names[d.Id]), "parameters are not options of the device");
}
// C47: channels and options of a device
static const char* RegisterOptions[] = {"type", "reg_type", "max", "offset", "round_to", "on_value", "off_value", "error_value", "unsupported_value", "word_order", "byte_order", "consists_of"};
HARNESS h_merge_channels()
{
    Json::Value tmpl = Obj(), user = Obj();
    tmpl["name"] = "D";
    tmpl["protocol"] = "proto";
    tmpl["frame_timeout_ms"] = 15;
    TParam merged[2];
    int un = (int)symx_param("users", 1);
    // options of the device
    bool opts = symx_param("options", 0);
    int nameKind = opts ? (int)Pick("name", 0, 1) : 0, slave = opts ? (int)Pick("slave", 0, 1) : 0, idKind = opts ? (int)Pick("id", 0, 2) : 0, over = opts ? (int)Pick("over", 0, 1) : 1;
    if (nameKind)
        user["name"] = "own";
    if (slave)
        user["slave_id"] = "7";
    if (idKind)
        tmpl["id"] = "tid";
    if (idKind == 2)
        user["id"] = "uid";
    if (over) {
        user["frame_timeout_ms"] = 20;
        user["protocol"] = "other";
        user["new_option"] = 4;
    }
    if (un > 1 || Pick("param", 0, 1)) {
        merged[0].Known = true;
        merged[0].V = (int64_t)SymRange("param", 0, 3);
        user["p0"] = (Json::Int)merged[0].V;
    }
    if (symx_param("default", 0)) {
        Json::Value p = Obj();
        p["title"] = "P";
        p["address"] = 200;
        if (Pick("default", 0, 1)) {
            int64_t v = (int64_t)SymRange("default", 0, 3);
            p["default"] = (Json::Int)v;
            if (!merged[0].Known) {
                merged[0].Known = true;
                merged[0].V = v;
            }
        }
        if (Pick("array", 0, 1)) {
            p["id"] = "p0";
            tmpl["parameters"].append(p);
        } else
            tmpl["parameters"]["p0"] = p;
    }
    // channels of the template
    static const char* names[] = {"a", "b", "c"};
    struct TCh
    {
        std::string Name;
        int Cond;
        bool ReadOnly, HasReadOnly, Enabled;
        int64_t Limit;
        int Address;
    };
    std::vector<TCh> chs;
    int n = (int)symx_param("n", 2);
    for (int i = 0; i < n; ++i) {
        TCh c;
        c.Name = names[Pick("tname", 0, 1)];
        c.Cond = (int)Pick("cond", 0, 1);
        c.HasReadOnly = c.ReadOnly = i == 0 && Pick("tro", 0, 1);
        c.Enabled = true;
        c.Limit = -1;
        c.Address = i;
        Json::Value j = Obj();
        j["name"] = c.Name;
        j["address"] = i;
        j["format"] = "u8";
        if (c.Cond)
            j["condition"] = Conditions[c.Cond];
        if (c.ReadOnly)
            j["readonly"] = true;
        tmpl["channels"].append(j);
        chs.push_back(c);
    }
    bool error = false;
    for (int i = 0; i < un; ++i) {
        int which = (int)Pick("uname", 0, 2);
        Json::Value j = Obj();
        j["name"] = names[which];
        int enabled = (int)Pick("enabled", 0, 2), ro = (int)Pick("ro", 0, 2), lim = (int)Pick("limit", 0, 1), forbidden = un > 1 ? lim : (int)Pick("forbidden", 0, 1), type = opts || un > 1 ? 0 : (int)Pick("subtype", 0, 1);
        int64_t limit = -1;
        if (enabled)
            j["enabled"] = enabled == 1;
        if (ro)
            j["readonly"] = ro == 1;
        if (lim)
            j["read_rate_limit_ms"] = (Json::Int64)(limit = (int64_t)SymRange("limit", 0, 1000));
        if (forbidden) {
            j["address"] = 77;
            j["format"] = "s32";
            j["id"] = "x";
            j["scale"] = 2.5;
            for (auto o: RegisterOptions)
                j[o] = 3;
        }
        if (type) {
            j["device_type"] = "T";
            error = true;
        }
        user["channels"].append(j);
        bool found = false;
        for (int k = 0; k < n; ++k) {
            auto& c = chs[k];
            if (c.Name != names[which])
                continue;
            found = true;
            if (enabled)
                c.Enabled = enabled == 1;
            if (ro == 1 || (ro == 2 && !c.ReadOnly)) {
                c.ReadOnly = ro == 1;
                c.HasReadOnly = true;
            }
            if (lim)
                c.Limit = limit;
        }
        if (!found)
            chs.push_back({names[which], 0, ro == 1, ro != 0, enabled != 2, limit, forbidden ? 77 : -1});
    }
    Json::Value res;
    bool bad = Throws([&] { res = MergeDeviceConfigWithTemplate(user, "D", tmpl); });
    symx_assert(bad == error, "a plain channel cannot become a subdevice");
    if (bad) {
        symx_reach("bad");
        return;
    }
    symx_assert(res["protocol"].asString() == "proto", "the protocol is that of the template");
    symx_assert(res["frame_timeout_ms"].asInt() == (over ? 20 : 15) && res.isMember("new_option") == (bool)over, "options of the user replace those of the template");
    symx_assert(res["name"].asString() == (nameKind ? "own" : slave ? "D 7" : "D"), "name");
    symx_assert(idKind ? res["id"].asString() == (idKind == 2 ? "uid" : slave ? "tid_7" : "tid") : !res.isMember("id"), "identifier");
    const auto& out = res["channels"];
    Json::ArrayIndex pos = 0;
    for (size_t k = 0; k < chs.size(); ++k) {
        auto& c = chs[k];
        if (!Holds(c.Cond, merged)) {
            symx_reach("condition");
            continue;
        }
        symx_assert(pos < out.size(), "every channel whose condition holds is present");
        const auto& j = out[pos++];
        symx_assert(j["name"].asString() == c.Name, "channels are in the order of the template, then of the user");
        bool fromTemplate = k < (size_t)n;
        symx_assert(j.get("enabled", true).asBool() == c.Enabled, "a channel is enabled as the user says");
        symx_assert(j.isMember("readonly") == c.HasReadOnly && j.get("readonly", false).asBool() == c.ReadOnly, "the user can only forbid writing");
        symx_assert(j.get("read_rate_limit_ms", -1).asInt64() == c.Limit, "limit");
        if (fromTemplate)
            symx_assert(j["address"].asInt() == c.Address && j["format"].asString() == "u8" && !j.isMember("id") && !j.isMember("scale"), "the user does not change what the template says of the register");
        for (auto o: RegisterOptions)
            symx_assert(!fromTemplate || !j.isMember(o), "nor adds anything to it");
        if (fromTemplate)
            continue;
        symx_assert(j.get("address", -1).asInt() == c.Address, "a channel of the user is taken as it is");
    }
    symx_assert(pos == out.size(), "a channel whose condition does not hold is absent");
    symx_reach("done");
}
// C47: subdevices
HARNESS h_merge_subdevice()
{
    Json::Value tmpl = Obj(), user = Obj();
    tmpl["name"] = "D";
    user["slave_id"] = "1";
    for (int i = 0; i < 2; ++i) {
        Json::Value sub = Obj(), dev = Obj(), ch = Obj(), p = Obj(), s = Obj();
        std::string n = std::to_string(i);
        ch["name"] = "x";
        ch["address"] = 10 + i;
        dev["channels"].append(ch);
        p["title"] = "p" + n;
        p["address"] = 20 + i;
        dev["parameters"]["q"] = p;
        s["title"] = "s" + n;
        s["address"] = 30 + i;
        s["value"] = i;
        dev["setup"].append(s);
        sub["device_type"] = "T" + n;
        sub["device"] = dev;
        tmpl["subdevices"].append(sub);
    }
    bool nested = symx_param("nested", 0);
    if (nested) { // the first type contains one of the second type
        Json::Value in = Obj();
        in["name"] = "inner";
        in["device_type"] = "T1";
        in["shift"] = 3;
        tmpl["subdevices"][0]["device"]["channels"].append(in);
    }
    bool choice = Pick("choice", 0, 1);
    Json::Value c = Obj();
    c["name"] = "sub";
    int shift = (int)Pick("shift", 0, 1), stride = (int)Pick("stride", 0, 1), id = (int)Pick("id", 0, 1);
    if (choice) {
        c["oneOf"].append("T0");
        c["oneOf"].append("T1");
    }
    bool fixed = !choice || Pick("fixed", 0, 1);
    if (fixed)
        c["device_type"] = "T0";
    if (shift)
        c["shift"] = (Json::UInt)5;
    if (stride)
        c["stride"] = (Json::UInt)6;
    if (id)
        c["id"] = "sid";
    tmpl["channels"].append(c);
    int type = -2; // of the user: none, absent, T0, T1, unknown
    uint64_t q = 0;
    bool hasQ = false, limit = false, newCh = false, innerQ = false;
    uint64_t iq = 0;
    if (Pick("user", 0, 1)) {
        Json::Value u = Obj();
        u["name"] = "sub";
        type = (int)Pick("type", 0, 3) - 1;
        if (type >= 0)
            u["device_type"] = type == 2 ? "T9" : "T" + std::to_string(type);
        if ((hasQ = Pick("q", 0, 1)))
            u["q"] = (Json::UInt)(q = SymRange("q", 0, 100));
        if ((limit = Pick("limit", 0, 1))) {
            Json::Value o = Obj();
            o["name"] = "x";
            o["read_rate_limit_ms"] = 50;
            o["address"] = 99;
            u["channels"].append(o);
        }
        if ((newCh = Pick("newChannel", 0, 1))) {
            Json::Value o = Obj();
            o["name"] = "y";
            o["address"] = 98;
            u["channels"].append(o);
        }
        if (nested && (innerQ = Pick("innerQ", 0, 1))) {
            Json::Value o = Obj();
            o["name"] = "inner";
            o["device_type"] = "T1";
            o["q"] = (Json::UInt)(iq = SymRange("iq", 0, 100));
            u["channels"].append(o);
        }
        u["id"] = "other";
        user["channels"].append(u);
    }
    bool present = type != -2;
    // without a choice the type must be repeated, with one it must be one of the choice
    bool error = present && (choice ? !(type == 0 || type == 1) : type != 0);
    int t = present ? type : 0;
    if (!present && !fixed)
        t = -1; // nothing is chosen: there is no subdevice type at all
    Json::Value res;
    if (!error && nested && t != 0 && innerQ)
        symx_prune(); // T1 has no channel "inner"
    bool bad = Throws([&] { res = MergeDeviceConfigWithTemplate(user, "D", tmpl); });
    symx_assert(bad == error, "the type of a subdevice is one of those the template allows");
    if (bad) {
        symx_reach("bad");
        return;
    }
    symx_assert(res["channels"].size() == 1 && !res.isMember("subdevices"), "subdevices are put in place of their channels");
    const auto& s = res["channels"][0];
    if (t < 0) {
        symx_assert(!s.isMember("device_type"), "no type is chosen");
        symx_reach("no choice");
        return;
    }
    symx_assert(s["name"].asString() == "sub" && s["device_type"].asString() == "T" + std::to_string(t), "name and type");
    symx_assert(s.get("shift", 0).asInt() == (shift ? 5 : 0) && s.get("stride", 0).asInt() == (stride ? 6 : 0) && s.get("id", "").asString() == (id ? "sid" : ""), "place and identifier are those of the template");
    const auto& chans = s["channels"];
    bool inner = nested && t == 0;
    symx_assert(chans.size() == 1u + (inner ? 1 : 0) + (newCh ? 1 : 0), "channels of the subdevice");
    symx_assert(chans[0]["name"].asString() == "x" && chans[0]["address"].asInt() == 10 + t && chans[0].get("read_rate_limit_ms", 0).asInt() == (limit ? 50 : 0), "the user changes only what is allowed");
    if (newCh) {
        const auto& last = chans[chans.size() - 1];
        symx_assert(last["name"].asString() == "y" && last["address"].asInt() == 98, "a channel of the user");
    }
    if (inner) {
        const auto& in = chans[1];
        symx_assert(in["name"].asString() == "inner" && in["shift"].asInt() == 3 && in["channels"].size() == 1 && in["channels"][0]["address"].asInt() == 11, "a subdevice of a subdevice");
        symx_assert(in["setup"].size() == (innerQ ? 2 : 1), "setup of the inner one");
        if (innerQ)
            symx_assert(in["setup"][0]["title"].asString() == "p1" && in["setup"][0]["value"].asUInt64() == iq, "parameter of the inner one");
    }
    const auto& setup = s["setup"];
    symx_assert(setup.size() == (hasQ ? 2 : 1), "setup of the subdevice");
    if (hasQ)
        symx_assert(setup[0]["title"].asString() == "p" + std::to_string(t) && setup[0]["address"].asInt() == 20 + t && setup[0]["value"].asUInt64() == q, "parameter of the subdevice");
    symx_assert(setup[setup.size() - 1]["title"].asString() == "s" + std::to_string(t), "setup item of the template");
    symx_reach("done");
}
// ---------------------------------------------------------------- C55
#include <filesystem>
static std::string ScratchDir()
{
#ifdef SYMX_NATIVE
    char t[] = "/tmp/symx-conf-XXXXXX";
    if (!mkdtemp(t))
        abort();
    return t;
#else
    std::filesystem::create_directories("/scratch");
    return "/scratch";
#endif
}
// C55: the map of templates after any changes of the files
HARNESS h_templates()
{
    std::string user = ScratchDir(), sys = "/sys";
    TTemplateMap map{Json::Value(), user};
    map.AddTemplatesDir(user); // the last directory is the preferred one
#ifdef SYMX_NATIVE
    std::filesystem::remove(user);
#endif
    const std::string paths[] = {sys + "/a.json", user + "/a.json", user + "/b.json", sys + "/c.json", user + "/text.txt"};
    static const char* types[] = {"T0", "T1"};
    int n = (int)symx_param("paths", 3), steps = (int)symx_param("steps", 3);
    int typeOf[5] = {-1, -1, -1, -1, -1}, when[5] = {};
    for (int step = 1; step <= steps; ++step) {
        int p = (int)Pick("path", 0, n);
        if (p == n)
            p = 4; // not a template
        if (Pick("remove", 0, 1)) {
            auto t = map.DeleteTemplate(paths[p]);
            symx_assert(t == (typeOf[p] >= 0 ? types[typeOf[p]] : ""), "the type of the removed template is reported");
            typeOf[p] = -1;
            symx_reach("removed");
        } else {
            int t = (int)Pick("type", 0, 1);
            Json::Value root = Obj();
            root["device_type"] = types[t];
            root["title"] = std::to_string(step);
            Json::Value dev = Obj();
            dev["name"] = "D";
            dev["version"] = step;
            root["device"] = dev;
            Files[paths[p]] = root;
            auto changed = map.UpdateTemplate(paths[p]);
            std::vector<std::string> expected;
            if (p != 4) {
                if (typeOf[p] >= 0)
                    expected.push_back(types[typeOf[p]]);
                if (typeOf[p] != t)
                    expected.push_back(types[t]);
                typeOf[p] = t;
                when[p] = step;
            }
            symx_assert(changed == expected, "the types whose template changed are reported");
            symx_reach("updated");
        }
        size_t known = 0;
        for (int t = 0; t < 2; ++t) {
            int best = -1, userBest = -1;
            for (int i = 0; i < 4; ++i)
                if (typeOf[i] == t) {
                    bool isUser = i == 1 || i == 2, bestUser = best == 1 || best == 2;
                    if (isUser && (!bestUser || when[i] > when[best]))
                        best = i;
                    if (!isUser && !bestUser && (best < 0 || when[i] < when[best]))
                        best = i;
                }
            PDeviceTemplate d;
            bool bad = Throws([&] { d = map.GetTemplate(types[t]); });
            symx_assert(bad == (best < 0), "a type has a template exactly if there is a file of it");
            userBest = best == 1 || best == 2 ? best : -1;
            auto u = map.FindUserDefinedTemplate(types[t]);
            symx_assert(!!u == (userBest >= 0) && (!u || u->GetFilePath() == paths[userBest]), "a template of the user is the last changed one of his directory");
            if (bad)
                continue;
            ++known;
            bool isUser = userBest >= 0;
            // among files of the other directory any may be in use
            symx_assert(d->Type == types[t] && d->IsUserDefined() == isUser && (!isUser || d->GetFilePath() == paths[best]), "templates of the user replace others");
            symx_assert(d->GetTemplate()["version"].asInt() == when[d->GetFilePath() == paths[0] ? 0 : d->GetFilePath() == paths[3] ? 3 : best], "the template is the present one");
        }
        symx_assert(map.GetTemplates().size() == known, "there is one template of every type");
    }
    Files.clear();
    symx_reach("done");
}
// C55: subdevices that contain each other are rejected
HARNESS h_nesting()
{
    int n = (int)symx_param("types", 3);
    Json::Value root = Obj();
    root["device_type"] = "D";
    Json::Value dev = Obj();
    dev["name"] = "D";
    // ref[i][k]: the k-th type is in the i-th one; the device itself is the last one
    std::vector<std::vector<bool>> ref(n + 1, std::vector<bool>(n + 1, false));
    bool unknown = false;
    for (int i = 0; i <= n; ++i) {
        Json::Value d = Obj();
        Json::Value plain = Obj();
        plain["name"] = "plain";
        plain["address"] = 1;
        d["channels"].append(plain);
        for (int k = 0; k < n; ++k)
            if ((ref[i][k] = Pick("ref", 0, 1))) {
                Json::Value c = Obj();
                c["name"] = "c" + std::to_string(k);
                if (k == 0 && symx_param("oneof", 0))
                    c["oneOf"].append("T0");
                else
                    c["device_type"] = "T" + std::to_string(k);
                d["channels"].append(c);
            }
        if (i == n && Pick("unknown", 0, 1)) {
            Json::Value c = Obj();
            c["name"] = "u";
            c["device_type"] = "T9";
            d["channels"].append(c);
            unknown = true;
        }
        if (i < n) {
            Json::Value s = Obj();
            s["device_type"] = "T" + std::to_string(i);
            s["device"] = d;
            dev["subdevices"].append(s);
        } else
            dev["channels"] = d["channels"];
    }
    root["device"] = dev;
    // a cycle that can be reached from the device
    std::vector<bool> reach(n, false);
    for (int k = 0; k < n; ++k)
        reach[k] = ref[n][k];
    for (int r = 0; r < n; ++r)
        for (int i = 0; i < n; ++i)
            for (int k = 0; k < n; ++k)
                if (reach[i] && ref[i][k])
                    reach[k] = true;
    auto close = ref;
    for (int m = 0; m < n; ++m)
        for (int i = 0; i < n; ++i)
            for (int k = 0; k < n; ++k)
                if (close[i][m] && close[m][k])
                    close[i][k] = true;
    bool cycle = false;
    for (int i = 0; i < n; ++i)
        cycle |= reach[i] && close[i][i];
    TTemplateMap map{Json::Value()};
    bool bad = Throws([&] { map.ValidateTemplate(root); });
    symx_assert(bad == (cycle || unknown), "a template is accepted exactly if its subdevices exist and do not contain each other");
    if (!bad) { // the template can be used
        Json::Value user = Obj();
        auto res = MergeDeviceConfigWithTemplate(user, "D", dev);
        symx_assert(res["channels"].size() == dev["channels"].size(), "all channels are there");
        symx_reach("accepted");
    } else
        symx_reach(cycle ? "cycle" : "unknown");
}
// C55: conditions and addresses of a template
HARNESS h_template_sections()
{
    Json::Value root = Obj();
    root["device_type"] = "D";
    Json::Value dev = Obj();
    dev["name"] = "D";
    static const char* sections[] = {"channels", "setup", "parameters"};
    static const char* conds[] = {"", "a==1", "a==1&&", "isDefined(b)||a>c", "("};
    bool object = Pick("object", 0, 1), bad = false;
    static const char* protocols[] = {"", "modbus", "other", "modbus_io"};
    int pr = (int)Pick("protocol", 0, 3);
    if (pr)
        dev["protocol"] = protocols[pr];
    int cond = (int)Pick("cond", 0, 4), where = (int)Pick("where", 0, 2);
    for (int i = 0; i < 3; ++i) {
        Json::Value item = Obj();
        item["name"] = "n";
        item["title"] = "t";
        item["id"] = "p";
        item["address"] = 1;
        if (cond && i == where) {
            item["condition"] = conds[cond];
            bad |= cond == 2 || cond == 4;
        }
        if (i == 2 && object)
            dev[sections[i]]["p"] = item;
        else
            dev[sections[i]].append(item);
    }
    int w = (int)Pick("write", 0, 4);
    static const char* addrs[] = {"", "5", "5:0:4", "5:1:4", "x"};
    Json::Value target = Obj();
    target["name"] = "w";
    int a = (int)Pick("address", 0, 3);
    if (a)
        target["address"] = addrs[a];
    if (w) {
        target["write_address"] = addrs[w];
        if (pr != 2)
            bad |= w == 4 || (w > 1 && w != a);
    }
    if (Pick("part", 0, 1)) {
        Json::Value c = Obj();
        c["name"] = "w";
        c["consists_of"].append(target);
        dev["channels"].append(c);
    } else
        dev["channels"].append(target);
    // two declarations of one parameter
    if (!object && Pick("second", 0, 1)) {
        Json::Value p = Obj();
        p["id"] = "p";
        int addr = (int)Pick("addr2", 1, 2);
        p["address"] = addr;
        bad |= addr == 2;
        if (Pick("fw2", 0, 1)) {
            p["fw"] = "1.0";
            bad = true;
        }
        dev["parameters"].append(p);
    }
    root["device"] = dev;
    TTemplateMap map{Json::Value()};
    auto copy = root;
    bool thrown = Throws([&] { map.ValidateTemplate(root); });
    symx_assert(root == copy, "checking does not change the template");
    symx_assert(thrown == bad, "a template is accepted exactly if its conditions, addresses and declarations are consistent");
    Files["/sys/d.json"] = root;
    map.UpdateTemplate("/sys/d.json");
    auto t = map.GetTemplate("D");
    bool failed = Throws([&] { t->GetTemplate(); });
    symx_assert(failed == bad, "a template is usable exactly if it is acceptable");
    if (!bad) {
        const auto& d = t->GetTemplate();
        symx_assert(d["parameters"].isArray() && d["parameters"].size() == (dev["parameters"].size()), "parameters are a list");
        symx_assert(d["parameters"][0]["id"].asString() == "p", "and keep their names");
        if (cond) {
            const auto& deps = d[sections[where]][0]["dependencies"];
            symx_assert(deps.size() == (cond == 1 ? 1 : 3), "an item depends on the parameters of its condition");
        }
        symx_reach("good");
    } else
        symx_reach("bad");
    Files.clear();
}
