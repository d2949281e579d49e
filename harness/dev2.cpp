// C34 curtain motors
#include "devbench.h"
#include "devices/curtains/a_ok_device.h"
#include "devices/curtains/dooya_device.h"
#include "devices/curtains/somfy_sdn_device.h"
#include "devices/curtains/windeco_device.h"
#include "serial_config.h"
using namespace std::chrono;
static std::vector<uint8_t> AnyAnswer(uint64_t lo, uint64_t hi)
{
    return SymBytes("answer", (size_t)Pick("len", lo, hi));
}
template<class B> static bool Write(B& b, const PRegister& r, const TRegisterValue& v)
{
    try {
        b.Device->WriteRegister(b.Port, r, v);
        return true;
    } catch (const TSerialDeviceException&) {
        return false;
    }
}
static std::vector<uint8_t> Received(const TFakePort& p)
{
    return p.Delivered.empty() ? std::vector<uint8_t>() : p.Delivered.back();
}
static std::vector<uint8_t> Frame(std::vector<uint8_t> v)
{
    AppendModbusCrc(v);
    return v;
}
// ---- Dooya
static bool DooyaIntact(const std::vector<uint8_t>& a, size_t size, uint8_t fn, uint8_t what)
{
    return a.size() >= size && CrcOk(a) && a[0] == 0x55 && a[1] == 0x34 && a[2] == 0x12 && a[3] == fn && a[4] == what;
}
HARNESS h_dooya_read()
{
    TDevBench<Dooya::TDevice> b("0x1234");
    int type = (int)Pick("type", 0, 4);
    static const int Types[] = {0, 1, 3, 4, 5};
    type = Types[type];
    auto reg = b.Add(type, 0x17, type >= 4 ? String : U8);
    b.Port.Answers.push_back(AnyAnswer(0, (uint64_t)symx_param("hi", 10)));
    b.Port.Chunk = (size_t)Pick("chunk", 0, 1);
    b.Read({reg});
    static const uint8_t Asked[] = {2, 0x17, 0, 6, 0x17, 0x17};
    symx_assert(SameBytes(b.Port.Sent[0], Frame({0x55, 0x34, 0x12, 1, Asked[type], 1})), "the reading is requested");
    auto a = Received(b.Port);
    bool good = DooyaIntact(a, 8, 1, 1) && (type != 0 || a[5] <= 100);
    if (type < 4) {
        b.Expect(reg, good, good ? a[5] : 0, 32);
        return;
    }
    symx_assert(b.Good(reg) == good, "a value is delivered exactly from an intact answer");
    if (!good)
        return;
    uint8_t v = (uint8_t)symx_choose(a[5]);
    std::string text = type == 4 ? (v == 0x11 ? "roller" : v == 0x12 ? "venetian" : "") : (v == 0 ? "stopped" : v == 1 ? "opening" : v == 2 ? "closing" : v == 3 ? "setting" : "");
    if (text.empty())
        symx_assert(reg->GetValue().Get<std::string>().substr(0, 2) == "0x", "an unknown code is shown as a number");
    else
        symx_assert(reg->GetValue().Get<std::string>() == text, "the text is that of the code");
    symx_reach("text");
}
HARNESS h_dooya_write()
{
    TDevBench<Dooya::TDevice> b("0x1234");
    int type = (int)Pick("type", 0, 3);
    bool twoBytes = type == 2 && Pick("parameter", 0, 1);
    auto reg = b.Add(type, twoBytes ? 0x0517 : 0x17, U8);
    uint8_t v = Sym8("value");
    b.Port.Answers.push_back(AnyAnswer((uint64_t)symx_param("lo", 6), (uint64_t)symx_param("hi", 9)));
    bool done = Write(b, reg, TRegisterValue{v});
    auto a = Received(b.Port);
    std::vector<uint8_t> q = {0x55, 0x34, 0x12};
    auto add = [&](std::initializer_list<uint8_t> l) { q.insert(q.end(), l); };
    bool good;
    if (type == 0) {
        if (v == 0 || v == 100) {
            add({3, (uint8_t)(v ? 1 : 2)});
            q = Frame(q);
            good = SameBytes(a, q);
        } else {
            add({3, 4, v});
            q = Frame(q);
            good = DooyaIntact(a, 8, 3, 4) && a[5] <= 100;
        }
    } else if (type == 1) {
        add({2, 0x17, 1, v});
        q = Frame(q);
        good = DooyaIntact(a, 8, 2, 0x17) && a[5] == 1;
    } else if (type == 2) {
        if (twoBytes)
            add({3, 5, 0x17});
        else
            add({3, 0x17});
        q = Frame(q);
        good = SameBytes(a, q);
    } else {
        add({3, 4, 0xff, v});
        q = Frame(q);
        good = !a.empty(); // the answer to a tilt command is not looked at
    }
    symx_assert(b.Port.Sent.size() == 1 && SameBytes(b.Port.Sent[0], q), "the command carries the value");
    symx_assert(done == good, "a write succeeds exactly if the motor confirmed it");
    symx_reach(done ? "good" : "bad");
}
// ---- WinDeco
static uint8_t WinDecoSum(const std::vector<uint8_t>& v)
{
    uint8_t s = 0;
    for (size_t i = 0; i < 6; ++i)
        s = (uint8_t)(s + v[i] * (i + 1));
    return s;
}
HARNESS h_windeco()
{
    TDevBench<WinDeco::TDevice> b("0x37");
    int op = (int)Pick("op", 0, 3); // position, parameter, write position, command
    auto reg = b.Add(op == 0 || op == 2 ? 0 : op == 1 ? 1 : 2, 0x42, U8);
    uint8_t v = Sym8("value");
    b.Port.Answers.push_back(AnyAnswer(0, (uint64_t)symx_param("hi", 9)));
    bool done = false;
    if (op < 2)
        b.Read({reg});
    else
        done = Write(b, reg, TRegisterValue{v});
    auto a = Received(b.Port);
    uint8_t cmd = op == 0 ? 6 : op == 1 ? 7 : op == 3 ? 0x42 : (uint8_t)symx_ite(v == 0, 4, symx_ite(v == 100, 2, v | 0x80));
    std::vector<uint8_t> q = {0x81, 0, 0, 1, 0x37, cmd, 0};
    q[6] = WinDecoSum(q);
    symx_assert(b.Port.Sent.size() == 1 && SameBytes(b.Port.Sent[0], q), "the command carries the value");
    bool intact = a.size() == 7 && a[0] == 1 && a[6] == WinDecoSum(a) && a[3] == 1 && a[4] == 0x37;
    if (op == 0)
        b.Expect(reg, intact && a[5] <= 100, intact ? a[5] : 0, 32);
    else if (op == 1)
        b.Expect(reg, intact, intact ? a[5] : 0, 32);
    else {
        bool good = intact && (op == 3 ? a[5] == 0x42 : v == 0 ? a[5] == 4 : v == 100 ? a[5] == 2 : a[5] <= 100);
        symx_assert(done == good, "a write succeeds exactly if the motor confirmed it");
        symx_reach(done ? "good" : "bad");
    }
}
// ---- Somfy SDN: every byte but the checksum is sent inverted; the checksum is the sum of the bytes on the wire
struct TSomfyBench
{
    PDeviceConfig Config = std::make_shared<TDeviceConfig>("dev", "0x123456", "proto");
    std::shared_ptr<Somfy::TDevice> Device;
    TFakePort Port;
    TSerialDeviceFactory Factory;
    Somfy::TNodeType Node = Somfy::SONESSE_30;
    explicit TSomfyBench(Somfy::TNodeType node = Somfy::SONESSE_30, Somfy::TApplicationMode mode = Somfy::VENETIAN): Node(node)
    {
        Config->FrameTimeout = milliseconds(0);
        Config->MaxRegHole = 0;
        Somfy::TDevice::Register(Factory);
        Device = std::make_shared<Somfy::TDevice>(Config, node, mode, BenchProtocol());
    }
    PRegister Add(int type, const std::string& addr, RegisterFormat format, const std::string& header = "", const std::string& write = "")
    {
        Json::Value j;
        j["address"] = addr;
        if (!header.empty())
            j["response_header"] = header;
        if (!write.empty())
            j["write_address"] = write;
        auto& af = Factory.GetProtocolParams("somfy").factory->GetRegisterAddressFactory();
        auto d = af.LoadRegisterAddress(j, af.GetBaseRegisterAddress(), 0, 1);
        return Device->AddRegister(TRegisterConfig::Create(type, d, format, 1, 0, 0, TRegisterConfig::TSporadicMode::DISABLED, false, "t" + std::to_string(type)));
    }
    void Read(const PRegister& r)
    {
        auto range = Device->CreateRegisterRange();
        range->Add(Port, r, milliseconds::max());
        Device->ReadRegisterRange(Port, range, false);
    }
    std::vector<uint8_t> Request(uint8_t msg, const std::vector<uint8_t>& data) const
    {
        std::vector<uint8_t> v = {msg, (uint8_t)(0x80 | (11 + data.size())), (uint8_t)Node, 0xff, 0xff, 0, 0x56, 0x34, 0x12};
        v.insert(v.end(), data.begin(), data.end());
        return Wire(v);
    }
    std::vector<uint8_t> Reply(uint8_t msg, const std::vector<uint8_t>& data) const
    {
        std::vector<uint8_t> v = {msg, (uint8_t)(11 + data.size()), (uint8_t)(Node << 4), 0x56, 0x34, 0x12, 0xff, 0xff, 0};
        v.insert(v.end(), data.begin(), data.end());
        return Wire(v);
    }
    static std::vector<uint8_t> Wire(std::vector<uint8_t> v)
    {
        uint16_t s = 0;
        for (auto& c: v) {
            c = (uint8_t)~c;
            s = (uint16_t)(s + c);
        }
        v.push_back((uint8_t)(s >> 8));
        v.push_back((uint8_t)s);
        return v;
    }
    // the answer is of this motor, for us, and of the given kind
    static bool Intact(const std::vector<uint8_t>& a, uint8_t msg)
    {
        size_t n = a.size();
        if (n < 11)
            return false;
        uint16_t s = 0;
        for (size_t i = 0; i + 2 < n; ++i)
            s = (uint16_t)(s + a[i]);
        static const uint8_t Addr[] = {0xa9, 0xcb, 0xed, 0, 0, 0xff};
        uint8_t d = 0;
        for (size_t i = 0; i < 6; ++i)
            d |= (uint8_t)(a[3 + i] ^ Addr[i]);
        return (uint8_t)(~a[1] & 0x1f) == n && (uint8_t)~a[0] == msg && d == 0 && s == (uint16_t)(a[n - 2] << 8 | a[n - 1]);
    }
};
HARNESS h_somfy_read()
{
    TSomfyBench b;
    struct
    {
        int Type;
        const char* Addr;
        unsigned Off, Width;
    } kinds[] = {{0, "0", 16, 8}, {3, "0", 24, 8}, {1, "0x22", 0, 0}, {1, "0x22:0:8", 0, 8}, {1, "0x22:8:16", 8, 16}, {1, "0x22:60:8", 60, 8}};
    auto& k = kinds[Pick("kind", 0, 5)];
    bool param = k.Type == 1;
    auto reg = b.Add(k.Type, k.Addr, k.Type == 0 ? U8 : k.Type == 3 ? U16 : U64, param ? "0x32" : "");
    auto a = AnyAnswer((uint64_t)symx_param("lo", 0), (uint64_t)symx_param("hi", 14));
    b.Port.Answers.push_back(a);
    b.Read(reg);
    symx_assert(b.Port.Sent.size() == 1 && SameBytes(b.Port.Sent[0], b.Request(param ? 0x22 : 0x0c, {})), "the reading is requested");
    bool good = TSomfyBench::Intact(a, param ? 0x32 : 0x0d);
    uint64_t v = 0;
    if (good) {
        size_t n = a.size() - 11;
        for (size_t i = 0; i < n && i < 8; ++i)
            v |= (uint64_t)(uint8_t)~a[9 + i] << (8 * i);
        if (k.Off >= n * 8)
            good = false; // the answer has no such field
        else if (k.Width)
            v = (v >> k.Off) & ((1ull << k.Width) - 1);
        if (good && k.Type == 0 && v > 100)
            good = false;
    }
    TDevBench<Somfy::TDevice>::Expect(reg, good, v, 64);
}
HARNESS h_somfy_write()
{
    auto node = Pick("node", 0, 1) ? Somfy::AC_40 : Somfy::SONESSE_30;
    auto mode = Pick("mode", 0, 1) ? Somfy::VENETIAN : Somfy::ROLLER;
    TSomfyBench b(node, mode);
    int op = (int)Pick("op", 0, 2);
    uint64_t v;
    std::vector<uint8_t> data;
    uint8_t msg = 3;
    bool tooLong = false;
    PRegister reg;
    if (op == 0) {
        v = SymRange("position", 0, 255);
        reg = b.Add(0, "0", U8);
        if (v == 0)
            data = {1, 0, 0, 0};
        else if (v == 100)
            data = {0, 0, 0, 0};
        else if (node == Somfy::AC_40 && mode == Somfy::VENETIAN)
            data = {7, (uint8_t)v, 0, 0, 0, 0};
        else
            data = {4, (uint8_t)v, 0, 0};
    } else if (op == 1) {
        static const uint8_t Lens[] = {0, 1, 3, 7, 20, 21, 255};
        uint8_t len = Lens[Pick("length", 0, 6)];
        v = Sym64("command");
        symx_assume((v & 0xff) == len);
        reg = b.Add(2, "0x11", U64);
        msg = 0x11;
        tooLong = len > 20; // the length of a packet has 5 bits
        for (unsigned i = 1; i <= len && !tooLong; ++i)
            data.push_back(i < 8 ? (uint8_t)(v >> (8 * i)) : 0);
    } else {
        v = Sym16("angle");
        reg = b.Add(3, "0", U16);
        data = {15, 0, 0, 0, (uint8_t)v, (uint8_t)(v >> 8)};
    }
    auto a = SymBytes("answer", (size_t)Pick("len", (uint64_t)symx_param("lo", 10), (uint64_t)symx_param("hi", 12)));
    b.Port.Answers.push_back(a);
    bool done = Write(b, reg, TRegisterValue{v});
    if (tooLong) {
        symx_assert(!done && b.Port.Sent.empty(), "a command that fits no packet is refused");
        symx_reach("long");
        return;
    }
    symx_assert(b.Port.Sent.size() == 1 && SameBytes(b.Port.Sent[0], b.Request(msg, data)), "the command carries the value");
    symx_assert(done == TSomfyBench::Intact(a, 0x7f), "a write succeeds exactly if the motor confirmed it");
    symx_reach(done ? "good" : "bad");
}
// parameters are written as a whole: the fields not written keep what the motor has
HARNESS h_somfy_param()
{
    TSomfyBench b;
    bool separate = Pick("separate", 0, 1); // written with another message, whose size is fixed
    std::string write = separate ? "0x13" : "";
    PRegister f0 = b.Add(1, "0x23:0:8", U64, "0x33", write), f1 = b.Add(1, "0x23:8:8", U64, "0x33", write), f5 = b.Add(1, "0x23:40:8", U64, "0x33", write), all = b.Add(1, "0x23", U64, "0x33", write);
    if (Pick("unread", 0, 1)) {
        symx_assert(!Write(b, f0, TRegisterValue{(uint64_t)1}) && b.Port.Sent.empty(), "a parameter that was not read is not written");
        symx_reach("unread");
    }
    size_t n = (size_t)Pick("size", 0, (uint64_t)symx_param("hi", 5));
    auto data = SymBytes("data", n);
    b.Port.Answers.push_back(b.Reply(0x33, data));
    b.Read(all);
    symx_assert(TDevBench<Somfy::TDevice>::Good(all) == (n != 0), "the parameter is read");
    if (n)
        symx_assert(all->GetValue().Get<uint64_t>() == LittleEndian(data.data(), n), "the parameter is read");
    auto now = data;
    if (separate)
        now.resize(3);
    for (int s = 0; s < (int)symx_param("steps", 2); ++s) {
        int k = (int)Pick("field", 0, 3);
        uint64_t v = Sym8("value");
        bool ack = Pick("ack", 0, 1);
        b.Port.Sent.clear();
        b.Port.Answers.clear();
        b.Port.Answers.push_back(ack ? b.Reply(0x7f, {}) : b.Reply(0x6f, {1}));
        bool done = Write(b, k == 0 ? f0 : k == 1 ? f1 : k == 2 ? f5 : all, TRegisterValue{v});
        auto next = now;
        size_t pos = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 5 : 0;
        if (pos >= now.size()) {
            symx_assert(!done && b.Port.Sent.empty(), "a field the parameter does not have is not written");
            symx_reach("outside");
            continue;
        }
        if (k == 3)
            std::fill(next.begin(), next.end(), 0);
        next[pos] = (uint8_t)v;
        symx_assert(b.Port.Sent.size() == 1 && SameBytes(b.Port.Sent[0], b.Request(separate ? 0x13 : 0x23, next)), "the other fields are written as they were");
        symx_assert(done == ack, "a write succeeds exactly if the motor confirmed it");
        if (done)
            now = next;
        symx_reach(done ? "good" : "bad");
    }
}
// ---- A-OK
static bool AokIntact(const std::vector<uint8_t>& a)
{
    if (a.size() != 10)
        return false;
    uint8_t x = 0;
    for (size_t i = 1; i < 10; ++i)
        x ^= a[i];
    return a[0] == 0xd8 && a[1] == 0x12 && a[2] == 0x34 && a[3] == 0x56 && x == 0;
}
static std::vector<uint8_t> AokFrame(uint8_t head, std::vector<uint8_t> data)
{
    std::vector<uint8_t> v = {head, 0x12, 0x34, 0x56};
    v.insert(v.end(), data.begin(), data.end());
    uint8_t x = 0;
    for (size_t i = 1; i < v.size(); ++i)
        x ^= v[i];
    v.push_back(x);
    return v;
}
HARNESS h_aok_read()
{
    TDevBench<Aok::TDevice> b("0x123456");
    int kind = (int)Pick("kind", 0, 3);
    PRegister reg;
    unsigned off = 24, width = 8;
    std::vector<uint8_t> q = {0xcc, 0};
    if (kind == 0)
        reg = b.Add(0, 0, U8);
    else if (kind == 1) {
        unsigned bit = (unsigned)Pick("bit", 0, 7);
        reg = b.Add(4, bit, U8);
        off = 32 + bit;
        width = 1;
        q = {0xca, 0xca};
    } else {
        static const unsigned Off[] = {0, 17};
        static const unsigned Width[] = {0, 12};
        off = Off[kind - 2];
        width = Width[kind - 2];
        TRegisterDesc d;
        d.Address = d.WriteAddress = std::make_shared<TUint32RegisterAddress>(0xcb21);
        d.DataOffset = off;
        d.DataWidth = width;
        reg = b.Device->AddRegister(TRegisterConfig::Create(3, d, U64, 1, 0, 0, TRegisterConfig::TSporadicMode::DISABLED, false, "t3"));
        q = {0xcb, 0x21};
    }
    b.Port.Answers.push_back(AnyAnswer(0, (uint64_t)symx_param("hi", 12)));
    b.Port.Chunk = (size_t)Pick("chunk", 0, 1);
    b.Read({reg});
    auto a = Received(b.Port);
    symx_assert(b.Port.Sent.size() == 1 && SameBytes(b.Port.Sent[0], AokFrame(0x9a, q)), "the reading is requested");
    bool good = AokIntact(a);
    uint64_t v = 0;
    if (good) {
        v = LittleEndian(a.data() + 4, 5);
        if (width)
            v = (v >> off) & ((1ull << width) - 1);
    }
    b.Expect(reg, good, v, 64);
}
HARNESS h_aok_write()
{
    TDevBench<Aok::TDevice> b("0x123456");
    int type = (int)Pick("type", 0, 2);
    auto reg = b.Add(type, 0xd9, U8);
    uint8_t v = Sym8("value");
    symx_assert(Write(b, reg, TRegisterValue{v}), "a command without an answer succeeds");
    symx_assert(b.Port.Sent.size() == 1 && SameBytes(b.Port.Sent[0], AokFrame(0x9a, type == 0 ? std::vector<uint8_t>{0xdd, v} : type == 1 ? std::vector<uint8_t>{0x0a, 0xd9} : std::vector<uint8_t>{0xd9, v})),
                "the command carries the value");
    symx_reach("good");
}
// single bits of a byte of the motor: writing one leaves the others, and what is read is what the motor has
HARNESS h_aok_bits()
{
    TDevBench<Aok::TDevice> b("0x123456");
    uint8_t state = Sym8("state");
    bool fail = false;
    unsigned asked = 0;
    b.Port.Answer = [&](const std::vector<uint8_t>& q) -> std::vector<uint8_t> {
        symx_assert(q.size() == 7 && q[0] == 0x9a, "requests are well formed");
        if (q[4] == 0xd5) {
            state = q[5];
            return {};
        }
        symx_assert(q[4] == 0xca && q[5] == 0xca, "the status is requested");
        ++asked;
        fail = Pick("fail", 0, 1);
        if (fail)
            return AokFrame(0xd8, {1, 2, 3, 4}); // cut
        return AokFrame(0xd8, {1, 2, 3, 4, state});
    };
    PRegister regs[] = {b.Add(4, 0, U8), b.Add(4, 3, U8), b.Add(4, 7, U8), b.Add(4, 8, U8)};
    static const uint8_t Bits[] = {1, 8, 128, 0};
    for (int s = 0; s < (int)symx_param("steps", 3); ++s) {
        int k = (int)Pick("register", 0, 3);
        uint8_t before = state;
        if (Pick("write", 0, 1)) {
            uint8_t v = Sym8("value");
            b.Port.Answers.clear();
            bool done = Write(b, regs[k], TRegisterValue{v});
            if (k == 3) {
                symx_assert(!done && state == before, "the byte has no such bit");
                continue;
            }
            symx_assert(done == !fail, "a write succeeds exactly if the status was read");
            symx_assert(state == (done ? (uint8_t)symx_ite(v != 0, before | Bits[k], before & ~Bits[k]) : before), "a write changes its bit only");
            symx_reach(done ? "written" : "failed");
            if (SymBool("changed")) // by a remote control
                state = Sym8("state");
        } else if (k < 3) {
            b.Port.Answers.clear();
            asked = 0;
            b.Read({regs[k]});
            symx_assert(asked == 1, "a reading asks the motor");
            b.Expect(regs[k], !fail, symx_ite((state & Bits[k]) != 0, 1, 0), 32);
        }
    }
}
