// C32 IEC 61107 meters
#include "devbench.h"
#include "devices/energomera_iec_device.h"
#include "devices/energomera_iec_mode_c_device.h"
#include "devices/iec_mode_c_device.h"
#include "devices/neva_device.h"
#include "serial_config.h"
using namespace std::chrono;
typedef std::vector<uint8_t> TBytes;
static TBytes operator+(TBytes a, const TBytes& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
static TBytes Text(const std::string& s)
{
    return TBytes(s.begin(), s.end());
}
static uint8_t Sum7(const uint8_t* p, size_t n)
{
    uint8_t s = 0;
    for (size_t i = 0; i < n; ++i)
        s = (uint8_t)(s + p[i]);
    return s & 0x7f;
}
static uint8_t Xor7(const uint8_t* p, size_t n)
{
    uint8_t s = 0;
    for (size_t i = 0; i < n; ++i)
        s ^= p[i];
    return s & 0x7f;
}
// <start> text <ETX> checksum
template<class C> static TBytes Framed(uint8_t start, const TBytes& t, C crc)
{
    TBytes v = TBytes{start} + t + TBytes{3};
    v.push_back(crc(v.data() + 1, v.size() - 1));
    return v;
}
template<class C> static bool Intact(const TBytes& a, C crc)
{
    size_t n = a.size();
    return n >= 3 && a[0] == 2 && a[n - 2] == 3 && a[n - 1] == crc(a.data() + 1, n - 2);
}
class TSettingsPort: public TFakePort
{
public:
    TSerialPortConnectionSettings Own{19200, 'N', 8, 2}, Now{19200, 'N', 8, 2};
    void ApplySerialPortSettings(const TSerialPortConnectionSettings& s) override
    {
        Now.BaudRate = s.BaudRate;
        Now.Parity = s.Parity;
        Now.DataBits = s.DataBits;
        Now.StopBits = s.StopBits;
    }
    void ResetSerialPortSettings() override
    {
        ApplySerialPortSettings(Own);
    }
    void SkipNoise() override
    {
        if (Answer)
            Answers.clear();
    }
    bool IsOwn() const
    {
        return Now.BaudRate == Own.BaudRate && Now.Parity == Own.Parity && Now.DataBits == Own.DataBits && Now.StopBits == Own.StopBits;
    }
    bool Is7E1(int baud) const
    {
        return Now.BaudRate == baud && Now.Parity == 'E' && Now.DataBits == 7 && Now.StopBits == 1;
    }
};
template<class D> struct TIecBench
{
    PDeviceConfig Config;
    std::shared_ptr<D> Device;
    TSettingsPort Port;
    explicit TIecBench(const std::string& slave)
    {
        Config = std::make_shared<TDeviceConfig>("dev", slave, "proto");
        Config->FrameTimeout = milliseconds(0);
        Config->MaxRegHole = 0;
        Device = std::make_shared<D>(Config, BenchProtocol());
    }
    PRegister Add(int type, const std::shared_ptr<IRegisterAddress>& addr, RegisterFormat format, const std::string& typeName, uint32_t offset = 0)
    {
        TRegisterDesc d;
        d.Address = d.WriteAddress = addr;
        d.DataOffset = offset;
        return Device->AddRegister(TRegisterConfig::Create(type, d, format, 1, 0, 0, TRegisterConfig::TSporadicMode::DISABLED, true, typeName));
    }
    PRegister Add(int type, uint32_t addr, const std::string& typeName)
    {
        return Add(type, std::make_shared<TUint32RegisterAddress>(addr), Double, typeName);
    }
    bool Read(std::initializer_list<PRegister> regs)
    {
        auto range = Device->CreateRegisterRange();
        bool all = true;
        for (auto& r: regs)
            all &= range->Add(Port, r, milliseconds::max());
        Device->ReadRegisterRange(Port, range, false);
        return all;
    }
    static bool Good(const PRegister& r)
    {
        return !r->GetErrorState().test(TRegister::ReadError) && r->GetValue().GetType() != TRegisterValue::ValueType::Undefined;
    }
    static bool IsDouble(const PRegister& r, double d)
    {
        return r->GetValue().template Get<uint64_t>() == CopyDoubleToUint64(d);
    }
};
static int Shape = 0; // of the reply, see Reply()
static uint8_t Digit(const char* n)
{
    if (Shape)
        return '3';
    uint8_t c = Sym8(n);
    symx_assume(c >= '0' && c <= '9');
    return c;
}
// ---- Energomera, fast read
typedef TIecBench<TEnergomeraIecWithFastReadDevice> TFastBench;
// every set of registers is requested by a well-formed frame
HARNESS h_iec_fast_request()
{
    static const char* Ids[] = {"", "00000211", "abcdefghijklmnopqrstuvwxyz012345"};
    std::string id = Ids[Pick("id", 0, 2)];
    TFastBench b(id);
    auto range = b.Device->CreateRegisterRange();
    std::map<unsigned, unsigned> want;
    unsigned first = 0x1000 + (unsigned)Pick("parameter", 0, (uint64_t)symx_param("params", 63));
    unsigned n = (unsigned)Pick("count", 1, 13), accepted = 0;
    bool sparse = Pick("sparse", 0, 1);
    for (unsigned i = 0; i < n; ++i) {
        unsigned param = sparse ? first + i : first + i / 3, num = sparse ? 1 + i % 16 : 1 + i % 3 * 7;
        if (i == 0 && Pick("wrong", 0, 1))
            num = Pick("zero", 0, 1) ? 0 : 77;
        auto r = b.Add(0, param << 8 | num, "t");
        if (!range->Add(b.Port, r, milliseconds::max()))
            break;
        ++accepted;
        if (num >= 1 && num <= 16)
            want[param] |= 1u << (num - 1);
        else {
            symx_assert(!TFastBench::Good(r), "there is no such value");
            symx_reach("wrong");
        }
    }
    if (want.empty())
        return;
    symx_assert(accepted == n || accepted > 5, "a request is not needlessly small");
    b.Device->ReadRegisterRange(b.Port, range, false);
    std::string q = "R1\x02GROUP(";
    static const char Hex[] = "0123456789ABCDEF";
    for (auto& p: want) {
        for (int s = 12; s >= 0; s -= 4)
            q.push_back(Hex[p.first >> s & 15]);
        q.push_back('(');
        bool lead = true;
        for (int s = 12; s >= 0; s -= 4) {
            if (p.second >> s & 15)
                lead = false;
            if (!lead)
                q.push_back(Hex[p.second >> s & 15]);
        }
        q.push_back(')');
    }
    q.push_back(')');
    symx_assert(b.Port.Sent.size() == 1 && SameBytes(b.Port.Sent[0], Text("/?" + id + "!") + Framed(1, Text(q), Sum7)), "all values are requested in one well-formed frame");
    symx_reach("request");
}
// intact replies to a request for two values of one parameter and one of another
HARNESS h_iec_fast_values()
{
    TFastBench b("00000211");
    PRegister regs[] = {b.Add(0, 0x400101, "t"), b.Add(0, 0x400103, "t"), b.Add(0, 0x400201, "t")};
    TBytes body = Text("4001");
    bool known = Pick("known", 0, 1); // read before
    for (auto& r: regs)
        if (known)
            r->SetValue(TRegisterValue{7});
    double want[3];
    int error[3];
    for (int i = 0; i < 3; ++i) {
        if (i == 2)
            body = body + Text("4002");
        error[i] = (int)Pick("kind", 0, 3);
        if (error[i]) { // unsupported parameter, unsupported value, another error
            static const char* E[] = {"", "(E12)", "(E17)", "(E05)"};
            body = body + Text(E[error[i]]);
            continue;
        }
        uint8_t d1 = Digit("digit"), d2 = Digit("digit"), d3 = Digit("digit");
        bool neg = i == 1 && Pick("negative", 0, 1);
        body = body + Text(neg ? "(-" : "(") + TBytes{d1, '.', d2, d3, ')'};
        double v = (double)((uint64_t)(d1 - '0') * 100 + (uint64_t)(d2 - '0') * 10 + (uint64_t)(d3 - '0')) / 100.0;
        want[i] = neg ? -v : v;
    }
    size_t cut = (size_t)Pick("cut", 0, (uint64_t)symx_param("cut", 8));
    body.resize(body.size() - cut);
    b.Port.Answers.push_back(Framed(2, body, Sum7));
    b.Port.Chunk = (size_t)Pick("chunk", 0, 1);
    b.Read({regs[1], regs[2], regs[0]});
    for (int i = 0; i < 3; ++i) {
        bool good = !error[i] && !cut;
        symx_assert(TFastBench::Good(regs[i]) == good, "a value is delivered exactly from an intact answer");
        if (good)
            symx_assert(TFastBench::IsDouble(regs[i], want[i]), "the value is the one in the answer");
        if (!cut)
            symx_assert((regs[i]->GetAvailable() == TRegisterAvailability::UNAVAILABLE) == (!known && (error[i] == 1 || error[i] == 2)), "only an unsupported register is excluded");
        symx_reach(good ? "good" : "bad");
    }
}
// one arbitrary byte anywhere, or a reply about another parameter
HARNESS h_iec_fast_damaged()
{
    TFastBench b("00000211");
    auto reg = b.Add(0, 0x400101, "t");
    auto a = Framed(2, Text("4001(2.5)"), Sum7);
    static const char* Foreign[] = {"", "4003(2.5)", "4000(2.5)", "0401(2.5)"};
    if (int foreign = (int)Pick("foreign", 0, 3)) {
        a = Framed(2, Text(Foreign[foreign]), Sum7);
        b.Port.Answers.push_back(a);
        b.Read({reg});
        symx_assert(!TFastBench::Good(reg), "a reply about another parameter is refused");
        return;
    }
    size_t pos = (size_t)Pick("at", 0, a.size() - 1);
    uint8_t was = a[pos];
    a[pos] = Sym8("byte");
    for (int i = 1; i < (int)symx_param("damage", 1); ++i)
        a[(size_t)Pick("at", 0, a.size() - 1)] = Sym8("byte");
    b.Port.Answers.push_back(a);
    b.Port.Chunk = (size_t)Pick("chunk", 0, 1);
    b.Read({reg});
    auto got = b.Port.Delivered.back();
    bool good = TFastBench::Good(reg);
    if (good)
        symx_assert(Intact(got, Sum7), "a damaged reply has no value");
    if (a[pos] == was && symx_param("damage", 1) == 1)
        symx_assert(good && TFastBench::IsDouble(reg, 2.5), "the value is the one in the answer");
    symx_reach(good ? "good" : "bad");
}
HARNESS h_iec_fast_any()
{
    TFastBench b("00000211");
    auto reg = b.Add(0, 0x400101, "t");
    TBytes a = SymBytes("answer", (size_t)Pick("len", 0, (uint64_t)symx_param("hi", 5)));
    if (Pick("framed", 0, 1))
        a = Framed(2, Text("4001") + a, Sum7);
    b.Port.Answers.push_back(a);
    b.Read({reg});
    if (TFastBench::Good(reg)) {
        symx_assert(Intact(b.Port.Delivered.back(), Sum7), "a damaged reply has no value");
        symx_reach("good");
    } else
        symx_reach("bad");
}
// ---- mode C
// the meter answers sign-on at its baud rate, switches to programming mode and takes the password; any step may fail
template<class D, class C> static void Session(C crc, int firstBaud, const TBytes& password)
{
    std::string id = Pick("id", 0, 1) ? "12345678" : "";
    TIecBench<D> b(id);
    auto& port = b.Port;
    bool knowsPassword = Pick("password", 0, 1);
    TBytes pass = password;
    if (knowsPassword) {
        b.Config->Password = {0xab, 0x01, 0x20, 0xff};
        pass = Text("(AB0120FF)");
    }
    // 1: signed on, 2: programming mode, 3: authenticated
    int state = 0, faults = (int)symx_param("faults", 3);
    bool ended = false, signedOn = false, ever = false, everFailed = false; // a failure the meter itself caused
    unsigned count = 0;
    int meterBaud = firstBaud == 9600 || Pick("remembers", 0, 1) ? 9600 : firstBaud;
    port.Answer = [&](const TBytes& q) -> TBytes {
        symx_assert(++count < 40, "an exchange ends whatever the meter answers");
        symx_assert(!port.IsOwn(), "the port has the settings of the meter");
        if (SameBytes(q, Framed(1, Text("B0"), crc))) {
            ended = true;
            state = 0;
            return {};
        }
        ended = false;
        if (SameBytes(q, Text("/?" + id + "!\r\n"))) {
            ever = true;
            if (!port.Is7E1(meterBaud))
                return {};
            state = 0;
            if (faults > 0) {
                int f = (int)Pick("sign on", 0, 1);
                if (f) {
                    --faults;
                    everFailed = true;
                    return {};
                }
            }
            state = 1;
            signedOn = true;
            return Text("/abc5X\r\n");
        }
        if (SameBytes(q, TBytes{6, '0', '5', '1', '\r', '\n'})) {
            symx_assert(state == 1, "programming mode is asked for after sign-on");
            int f = (int)Pick("program", 0, symx_param("simple", 0) ? 1 : 4);
            everFailed |= f != 0;
            auto ok = Framed(1, Text("P0\x02(0)"), crc);
            if (f == 1)
                return {};
            if (f == 2)
                return {0x15};
            if (f == 3) {
                ok.back() ^= 1;
                return ok;
            }
            if (f == 4)
                return Framed(1, Text("B0"), crc);
            state = 2;
            meterBaud = 9600;
            return ok;
        }
        if (!pass.empty() && SameBytes(q, Framed(1, Text("P1\x02") + pass, crc))) {
            symx_assert(state == 2 && port.Is7E1(9600), "the password is sent in programming mode");
            int f = (int)Pick("auth", 0, symx_param("simple", 0) ? 1 : 3);
            everFailed |= f != 0;
            if (f == 0) {
                state = 3;
                return {6};
            }
            if (f == 1)
                return {};
            if (f == 2)
                return {0x15};
            return Framed(2, Text("(ERR15)"), crc);
        }
        symx_assert(false, "the request is one of the protocol");
        return {};
    };
    for (int session = 0; session < (int)symx_param("sessions", 1); ++session) {
    if (session) { // the meter may have gone back to its first speed
        meterBaud = firstBaud == 9600 || Pick("remembers", 0, 1) ? 9600 : firstBaud;
        count = 0;
        state = 0;
        signedOn = ended = false;
    }
    bool opened = false;
    try {
        b.Device->Prepare(port);
        opened = true;
    } catch (const TSerialDeviceException&) {
    }
    symx_assert(opened || faults < 0 || everFailed, "a meter that answers gets its session");
    symx_assert(opened == (state == (pass.empty() ? 2 : 3)), "the session is open exactly if the meter agreed");
    if (opened) {
        symx_assert(port.Is7E1(9600), "the session uses the agreed settings");
        port.Answers.clear();
        b.Device->EndSession(port);
        symx_reach("opened");
    } else
        symx_reach("failed");
    symx_assert(ended, "the meter is told that the session is over");
    symx_assert(port.IsOwn(), "the port has its own settings after the session");
    port.Answers.clear();
    everFailed = false;
    }
}
HARNESS h_iec_session()
{
    TBytes zeros = Text("(00000000)");
    switch (Pick("driver", 0, 2)) {
        case 0:
            Session<TNevaDevice>(Xor7, 9600, zeros);
            break;
        case 1:
            Session<TEnergomeraIecModeCDevice>(Sum7, 9600, zeros);
            break;
        default:
            Session<TIecModeCDevice>(Xor7, 300, {});
    }
}
// shapes of replies: 0 intact, 1 one arbitrary byte, 2 cut, 3 arbitrary bytes, 4 framed arbitrary bytes, 5 error text, 6 other parameter
template<class B, class C> static TBytes Reply(B& b, C crc, const std::string& name, const TBytes& value)
{
    TBytes a = Framed(2, Text(name) + value, crc);
    switch (Shape) {
        case 1: {
            for (int i = 0; i < (int)symx_param("damage", 1); ++i) {
                size_t pos = (size_t)Pick("at", 0, a.size() - 1);
                a[pos] = Sym8("byte");
            }
            break;
        }
        case 2: {
            TBytes t = Text(name) + value;
            t.resize(t.size() - (size_t)Pick("cut", 1, t.size()));
            if (Pick("framed", 0, 1))
                a = Framed(2, t, crc);
            else
                a = TBytes{2} + t;
            break;
        }
        case 3:
            a = SymBytes("answer", (size_t)Pick("len", 0, (uint64_t)symx_param("hi", 4)));
            break;
        case 4:
            a = Framed(2, Text(name) + SymBytes("answer", (size_t)Pick("len", 0, (uint64_t)symx_param("hi", 4))), crc);
            break;
        case 5:
            a = Framed(2, Text("(ERR12)"), crc);
            break;
        case 6: {
            std::string n = name;
            n[(size_t)Pick("letter", 0, n.size() - 1)] ^= 1;
            a = Framed(2, Text(n) + value, crc);
            break;
        }
    }
    b.Port.Answers.push_back(a);
    b.Port.Chunk = (size_t)Pick("chunk", 0, 1);
    return a;
}
// the reply is a damaged one: no value may come from it unless its checksum fits
template<class B, class C> static bool Check(B& b, const PRegister& r, C crc, int shape, bool same, double want, const char* request)
{
    symx_assert(!b.Port.Sent.empty() && SameBytes(b.Port.Sent[0], Framed(1, Text(request), crc)), "the parameter is requested");
    bool good = b.Good(r);
    if (good)
        symx_assert(!b.Port.Delivered.empty() && Intact(b.Port.Delivered.back(), crc), "a damaged reply has no value");
    if (same) {
        symx_assert(good && b.IsDouble(r, want), "the value is the one in the answer");
        symx_reach("good");
    } else if (shape == 3 || shape == 5 || shape == 6) {
        symx_assert(!good, "no value comes from such a reply");
        symx_reach("bad");
    }
    return good;
}
HARNESS h_iec_neva()
{
    Shape = (int)Pick("shape", 0, 6);
    TIecBench<TNevaDevice> b("");
    static const char* Types[] = {"default", "power_factor", "temperature", "item_1", "item_3", "item_5"};
    static const int Index[] = {0, 0, 0, 0, 2, 4};
    int type = (int)Pick("type", 0, 5);
    auto reg = b.Add(8, 0x1F0700FFu, Types[type]);
    int items = (int)Pick("items", 1, 5);
    TBytes v = {'('};
    double want = 0;
    int at = (int)symx_param("digits", 0) ? -1 : Index[type];
    for (int i = 0; i < items; ++i) {
        if (i)
            v.push_back(',');
        bool sym = i == at || at < 0;
        uint8_t d[4] = {'0', '1', '2', '5'};
        if (sym)
            for (auto& c: d)
                c = Digit("digit");
        v = v + TBytes{d[0], d[1], d[2], '.', d[3]};
        if (i == Index[type])
            want = (double)((uint64_t)(d[0] - '0') * 1000 + (uint64_t)(d[1] - '0') * 100 + (uint64_t)(d[2] - '0') * 10 + (uint64_t)(d[3] - '0')) / 10.0;
    }
    v.push_back(')');
    auto shape = Shape;
    Reply(b, Xor7, "1F0700FF", v);
    b.Read({reg});
    if (type == 1)
        want = want >= 20 ? want - 20 : want >= 10 ? -(want - 10) : want;
    if (type == 2)
        want = want >= 100 ? -(want - 100) : want;
    bool good = Check(b, reg, Xor7, shape, shape == 0 && items > Index[type], want, "R1\x02" "1F0700FF()");
    if (shape == 0 && items <= Index[type])
        symx_assert(!good, "the reply has no such item");
}
HARNESS h_iec_energomera()
{
    Shape = (int)Pick("shape", 0, 6);
    TIecBench<TEnergomeraIecModeCDevice> b("");
    int type = (int)Pick("type", 0, 4); // default, item_1, item_3, date, time
    static const int Kinds[] = {0, 1, 1, 2, 3};
    auto addr = std::make_shared<TStringRegisterAddress>("ET0PE()");
    auto reg = b.Add(Kinds[type], addr, type < 3 ? Double : U32, type == 3 ? "date" : type == 4 ? "time" : type == 0 ? "default" : "item_1", type == 2 ? 2 : 0);
    TBytes v;
    double want = 0;
    uint64_t number = 0;
    if (type < 3) {
        int items = type == 2 ? (int)Pick("items", 1, 4) : 1;
        for (int i = 0; i < items; ++i) {
            uint8_t d[4] = {'0', '1', '2', '5'};
            if (i == (type == 2 ? 2 : 0))
                for (auto& c: d)
                    c = Digit("digit");
            v = v + TBytes{'(', d[0], d[1], '.', d[2], d[3], ')', '\r', '\n'};
            if (i == (type == 2 ? 2 : 0))
                want = (double)((uint64_t)(d[0] - '0') * 1000 + (uint64_t)(d[1] - '0') * 100 + (uint64_t)(d[2] - '0') * 10 + (uint64_t)(d[3] - '0')) / 100.0;
        }
        if (type == 2 && items < 3)
            number = 1;
    } else {
        uint8_t d[6];
        for (auto& c: d)
            c = Digit("digit");
        char sep = type == 3 ? '.' : ':';
        v = type == 3 ? Text("(01.") : Text("(");
        for (int i = 0; i < 6; ++i) {
            v.push_back(d[i]);
            if (i == 1 || i == 3)
                v.push_back((uint8_t)sep);
            number = number * 10 + (uint64_t)(d[i] - '0');
        }
        v = v + Text(")\r\n");
    }
    auto shape = Shape;
    Reply(b, Sum7, "ET0PE", v);
    b.Read({reg});
    if (type < 3) {
        bool good = Check(b, reg, Sum7, shape, shape == 0 && !number, want, "R1\x02" "ET0PE()");
        if (shape == 0 && number)
            symx_assert(!good, "the reply has no such item");
    } else {
        bool good = Check(b, reg, Sum7, shape, false, 0, "R1\x02" "ET0PE()");
        if (shape == 0) {
            symx_assert(good && reg->GetValue().Get<uint64_t>() == number, "the value is the one in the answer");
            symx_reach("date");
        }
    }
}
HARNESS h_iec_mode_c()
{
    Shape = (int)Pick("shape", 0, 6);
    TIecBench<TIecModeCDevice> b("");
    int type = (int)Pick("format", 0, 2);
    static const RegisterFormat Formats[] = {Double, U32, S32};
    auto reg = b.Add(0, std::make_shared<TStringRegisterAddress>("1.8.0()"), Formats[type], "default");
    uint8_t d[4];
    for (auto& c: d)
        c = Digit("digit");
    bool neg = type != 1 && Pick("negative", 0, 1);
    TBytes v = Text(neg ? "(-" : "(") + TBytes{d[0], d[1], '.', d[2], d[3]} + Text("*kWh)");
    uint64_t whole = (uint64_t)(d[0] - '0') * 10 + (uint64_t)(d[1] - '0');
    double want = (double)(whole * 100 + (uint64_t)(d[2] - '0') * 10 + (uint64_t)(d[3] - '0')) / 100.0;
    if (neg) {
        want = -want;
        whole = 0 - whole;
    }
    auto shape = Shape;
    Reply(b, Xor7, "1.8.0", v);
    b.Read({reg});
    bool good = Check(b, reg, Xor7, shape, shape == 0 && type == 0, want, "R2\x02" "1.8.0()");
    if (shape == 0 && type)
        symx_assert(good && (uint32_t)reg->GetValue().Get<uint64_t>() == (uint32_t)whole, "the value is the one in the answer");
}
// registers of one parameter share its reply within a cycle and only within it
HARNESS h_iec_cache()
{
    TIecBench<TNevaDevice> b("");
    auto r1 = b.Add(8, 0x100700FF, "item_1"), r2 = b.Add(8, 0x100700FF, "item_2"), r3 = b.Add(8, 0x110700FF, "item_1");
    for (int cycle = 0; cycle < 2; ++cycle) {
        uint8_t d[3] = {Digit("digit"), Digit("digit"), Digit("digit")};
        bool fail = Pick("fail", 0, 1);
        unsigned asked = 0;
        b.Port.Answers.clear();
        b.Port.Answer = [&](const TBytes& q) -> TBytes {
            ++asked;
            if (SameBytes(q, Framed(1, Text("R1\x02" "100700FF()"), Xor7)))
                return fail ? TBytes() : Framed(2, Text("100700FF(") + TBytes{d[0], '.', '5', ',', d[1], ')'}, Xor7);
            symx_assert(SameBytes(q, Framed(1, Text("R1\x02" "110700FF()"), Xor7)), "the parameter is requested");
            return Framed(2, Text("110700FF(") + TBytes{d[2], '.', '0', ')'}, Xor7);
        };
        auto range = b.Device->CreateRegisterRange();
        for (auto& r: {r1, r2, r3})
            if (!range->Add(b.Port, r, milliseconds::max())) {
                b.Device->ReadRegisterRange(b.Port, range, false);
                range = b.Device->CreateRegisterRange();
                symx_assert(range->Add(b.Port, r, milliseconds::max()), "a range takes a register");
            }
        b.Device->ReadRegisterRange(b.Port, range, false);
        symx_assert(b.Good(r1) == !fail && b.Good(r2) == !fail && b.Good(r3), "every register has its value");
        if (!fail)
            symx_assert(b.IsDouble(r1, (double)((uint64_t)(d[0] - '0') * 10 + 5) / 10.0) && b.IsDouble(r2, (double)(uint64_t)(d[1] - '0')), "the value is the one in the answer");
        symx_assert(b.IsDouble(r3, (double)((uint64_t)(d[2] - '0') * 10) / 10.0), "the value is the one in the answer");
        symx_reach("done");
    }
}
// registers whose parameters have the same name and different arguments have replies of their own
HARNESS h_iec_arguments()
{
    TIecBench<TEnergomeraIecModeCDevice> b("");
    static const char* Names[] = {"ET0PE(1)", "ET0PE(2)", "ET0PE", "ET0PE()"};
    std::vector<PRegister> regs;
    std::vector<size_t> ids;
    for (size_t i = 0; i < (size_t)symx_param("n", 3); ++i) {
        ids.push_back((size_t)Pick("name", 0, 3));
        regs.push_back(b.Add(0, std::make_shared<TStringRegisterAddress>(Names[ids[i]]), Double, "default"));
    }
    uint8_t d[4];
    for (auto& x: d)
        x = Digit("digit");
    b.Port.Answer = [&](const TBytes& q) -> TBytes {
        for (size_t i = 0; i < 4; ++i)
            if (SameBytes(q, Framed(1, Text("R1\x02") + Text(Names[i]), Sum7)))
                return Framed(2, Text("ET0PE(") + TBytes{d[i], '.', '5', ')', '\r', '\n'}, Sum7);
        symx_assert(false, "the parameter is requested");
        return {};
    };
    // one reading of all of them
    auto range = b.Device->CreateRegisterRange();
    for (auto& r: regs)
        if (!range->Add(b.Port, r, milliseconds::max())) {
            b.Device->ReadRegisterRange(b.Port, range, false);
            range = b.Device->CreateRegisterRange();
            symx_assert(range->Add(b.Port, r, milliseconds::max()), "a range takes a register");
        }
    b.Device->ReadRegisterRange(b.Port, range, false);
    for (size_t i = 0; i < regs.size(); ++i)
        symx_assert(b.Good(regs[i]) && b.IsDouble(regs[i], (double)((uint64_t)(d[ids[i]] - '0') * 10 + 5) / 10.0), "the value is the one in the answer");
    symx_reach("done");
}
