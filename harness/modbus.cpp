// C15 decoding, C16 writes, C17 grouping, C18 setup, C19 error states, C20 modbus_io
#include "modbussim.h"
#include "devices/modbus_device.h"
#include "devices/modbus_io_device.h"
#include "modbus_common.h"
#include "serial_device.h"
#include "symx.h"
using namespace std::chrono;
static TRegisterTypes Types = {{0, "holding", "value", U16}, {1, "input", "value", U16}, {2, "coil", "switch", U8}, {3, "discrete", "switch", U8}, {4, "holding_single", "value", U16}, {5, "holding_multi", "value", U16}};
static PProtocol TestProtocol()
{
    static TUint32SlaveIdProtocol p("modbus", Types);
    return &p;
}
static const char* TypeNames[] = {"holding", "input", "coil", "discrete", "holding_single", "holding_multi"};
struct TBench
{
    std::shared_ptr<TSimServer> Server = std::make_shared<TSimServer>();
    PDeviceConfig Config;
    std::shared_ptr<TModbusDevice> Device;
    TFakePort Port;
    TBench(bool wbContinuous = false)
    {
        Config = std::make_shared<TDeviceConfig>("dev", "17", "modbus");
        Config->MaxReadRegisters = 0;
        Config->FrameTimeout = milliseconds(0);
        TModbusDeviceConfig c;
        c.CommonConfig = Config;
        c.EnableWbContinuousRead = wbContinuous;
        Device = std::make_shared<TModbusDevice>(std::make_unique<TSimTraits>(Server), c, TestProtocol());
    }
    PRegister Add(PRegisterConfig c)
    {
        return Device->AddRegister(c);
    }
    PRegisterRange Read(std::vector<PRegister> regs, bool brk = false)
    {
        auto range = Device->CreateRegisterRange();
        for (auto& r: regs)
            symx_assert(range->Add(Port, r, milliseconds::max()), "the register joins the range");
        Device->ReadRegisterRange(Port, range, brk);
        return range;
    }
};
struct TLayout
{
    int Type;
    RegisterFormat Format;
    unsigned Off, Width;
    bool WordLE, ByteLE;
    unsigned Addr;
};
static PRegisterConfig Make(const TLayout& l)
{
    return TRegisterConfig::Create(l.Type, l.Addr, l.Format, 1, 0, 0, TRegisterConfig::TSporadicMode::DISABLED, l.Type == 1 || l.Type == 3, TypeNames[l.Type],
                                   l.WordLE ? EWordOrder::LittleEndian : EWordOrder::BigEndian, l.ByteLE ? EByteOrder::LittleEndian : EByteOrder::BigEndian, l.Off, l.Width);
}
static unsigned FormatBits(RegisterFormat f)
{
    switch (f) {
        case U8: case S8: case BCD8: case Char8: return 8;
        case U16: case S16: case BCD16: return 16;
        case U24: case S24: case BCD24: return 24;
        case U32: case S32: case BCD32: case Float: return 32;
        default: return 64;
    }
}
static uint64_t Mask(unsigned w)
{
    return w >= 64 ? ~0ull : (1ull << w) - 1;
}
static unsigned FieldBits(const TLayout& l)
{
    return l.Width ? l.Width : FormatBits(l.Format);
}
static unsigned Words(const TLayout& l)
{
    unsigned b = std::max(FormatBits(l.Format), l.Off + FieldBits(l));
    return (b + 15) / 16;
}
static uint16_t Swap(uint16_t v)
{
    return (uint16_t)(v << 8 | v >> 8);
}
// the number the words of a register form, in its word and byte order
static uint64_t Whole(const TLayout& l, const std::vector<uint16_t>& w)
{
    uint64_t v = 0;
    size_t n = w.size();
    for (size_t i = 0; i < n; ++i) {
        uint16_t x = l.WordLE ? w[n - 1 - i] : w[i];
        v = v << 16 | (l.ByteLE ? Swap(x) : x);
    }
    return v;
}
static uint64_t Field(const TLayout& l, const std::vector<uint16_t>& w)
{
    return Whole(l, w) >> l.Off & Mask(FieldBits(l));
}
static const RegisterFormat Formats[] = {U8, S16, U16, U24, S32, U32, Float, BCD16, U64, Double, S8};
static TLayout PickLayout(int types, unsigned addr, bool writable)
{
    static const int ReadTypes[] = {0, 1, 4, 5}, WriteTypes[] = {0, 4, 5};
    TLayout l;
    l.Type = (writable ? WriteTypes : ReadTypes)[Pick("type", 0, types - 1)];
    l.Format = Formats[Pick("format", 0, (uint64_t)symx_param("formats", 10))];
    static const struct
    {
        unsigned Off, Width;
    } Fields[] = {{0, 0}, {0, 1}, {3, 4}, {8, 8}, {12, 8}, {15, 1}, {20, 3}, {0, 16}, {16, 16}, {5, 27}};
    auto f = Fields[Pick("field", 0, (uint64_t)symx_param("fields", 9))];
    l.Off = f.Off;
    l.Width = f.Width;
    l.WordLE = SymBool("word le");
    l.ByteLE = SymBool("byte le");
    l.Addr = addr;
    if (l.Off >= FormatBits(l.Format))
        symx_prune(); // not a valid register
    return l;
}
// ---- C15
HARNESS h_mb_decode()
{
    TBench b;
    TLayout l = PickLayout(4, 40, false);
    unsigned n = Words(l);
    auto reg = b.Add(Make(l));
    unsigned minRead = (unsigned)Pick("min read", 1, 2);
    b.Config->MinReadRegisters = minRead;
    b.Read({reg});
    symx_assert(b.Server->Log.size() == 1, "one request");
    auto& r = b.Server->Log[0];
    symx_assert(r.Slave == 17 && r.Fn == (l.Type == 1 ? 4 : 3) && r.Addr == 40 && r.Count == std::max(n, minRead), "the request covers the words of the register");
    std::vector<uint16_t> w;
    for (unsigned i = 0; i < n; ++i)
        w.push_back(l.Type == 1 ? b.Server->Mem.I(40 + i) : b.Server->Mem.H(40 + i));
    symx_assert(reg->GetErrorState().none(), "the register has no error");
    symx_assert(reg->GetValue() == TRegisterValue(Field(l, w)), "the value is formed from the register's own words and bits in its word and byte order");
    symx_assert(b.Device->GetConnectionState() == TDeviceConnectionState::CONNECTED, "the device is connected");
    symx_reach("done");
    symx_observe("words", n);
}
// two registers of one request, with a gap or overlapping
HARNESS h_mb_decode_two()
{
    TBench b;
    b.Config->MaxRegHole = 3;
    TLayout l[2];
    static const RegisterFormat F[] = {U8, U16, U32};
    int type = (int)Pick("type", 0, 1);
    PRegister regs[2];
    for (int i = 0; i < 2; ++i) {
        l[i] = {type, F[Pick("format", 0, 2)], (unsigned)Pick("off", 0, 1) * 4, 0, SymBool("word le"), SymBool("byte le"), 40 + (i ? (unsigned)Pick("distance", 0, 4) : 0)};
        if (l[i].Off)
            l[i].Width = 5;
        regs[i] = b.Add(Make(l[i]));
        regs[i]->SetAvailable(TRegisterAvailability::AVAILABLE);
    }
    if (l[1].Addr > 40 + Words(l[0]) + 3)
        symx_prune();
    b.Read({regs[0], regs[1]});
    symx_assert(b.Server->Log.size() == 1, "one request for both");
    for (int i = 0; i < 2; ++i) {
        std::vector<uint16_t> w;
        for (unsigned k = 0; k < Words(l[i]); ++k)
            w.push_back(type == 1 ? b.Server->Mem.I(l[i].Addr + k) : b.Server->Mem.H(l[i].Addr + k));
        symx_assert(regs[i]->GetValue() == TRegisterValue(Field(l[i], w)), "every register gets the value of its own words");
    }
    symx_reach("done");
}
HARNESS h_mb_decode_bits()
{
    TBench b;
    b.Config->MaxBitHole = 20;
    int type = (int)Pick("type", 2, 3);
    std::vector<PRegister> regs;
    std::vector<unsigned> addr;
    unsigned a = 100;
    int n = (int)Pick("n", 1, 3);
    for (int i = 0; i < n; ++i) {
        addr.push_back(a);
        regs.push_back(b.Add(Make({type, U8, 0, 0, false, false, a})));
        regs.back()->SetAvailable(TRegisterAvailability::AVAILABLE);
        a += (unsigned)Pick("step", 1, 2) * (unsigned)Pick("far", 1, 9);
    }
    b.Config->MinReadRegisters = (unsigned)Pick("min read", 1, 2);
    b.Read(regs);
    symx_assert(b.Server->Log.size() == 1 && b.Server->Log[0].Fn == (type == 2 ? 1 : 2), "one request");
    for (int i = 0; i < n; ++i)
        symx_assert(regs[i]->GetValue() == TRegisterValue((uint64_t)(type == 2 ? b.Server->Mem.C(addr[i]) : b.Server->Mem.D(addr[i]))), "every register gets its own bit");
    symx_reach("done");
}
HARNESS h_mb_decode_string()
{
    TBench b;
    bool s8 = SymBool("string8"), wle = SymBool("word le"), ble = SymBool("byte le");
    unsigned n = (unsigned)Pick("registers", 1, (uint64_t)symx_param("n", 3));
    TLayout l{(int)Pick("type", 0, 1), s8 ? String8 : String, 0, 8 * n, wle, ble, 40};
    auto reg = b.Add(Make(l));
    bool wb = SymBool("wb device");
    b.Device->SetWbDevice(wb);
    b.Read({reg});
    symx_assert(b.Server->Log.size() == 1 && b.Server->Log[0].Count == n, "the request covers the string");
    std::vector<uint8_t> c;
    bool fe = true;
    for (unsigned i = 0; i < n; ++i) {
        unsigned k = wle ? n - 1 - i : i;
        uint16_t w = l.Type ? b.Server->Mem.I(40 + k) : b.Server->Mem.H(40 + k);
        if (ble)
            w = Swap(w);
        if (s8)
            c.push_back((uint8_t)(w >> 8));
        c.push_back((uint8_t)w);
        fe = fe && (uint8_t)w == 0xFE;
    }
    if (wb && !s8) {
        if (fe) {
            symx_assert(reg->GetErrorState().test(TRegister::TError::ReadError) && !reg->IsSupported() && reg->IsExcludedFromPolling(), "a string of FE bytes means that the firmware does not have it");
            symx_reach("unsupported");
            return;
        }
    }
    std::string want;
    for (uint8_t x: c) {
        if (x == 0 || x == 0xff)
            break;
        want.push_back((char)x);
    }
    symx_assert(reg->GetErrorState().none(), "no error");
    symx_assert(reg->GetValue() == TRegisterValue(want), "the string consists of the characters up to the first terminator");
    symx_reach("done");
    symx_observe("len", want.size());
}
// any response bytes: an answer with too little data sets nothing and is an error
HARNESS h_mb_decode_raw()
{
    TBench b;
    int kind = (int)Pick("kind", 0, 3);
    std::vector<PRegister> regs;
    unsigned count = 0; // registers or bits asked for
    bool bits = kind == 1;
    if (kind == 0) {
        regs.push_back(b.Add(Make({0, U32, 0, 0, false, false, 40})));
        count = 2;
    } else if (kind == 1) {
        for (int i = 0; i < 2; ++i) {
            regs.push_back(b.Add(Make({2, U8, 0, 0, false, false, 40u + 9 * i})));
            regs.back()->SetAvailable(TRegisterAvailability::AVAILABLE);
        }
        b.Config->MaxBitHole = 10;
        count = 10;
    } else if (kind == 2) {
        regs.push_back(b.Add(Make({1, String, 0, 16, false, false, 40})));
        count = 2;
    } else {
        for (int i = 0; i < 2; ++i) {
            regs.push_back(b.Add(Make({0, U16, 0, 0, false, false, 40u + i})));
            regs.back()->SetAvailable(TRegisterAvailability::AVAILABLE);
        }
        count = 2;
    }
    size_t len = (size_t)Pick("len", 0, (uint64_t)symx_param("hi", 7));
    b.Server->RawAnswer = SymBytes("answer", len);
    b.Server->Script = {SIM_RAW};
    auto& a = b.Server->RawAnswer;
    size_t need = bits ? (count + 7) / 8 : 2 * count;
    bool brk = SymBool("break"), thrown = false;
    // a regular answer, possibly followed by extra data bytes
    bool good = false;
    int fn = kind == 1 ? 1 : kind == 2 ? 4 : 3;
    if (len >= 2 + need)
        good = a[0] == fn && a[1] == len - 2;
    bool exact = len == 2 + need;
    try {
        b.Read(regs, brk);
    } catch (const TSerialDeviceException&) {
        thrown = true;
    }
    bool anySet = false, anyErr = false;
    for (auto& r: regs) {
        anySet |= r->GetValue().GetType() != TRegisterValue::ValueType::Undefined;
        anyErr |= r->GetErrorState().test(TRegister::TError::ReadError);
    }
    if (good && exact) {
        symx_assert(anySet && !anyErr && !thrown, "a regular answer sets the registers");
        symx_reach("good");
    } else if (!good) {
        symx_assert(!anySet, "a wrong or short answer sets no register");
        symx_assert(anyErr, "a wrong or short answer is a read error");
        symx_assert(thrown == brk, "the error is reported if asked for");
        symx_reach("bad");
    }
}
// reading a single register outside of the polling (RPC, firmware version)
HARNESS h_mb_read_register()
{
    TBench b;
    int kind = (int)Pick("kind", 0, 3);
    TLayout l = kind == 0 ? TLayout{0, U32, 0, 0, false, false, 40} : kind == 1 ? TLayout{2, U8, 0, 0, false, false, 40} : kind == 2 ? TLayout{0, String, 0, 16, false, false, 40} : TLayout{1, U16, 4, 3, false, false, 40};
    auto cfg = Make(l);
    unsigned n = kind == 1 ? 1 : kind == 2 ? 2 : Words(l);
    bool raw = SymBool("raw");
    if (raw) {
        b.Server->RawAnswer = SymBytes("answer", (size_t)Pick("len", 0, (uint64_t)symx_param("hi", 6)));
        b.Server->Script = {SIM_RAW};
    }
    bool thrown = false;
    TRegisterValue v;
    try {
        TSimTraits t(b.Server);
        v = Modbus::ReadRegister(t, b.Port, 5, *cfg, microseconds(0), milliseconds(100), milliseconds(10));
    } catch (const TSerialDeviceException&) {
        thrown = true;
    } catch (const Modbus::TErrorBase&) {
        thrown = true;
    }
    symx_assert(b.Server->Log.size() == 1 && b.Server->Log[0].Slave == 5 && b.Server->Log[0].Addr == 40 && b.Server->Log[0].Count == n, "one request for the words of the register");
    size_t need = kind == 1 ? 1 : 2 * n;
    if (!raw) {
        symx_assert(!thrown, "a regular answer is accepted");
        if (kind == 1)
            symx_assert(v == TRegisterValue((uint64_t)b.Server->Mem.C(40)), "the bit is returned");
        else if (kind != 2) {
            std::vector<uint16_t> w;
            for (unsigned i = 0; i < n; ++i)
                w.push_back(l.Type ? b.Server->Mem.I(40 + i) : b.Server->Mem.H(40 + i));
            symx_assert(v == TRegisterValue(Field(l, w)), "the value is formed from the register's words");
        }
        symx_reach("good");
        return;
    }
    auto& a = b.Server->RawAnswer;
    bool good = false;
    if (a.size() >= 2 + need)
        good = a[0] == (kind == 1 ? 1 : kind == 3 ? 4 : 3) && a[1] == a.size() - 2;
    if (!good) {
        symx_assert(thrown, "a wrong or short answer is an error");
        symx_reach("bad");
    }
}
// ---- C16
HARNESS h_mb_write()
{
    TBench b;
    TLayout l = PickLayout(3, 40, true);
    unsigned n = Words(l), bits = FieldBits(l);
    auto reg = b.Add(Make(l));
    auto& m = b.Server->Mem;
    b.Read({reg}); // what polling does before a write
    std::vector<uint16_t> before;
    for (unsigned i = 0; i < n; ++i)
        before.push_back(m.H(40 + i));
    m.H(39);
    m.H(40 + n);
    uint16_t lo = m.H(39), hi = m.H(40 + n);
    bool wide = symx_param("wide", 0) != 0;
    uint64_t value = symx_var("value", wide ? std::min(64u, FormatBits(l.Format)) : std::min(bits, 64u));
    b.Server->Log.clear();
    b.Device->WriteRegister(b.Port, reg, TRegisterValue(value));
    std::vector<uint16_t> after;
    for (unsigned i = 0; i < n; ++i)
        after.push_back(m.H(40 + i));
    bool multi = l.Type == 5 || (l.Type == 0 && n > 1);
    symx_assert(b.Server->Log.size() == (multi ? 1 : n), "the register is written by one request, or word by word");
    for (auto& r: b.Server->Log)
        symx_assert(r.Slave == 17 && r.Fn == (multi ? 16 : 6) && r.Addr >= 40 && r.Addr + r.Count <= 40 + n, "only the words of the register are written");
    symx_assert(Field(l, after) == (value & Mask(bits)), "the register's bits hold the value after the write");
    uint64_t keep = ~(Mask(bits) << l.Off);
    if (n < 4)
        keep &= Mask(16 * n);
    if (l.Width || bits > 8) {
        if (bits % 16 && !l.Width)
            keep = 0; // the unused upper part of a register whose format is not a whole number of words
        symx_assert((Whole(l, after) & keep) == (Whole(l, before) & keep), "other bits of the register's words keep the values last read");
    }
    symx_assert(m.H(39) == lo && m.H(40 + n) == hi, "neighbours are not touched");
    // what is read back is what was written
    b.Read({reg});
    symx_assert(reg->GetValue() == TRegisterValue(value & Mask(bits)), "the value read back is the value written");
    symx_reach(multi ? "multi" : "single");
    symx_observe("n", n);
}
// coils, write-only registers with their own write address, strings
HARNESS h_mb_write_misc()
{
    TBench b;
    auto& m = b.Server->Mem;
    int kind = (int)Pick("kind", 0, 3);
    if (kind == 0) {
        auto reg = b.Add(Make({2, U8, 0, 0, false, false, 40}));
        uint64_t v = Sym8("value");
        uint8_t l = m.C(39), h = m.C(41);
        b.Device->WriteRegister(b.Port, reg, TRegisterValue(v));
        symx_assert(b.Server->Log.size() == 1 && b.Server->Log[0].Fn == 5 && b.Server->Log[0].Addr == 40, "a coil is written by one request");
        symx_assert(m.C(40) == (v ? 1 : 0) && m.C(39) == l && m.C(41) == h, "the coil is on for any value but 0");
        symx_reach("coil");
    } else if (kind == 1) { // another address for writing
        bool readable = SymBool("readable");
        TRegisterDesc d;
        if (readable)
            d.Address = std::make_shared<TUint32RegisterAddress>(40);
        d.WriteAddress = std::make_shared<TUint32RegisterAddress>(50);
        RegisterFormat f = SymBool("wide") ? U32 : SymBool("byte") ? U8 : U16;
        auto reg = b.Add(TRegisterConfig::Create(0, d, f, 1, 0, 0, TRegisterConfig::TSporadicMode::DISABLED, false, "holding"));
        uint64_t v = symx_var("value", f == U32 ? 32 : f == U8 ? 8 : 16);
        b.Device->WriteRegister(b.Port, reg, TRegisterValue(v));
        symx_assert(b.Server->Log.size() == 1 && b.Server->Log[0].Addr == 50, "the write address is used");
        symx_assert(f == U32 ? (uint64_t)(m.H(50) * 65536ull + m.H(51)) == v : m.H(50) == v, "the value is written");
        symx_reach("write address");
    } else if (kind == 2) {
        bool s8 = SymBool("string8"), wle = SymBool("word le"), ble = SymBool("byte le");
        unsigned n = (unsigned)Pick("registers", 1, 3);
        auto reg = b.Add(Make({0, s8 ? String8 : String, 0, 8 * n, wle, ble, 40}));
        size_t len = (size_t)Pick("len", 1, s8 ? 2 * n : n);
        std::string text;
        for (size_t i = 0; i < len; ++i) {
            text.push_back((char)Sym8("char"));
            symx_assume(text.back() != 0 && text.back() != (char)0xff);
        }
        if (n == 1)
            return; // a one word string is not a multiple write; not used by templates
        uint16_t end = m.H(40 + n);
        b.Device->WriteRegister(b.Port, reg, TRegisterValue(text));
        symx_assert(m.H(40 + n) == end, "nothing is written behind the string");
        for (auto& r: b.Server->Log)
            symx_assert(r.Addr >= 40 && r.Addr + r.Count <= 40 + n, "only the words of the string are written");
        if (!wle || (s8 ? (len + 1) / 2 : len) == n) {
            unsigned words = s8 ? (unsigned)(len + 1) / 2 : (unsigned)len;
            for (unsigned i = 0; i < words; ++i) {
                uint16_t w = m.H(40 + (wle ? n - 1 - i : i));
                if (ble)
                    w = Swap(w);
                if (s8) {
                    symx_assert((uint8_t)(w >> 8) == (uint8_t)text[2 * i], "every character is in its place");
                    symx_assert((uint8_t)w == (2 * i + 1 < len ? (uint8_t)text[2 * i + 1] : 0), "every second character is in its place");
                } else
                    symx_assert((uint8_t)w == (uint8_t)text[i], "every character is in its place");
            }
        }
        symx_reach("string");
    } else { // read only types
        auto reg = b.Add(Make({SymBool("discrete") ? 3 : 1, U16, 0, 0, false, false, 40}));
        bool thrown = false;
        try {
            b.Device->WriteRegister(b.Port, reg, TRegisterValue(1));
        } catch (const TSerialDeviceException&) {
            thrown = true;
        }
        symx_assert(thrown && b.Server->Log.empty(), "read only registers are not written");
        symx_reach("read only");
    }
}
// several fields of one word written one after another, between polls and after failed writes
HARNESS h_mb_write_fields()
{
    TBench b;
    auto& m = b.Server->Mem;
    static const struct
    {
        unsigned Off, Width;
    } F[] = {{0, 4}, {4, 4}, {8, 8}, {0, 0}};
    int type = Pick("type", 0, 2) == 0 ? 0 : Pick("multi", 4, 5);
    bool ble = SymBool("byte le");
    PRegister regs[4];
    TLayout l[4];
    for (int i = 0; i < 4; ++i) {
        l[i] = {type, U16, F[i].Off, F[i].Width, false, ble, 40};
        regs[i] = b.Add(Make(l[i]));
    }
    b.Read({regs[0]});
    uint16_t model = ble ? Swap(m.H(40)) : m.H(40);
    int n = (int)symx_param("steps", 3);
    for (int i = 0; i < n; ++i) {
        int k = (int)Pick("field", 0, 3);
        bool fail = SymBool("fails");
        b.Server->Log.clear();
        b.Server->Script = {fail ? SIM_TIMEOUT : SIM_OK};
        uint64_t v = symx_var("value", F[k].Width ? F[k].Width : 16);
        try {
            b.Device->WriteRegister(b.Port, regs[k], TRegisterValue(v));
            symx_assert(!fail, "a failed write is reported");
        } catch (const TSerialDeviceException&) {
            symx_assert(fail, "a write the device accepted succeeds");
        }
        if (!fail) {
            uint16_t mask = (uint16_t)(Mask(F[k].Width ? F[k].Width : 16) << F[k].Off);
            model = (uint16_t)((model & ~mask) | (uint16_t)(v << F[k].Off));
        }
        uint16_t now = ble ? Swap(m.H(40)) : m.H(40);
        symx_assert(now == model, "every write changes its own bits and keeps what earlier writes put into the others");
    }
    symx_reach("done");
}

// ---- C17
class TZeroTimePort: public TFakePort
{
public:
    std::chrono::microseconds GetSendTimeBytes(double) const override
    {
        return std::chrono::microseconds(0);
    }
};
struct TRange
{
    std::shared_ptr<Modbus::TModbusRegisterRange> Range;
    std::vector<int> Regs;
};
// what the poller does: every register in turn joins the current range or starts the next one
static std::vector<TRange> Group(TBench& b, TPort& port, const std::vector<PRegister>& regs, milliseconds limit)
{
    std::vector<TRange> res;
    for (size_t i = 0; i < regs.size(); ++i) {
        if (res.empty() || !res.back().Range->Add(port, regs[i], limit)) {
            res.push_back({std::dynamic_pointer_cast<Modbus::TModbusRegisterRange>(b.Device->CreateRegisterRange()), {}});
            symx_assert(res.back().Range->Add(port, regs[i], limit), "the first register always joins an empty range");
        }
        if (regs[i]->GetAvailable() != TRegisterAvailability::UNAVAILABLE)
            res.back().Regs.push_back((int)i);
    }
    return res;
}
HARNESS h_mb_group()
{
    bool continuous = symx_param("continuous", 0) != 0;
    TBench b(continuous);
    TZeroTimePort port;
    if (continuous) {
        b.Device->Prepare(port);
        symx_assert(b.Device->GetContinuousReadEnabled(), "continuous reading is on");
    }
    int n = (int)symx_param("n", 3);
    bool bits = SymBool("bits");
    bool oneType = n > 2;
    bool sortedTypes = SymBool("second type") && !oneType;
    unsigned maxRead = (unsigned)symx_var("max read", 16), hole = (unsigned)symx_var("hole", 12);
    b.Config->MaxReadRegisters = (int)maxRead;
    b.Config->MaxRegHole = bits ? 0 : (int)hole;
    b.Config->MaxBitHole = bits ? (int)hole : 0;
    bool holes = SymBool("supports holes");
    b.Device->SetSupportsHoles(holes);
    struct TReg
    {
        unsigned Addr, Width;
        int Type;
        bool Unknown, Dead;
    };
    std::vector<TReg> r;
    std::vector<PRegister> regs;
    for (int i = 0; i < n; ++i) {
        unsigned addr = (unsigned)symx_var("addr", 16), width = bits ? 1 : 1u << 2 * Pick("width", 0, 1);
        symx_assume(addr + width <= 65536);
        int type = bits ? 2 : 0;
        if (sortedTypes && i)
            ++type;
        uint64_t avail = symx_param("avail", 0) ? 1 : Pick("available", 0, 2);
        r.push_back({addr, width, type, avail == 0, avail == 2});
        auto reg = std::make_shared<TRegister>(b.Device, Make({type, bits ? U8 : width == 4 ? U64 : U16, 0, 0, false, false, addr}));
        if (avail)
            reg->SetAvailable(avail == 1 ? TRegisterAvailability::AVAILABLE : TRegisterAvailability::UNAVAILABLE);
        regs.push_back(reg);
    }
    auto ranges = Group(b, port, regs, milliseconds::max());
    unsigned protocol = bits ? 2000 : 125, limit = maxRead > 0 && maxRead <= protocol ? maxRead : protocol;
    size_t live = 0, found = 0;
    for (auto& x: r)
        live += !x.Dead;
    for (auto& g: ranges) {
        symx_assert(g.Regs.size() == g.Range->RegisterList().size(), "a range has the registers that joined it and no unavailable ones");
        if (g.Regs.empty())
            continue;
        found += g.Regs.size();
        unsigned start = r[g.Regs[0]].Addr, end = start, count = (unsigned)g.Range->GetCount();
        symx_assert(g.Range->GetStart() == start, "the range starts with its first register");
        bool anyHole = false;
        auto it = g.Range->RegisterList().begin();
        for (size_t k = 0; k < g.Regs.size(); ++k, ++it) {
            auto& x = r[g.Regs[k]];
            symx_assert(*it == regs[g.Regs[k]], "registers keep their order");
            symx_assert(x.Type == r[g.Regs[0]].Type, "registers of one request have one type");
            symx_assert(x.Addr >= start && x.Addr + x.Width <= start + count, "the request covers every register of the group");
            if (x.Addr > end && k) {
                anyHole = true;
                symx_assert(holes && x.Addr - end <= (continuous ? std::max(hole, bits ? 80u : 10u) : hole), "a hole is not larger than allowed");
                if (!continuous)
                    symx_assert(!x.Unknown, "a register whose availability is unknown is not read with a hole");
            }
            if (k && !continuous) {
                if (!bits)
                    symx_assert(!x.Unknown && !r[g.Regs[0]].Unknown, "words of unknown availability are read alone");
                else if (x.Unknown)
                    symx_assert(r[g.Regs[0]].Unknown, "bits of unknown availability are not read together with known ones");
            }
            end = std::max(end, x.Addr + x.Width);
        }
        symx_assert(end == start + count, "the request ends with the last register");
        symx_assert(g.Range->HasHoles() == anyHole, "holes are remembered");
        symx_assert(count <= std::max(limit, r[g.Regs[0]].Width), "the request is within the limits");
        if (g.Regs.size() > 1)
            symx_reach(anyHole ? "holes" : "together");
    }
    symx_assert(found == live, "no register is lost");
    symx_reach("done");
    symx_observe("ranges", ranges.size());
}
// bits whose availability is not known yet: at most 16 or "max read registers" of them are asked for at once
HARNESS h_mb_group_unknown()
{
    TBench b;
    TZeroTimePort port;
    int n = (int)symx_param("n", 5);
    unsigned maxRead = (unsigned)Pick("max read", 0, symx_param("max", 3));
    b.Config->MaxReadRegisters = (int)maxRead;
    b.Config->MaxBitHole = 30;
    std::vector<PRegister> regs;
    for (int i = 0; i < n; ++i) {
        regs.push_back(b.Add(Make({2, U8, 0, 0, false, false, 100u + i})));
        if (n < 10 && SymBool("known"))
            regs.back()->SetAvailable(TRegisterAvailability::AVAILABLE);
    }
    auto ranges = Group(b, port, regs, milliseconds::max());
    size_t found = 0, limit = maxRead ? maxRead : 16;
    for (auto& g: ranges) {
        found += g.Regs.size();
        size_t unknown = 0;
        for (int i: g.Regs)
            unknown += regs[i]->GetAvailable() == TRegisterAvailability::UNKNOWN;
        for (int i: g.Regs)
            symx_assert(regs[i]->GetAvailable() != TRegisterAvailability::UNKNOWN ||
                            regs[g.Regs[0]]->GetAvailable() == TRegisterAvailability::UNKNOWN,
                        "unknown bits do not join known ones");
        symx_assert(unknown <= limit, "at most 16 bits of unknown availability are read at once, fewer if the device takes fewer");
        if (unknown == limit)
            symx_reach("full");
        for (size_t k = 1; k < g.Regs.size(); ++k)
            symx_assert(g.Regs[k] == g.Regs[k - 1] + 1, "in their order");
    }
    symx_assert(found == (size_t)n, "no register is lost");
    symx_reach("done");
}
// the time limit, with concrete addresses
HARNESS h_mb_group_time()
{
    TBench b;
    int n = (int)symx_param("n", 3);
    bool bits = SymBool("bits");
    b.Config->RequestDelay = milliseconds(Pick("delay", 0, 1) * 20);
    bool force = SymBool("frame timeout matters");
    if (force) {
        TModbusDeviceConfig c;
        c.CommonConfig = b.Config;
        c.EnableWbContinuousRead = false;
        b.Config->FrameTimeout = milliseconds(15);
        b.Device = std::make_shared<TModbusDevice>(std::make_unique<TSimTraits>(b.Server, true), c, TestProtocol());
    }
    std::vector<PRegister> regs;
    std::vector<std::pair<unsigned, unsigned>> r;
    unsigned a = 10;
    for (int i = 0; i < n; ++i) {
        unsigned w = bits ? 1 : 1u << 2 * Pick("width", 0, 1);
        r.push_back({a, w});
        regs.push_back(b.Add(Make({bits ? 2 : 0, bits ? U8 : w == 4 ? U64 : U16, 0, 0, false, false, a})));
        regs.back()->SetAvailable(TRegisterAvailability::AVAILABLE);
        a += w + (bits ? (unsigned)Pick("far", 0, 1) * 14 : 0);
    }
    b.Config->MaxBitHole = 20;
    static const int Limits[] = {14, 17, 18, 19, 20, 21, 23, 25, 37, 40, 57, 60};
    milliseconds limit(Limits[Pick("limit", 0, 11)]);
    auto time = [&](unsigned count) { // ms, 10 bits of 0.1 ms per byte
        unsigned bytes = 8 + 5 + 2 + (bits ? (count + 7) / 8 : 2 * count);
        return milliseconds(bytes) + duration_cast<milliseconds>(b.Config->RequestDelay) + milliseconds(force ? 15 : 0);
    };
    auto range = std::dynamic_pointer_cast<Modbus::TModbusRegisterRange>(b.Device->CreateRegisterRange());
    bool full = false;
    size_t count = 0;
    for (int i = 0; i < n && !full; ++i) {
        bool ok = range->Add(b.Port, regs[i], limit);
        unsigned c = r[i].first + r[i].second - 10;
        if (ok) {
            ++count;
            if (!bits || count == 1)
                symx_assert(time(c) <= limit, "the request takes no more than the limit");
        } else {
            full = true;
            symx_assert(time(c) > limit, "a register that fits is taken");
            symx_reach("full");
        }
    }
    symx_assert(range->RegisterList().size() == count, "the range has the registers it took");
    if (count)
        symx_reach("some");
}
// ---- C19
HARNESS h_mb_errors()
{
    TBench b;
    b.Config->MaxRegHole = 2;
    b.Config->DeviceTimeout = milliseconds(-1); // stays connected
    bool lose = symx_param("lose", 0), connected = true;
    int fails = 0;
    if (lose) {
        b.Config->DeviceTimeout = milliseconds(0);
        b.Config->DeviceMaxFailCycles = (int)Pick("max fail cycles", 1, 2);
        b.Device->SetTransferResult(true);
    }
    bool brk = SymBool("break");
    int outcomes = (int)symx_param("outcomes", 5);
    bool cont = SymBool("continue polling");
    b.Config->ContinuePollingOnIllegalModbusException = cont;
    int n = (int)symx_param("n", 2), steps = (int)symx_param("steps", 2);
    bool allKnown = symx_param("known", 0);
    std::vector<unsigned> addr{40};
    for (int i = 1; i < n; ++i)
        addr.push_back(addr[i - 1] + 1 + (i == 1 || symx_param("mixed", 0) ? (unsigned)Pick("gap", 0, 1) : addr[1] - 41));
    std::vector<PRegister> regs;
    struct TModel
    {
        TRegisterAvailability Avail = TRegisterAvailability::UNKNOWN;
        bool Error = false, HasValue = false;
        uint64_t Value = 0;
    };
    std::vector<TModel> model(n);
    bool holes = true;
    for (int i = 0; i < n; ++i) {
        regs.push_back(b.Add(Make({0, U16, 0, 0, false, false, addr[i]})));
        if (allKnown || SymBool("known")) {
            regs[i]->SetAvailable(TRegisterAvailability::AVAILABLE);
            model[i].Avail = TRegisterAvailability::AVAILABLE;
        }
    }
    for (int s = 0; s < steps; ++s) {
        auto ranges = Group(b, b.Port, regs, milliseconds::max());
        for (auto& g: ranges) {
            b.Server->Log.clear();
            static const int Outcomes[] = {SIM_OK, SIM_EXCEPTION, SIM_TIMEOUT, SIM_MALFORMED, SIM_RAW, SIM_IO_ERROR};
            static const uint8_t Codes[] = {2, 3, 4, 11};
            bool empty = g.Regs.empty();
            int outcome = empty ? (int)SIM_OK : Outcomes[Pick("outcome", 0, (uint64_t)outcomes)];
            b.Server->Decide = [&](const TSimRequest&) { return outcome; };
            if (outcome == SIM_EXCEPTION)
                b.Server->ExceptionCode = outcomes > 2 ? Sym8("code") : Codes[Pick("code", 0, (uint64_t)symx_param("codes", 3))];
            if (outcome == SIM_RAW)
                b.Server->RawAnswer = {6, 0, 40, 0, 1};
            bool thrown = false;
            symx_clock_ns += 1000000;
            try {
                b.Device->ReadRegisterRange(b.Port, g.Range, brk);
            } catch (const TSerialDeviceException&) {
                thrown = true;
            }
            symx_assert(b.Server->Log.size() == (empty ? 0 : 1), "one request per range");
            symx_assert(thrown == (brk && outcome != SIM_OK && !empty), "an error is passed on if asked for");
            if (empty)
                continue;
            bool illegal = outcome == SIM_EXCEPTION && b.Server->ExceptionCode >= 1 && b.Server->ExceptionCode <= 3;
            bool gotHoles = !g.Regs.empty() && addr[g.Regs.back()] - addr[g.Regs[0]] >= g.Regs.size();
            if (illegal && gotHoles)
                holes = false;
            if (lose) {
                fails = outcome == SIM_OK ? 0 : fails + 1;
                if (outcome == SIM_OK)
                    connected = true;
                else if (connected && fails >= b.Config->DeviceMaxFailCycles) {
                    connected = false;
                    holes = true; // tried again after reconnection
                    symx_reach("lost");
                }
                symx_assert((b.Device->GetConnectionState() == TDeviceConnectionState::CONNECTED) == connected, "every failed reading, and nothing else, brings the loss of the device nearer");
            }
            for (int i: g.Regs) {
                model[i].Error = outcome != SIM_OK;
                if (outcome == SIM_OK) {
                    model[i].HasValue = true;
                    model[i].Value = b.Server->Mem.H(addr[i]);
                    model[i].Avail = TRegisterAvailability::AVAILABLE;
                } else if (illegal && !gotHoles && !cont)
                    model[i].Avail = TRegisterAvailability::UNAVAILABLE;
            }
            symx_reach(outcome == SIM_OK ? "ok" : illegal ? (gotHoles ? "holes off" : "excluded") : "transient");
            if (outcome == SIM_OK)
                symx_assert(b.Device->GetConnectionState() == TDeviceConnectionState::CONNECTED, "a regular answer connects the device");
        }
        symx_assert(b.Device->GetSupportsHoles() == holes, "reading with holes is switched off by an exception for a range with holes");
        for (int i = 0; i < n; ++i) {
            symx_assert(regs[i]->GetErrorState().test(TRegister::TError::ReadError) == model[i].Error, "a failed read is an error of every register in it");
            symx_assert(regs[i]->GetAvailable() == model[i].Avail, "the register is available, unknown or unavailable as documented");
            symx_assert((regs[i]->GetValue().GetType() != TRegisterValue::ValueType::Undefined) == model[i].HasValue, "a failed read delivers no value");
            if (model[i].HasValue)
                symx_assert(regs[i]->GetValue() == TRegisterValue(model[i].Value), "the register holds the last value read");
        }
        b.Server->Mem.Holding.clear(); // the values change
    }
    symx_reach("done");
}
// connection: setup is written, firmware version is read, registers of newer firmwares are not polled
HARNESS h_mb_prepare()
{
    TBench b(true);
    b.Device->SetWbDevice(true);
    static const char* Need[] = {"", "1.2.0", "1.10.0"};
    PRegister regs[3];
    for (int i = 0; i < 3; ++i) {
        auto c = Make({0, U16, 0, 0, false, false, 40u + i});
        c->FwVersion = Need[i];
        regs[i] = b.Add(c);
    }
    static const char* Versions[] = {"1.1.9", "1.2.0", "2.0.0"};
    int v = 0;
    bool cont = false, cTimeout = false, prepared = false, wasCont = false;
    b.Server->Decide = [&](const TSimRequest& r) {
        b.Server->ExceptionCode = 2;
        if (r.Fn == 6)
            return cont ? SIM_OK : cTimeout ? SIM_TIMEOUT : SIM_EXCEPTION;
        return v == 4 ? SIM_TIMEOUT : v == 3 ? SIM_EXCEPTION : SIM_OK;
    };
    int hole = b.Config->MaxRegHole = (int)Pick("hole", 0, 1) * 30;
    for (int round = 0; round < (int)symx_param("rounds", 1); ++round) {
        if (round) {
            if (SymBool("stays connected")) {
                b.Device->SetTransferResult(true);
                b.Server->Log.clear();
                b.Device->Prepare(b.Port);
                symx_assert(b.Server->Log.empty(), "a connected device is not prepared again");
                symx_reach("connected");
                return;
            }
            b.Device->SetDisconnected();
            b.Server->Log.clear();
        }
        v = (int)Pick("version", 0, 4); // old, exact, new, missing, no answer
        cont = SymBool("continuous read");
        cTimeout = SymBool("timeout");
        for (unsigned i = 0; i < 16; ++i) {
            std::string t = v < 3 ? Versions[v] : "";
            b.Server->Mem.Holding[250 + i] = i < t.size() ? (uint16_t)t[i] : 0;
        }
        bool thrown = false;
        try {
            b.Device->Prepare(b.Port);
        } catch (const TSerialDeviceException&) {
            thrown = true;
        }
        bool silent = !cont && cTimeout;
        symx_assert(thrown == silent, "a device that does not answer is not prepared");
        if (silent) {
            symx_assert(b.Device->GetConnectionState() != TDeviceConnectionState::CONNECTED, "a device that does not answer is not connected");
            symx_reach("silent");
            return;
        }
        symx_assert(b.Device->GetContinuousReadEnabled() == cont, "continuous reading is on if the device accepts it");
        wasCont = wasCont || cont;
        symx_assert(b.Config->MaxRegHole == (wasCont ? std::max(hole, 10) : hole), "continuous reading allows larger holes");
        bool known = v < 3;
        symx_assert(b.Device->GetWbFwVersion() == (known ? Versions[v] : ""), "the firmware version is what the device reported");
        static const bool Supported[3][3] = {{true, false, false}, {true, true, false}, {true, true, true}};
        for (int i = 0; known && i < 3; ++i) {
            bool want = Supported[v][i];
            symx_assert(regs[i]->IsSupported() == want, "registers of newer firmwares are not supported");
            symx_assert(regs[i]->IsExcludedFromPolling() == !want, "unsupported registers are not polled");
            symx_assert(regs[i]->GetErrorState().test(TRegister::TError::ReadError) == !want, "unsupported registers have an error");
        }
        for (int i = 0; !known && !round && i < 3; ++i)
            symx_assert(regs[i]->IsSupported() && !regs[i]->IsExcludedFromPolling() && !regs[i]->GetErrorState().count(), "registers of a device of unknown firmware are polled");
        symx_reach(known ? (round ? "updated" : "known") : "unknown");
    }
}
// the local time of the controller, for the devices that keep a clock without a time zone
extern "C" int64_t symx_sysclock_ns;
static int64_t TzOffset = 0;
static int64_t DaysFromCivil(int64_t y, int64_t m, int64_t d)
{
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
extern "C" struct tm* localtime_r(const time_t* t, struct tm* r) noexcept
{
    int64_t s = *t + TzOffset, z = s / 86400 + 719468, era = z / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    int64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, m = mp < 10 ? mp + 3 : mp - 9;
    *r = {};
    r->tm_mday = (int)(doy - (153 * mp + 2) / 5 + 1);
    r->tm_mon = (int)m - 1;
    r->tm_year = (int)(yoe + era * 400 + (m <= 2) - 1900);
    r->tm_hour = (int)(s % 86400 / 3600);
    r->tm_min = (int)(s % 3600 / 60);
    r->tm_sec = (int)(s % 60);
    r->tm_gmtoff = TzOffset;
    return r;
}
extern "C" time_t timegm(struct tm* t) noexcept
{
    return DaysFromCivil(t->tm_year + 1900, t->tm_mon + 1, t->tm_mday) * 86400 + t->tm_hour * 3600 + t->tm_min * 60 + t->tm_sec;
}
HARNESS h_mb_clock()
{
    TBench b;
    b.Device->SetWbDevice(true);
    bool type = SymBool("keeps a clock");
    b.Config->DeviceType = type ? "WB-MWAC-v2 ver2" : "WB-MWAC-v2";
    static const char* Versions[] = {"1.24.0", "1.30.1", "1.23.9", "1.3.0"};
    int v = (int)Pick("version", 0, 3);
    static const int Offsets[] = {0, 10800, -12600};
    TzOffset = Offsets[Pick("time zone", 0, 2)];
    for (unsigned i = 0; i < 16; ++i) {
        std::string t = Versions[v];
        b.Server->Mem.Holding[250 + i] = i < t.size() ? (uint16_t)t[i] : 0;
    }
    int outcome = SIM_OK;
    b.Server->Decide = [&](const TSimRequest& r) {
        b.Server->ExceptionCode = 4;
        return r.Fn == 16 ? outcome : (int)SIM_OK;
    };
    static const int64_t Hours[] = {0, 23, 24, 25, 26, 30};
    int64_t last = -1;
    for (int round = 0; round < (int)symx_param("rounds", 3); ++round) {
        if (round) {
            symx_sysclock_ns += (Hours[Pick("hours", 0, 5)] * 3600 + 7) * 1000000000;
            b.Device->SetDisconnected();
        }
        static const int Outcomes[] = {SIM_OK, SIM_EXCEPTION, SIM_TIMEOUT};
        outcome = Outcomes[Pick("outcome", 0, 2)];
        b.Server->Log.clear();
        b.Device->Prepare(b.Port);
        int writes = 0;
        for (auto& r: b.Server->Log)
            if (r.Fn != 3) {
                ++writes;
                symx_assert(r.Fn == 16 && r.Addr == 452 && r.Count == 4, "nothing but the clock is set");
            }
        int64_t now = symx_sysclock_ns / 1000000000;
        bool can = type && v < 2;
        symx_assert(writes <= 1 && (can || !writes), "the clock is set once and only in devices that keep it");
        if (!can) {
            symx_reach("no clock");
            continue;
        }
        symx_assert(writes || (last >= 0 && now - last < 25 * 3600), "the clock is set after a day");
        symx_assert(!writes || last < 0 || now - last > 24 * 3600, "the clock is not set twice a day");
        if (writes && outcome == SIM_OK) {
            uint64_t got = 0;
            for (unsigned i = 0; i < 4; ++i)
                got = got << 16 | b.Server->Mem.H(452 + i);
            symx_assert(got == (uint64_t)(now + TzOffset), "the clock shows the local time");
            last = now;
            symx_reach(round ? "again" : "first");
        } else
            symx_reach(writes ? "failed" : "fresh");
    }
}
// ---- C20
HARNESS h_mb_io()
{
    static const struct
    {
        const char* Text;
        int Slave, Secondary;
        bool Bad;
    } Ids[] = {{"17:1", 17, 1, false}, {"17:2", 17, 2, false}, {"17:4", 17, 4, false}, {"0x11:5", 17, 5, false}, {"17:8", 17, 8, false}, {"200:3", 200, 3, false},
               {"17:x", 0, 0, true},   {"17:", 0, 0, true},    {"x:1", 0, 0, true},    {"", 0, 0, true}};
    auto& id = Ids[Pick("id", 0, 9)];
    auto cfg = std::make_shared<TDeviceConfig>("dev", id.Text, "modbus_io");
    unsigned stride = (unsigned)Pick("stride", 0, 2) * 500, shift = (unsigned)Pick("shift", 0, 1) * 70;
    cfg->Stride = (int)stride;
    cfg->Shift = (int)shift;
    cfg->MaxReadRegisters = 0;
    TModbusDeviceConfig c;
    c.CommonConfig = cfg;
    c.EnableWbContinuousRead = false;
    auto server = std::make_shared<TSimServer>();
    std::shared_ptr<TModbusIODevice> dev;
    try {
        dev = std::make_shared<TModbusIODevice>(std::make_unique<TSimTraits>(server), c, TestProtocol());
    } catch (const TSerialDeviceException&) {
        symx_assert(id.Bad, "a regular id is accepted");
        symx_reach("rejected");
        return;
    }
    symx_assert(!id.Bad, "an id that is not made of numbers is rejected");
    unsigned base = ((id.Secondary - 1) % 4 + 1) * stride + shift;
    TFakePort port;
    int type = (int)Pick("type", 0, 3);
    TLayout l{type, type >= 2 ? U8 : U32, 0, 0, false, false, 20};
    auto reg = dev->AddRegister(Make(l));
    auto range = dev->CreateRegisterRange();
    range->Add(port, reg, milliseconds::max());
    dev->ReadRegisterRange(port, range, true);
    auto& m = server->Mem;
    uint64_t want = type == 0 ? m.H(base + 20) * 65536ull + m.H(base + 21) : type == 1 ? m.I(base + 20) * 65536ull + m.I(base + 21) : type == 2 ? m.C(base + 20) : m.D(base + 20);
    symx_assert(reg->GetValue() == TRegisterValue(want), "a register of the block is read from the block");
    if (type == 0 || type == 2) {
        uint64_t v = type == 0 ? Sym32("value") : symx_var("bit value", 1);
        dev->WriteRegister(port, reg, TRegisterValue(v));
        symx_assert((type == 0 ? m.H(base + 20) * 65536ull + m.H(base + 21) : m.C(base + 20)) == v, "a register of the block is written to the block");
    }
    // setup: a whole register, a part of a register, a coil
    for (unsigned i = 0; i < 3; ++i) {
        auto rc = Make({i == 2 ? 2 : 0, i == 2 ? U8 : U16, i == 1 ? 4u : 0u, i == 1 ? 4u : 0u, false, false, 30 + i});
        dev->AddSetupItem(std::make_shared<TDeviceSetupItemConfig>("s" + std::to_string(i), rc, i == 2 ? "1" : "9"));
    }
    uint16_t part = m.H(base + 31);
    dev->WriteSetupRegisters(port, dev->GetSetupItems(), true);
    symx_assert(m.H(base + 30) == 9 && m.C(base + 32) == 1, "setup registers of the block are written to the block");
    symx_assert(m.H(base + 31) == ((part & 0xff0f) | 0x90), "a part of a setup register of the block is merged with the block's own bits");
    for (auto& r: server->Log)
        symx_assert(r.Slave == id.Slave && r.Addr >= base + 20 && r.Addr <= base + 32, "no other block or slave is touched");
    symx_reach("done");
}
// ---- C18
HARNESS h_mb_setup()
{
    TBench b;
    auto& m = b.Server->Mem;
    int n = (int)symx_param("items", 3), kinds = (int)symx_param("kinds", 5);
    bool failures = symx_param("failures", 0) != 0;
    bool preserve = SymBool("preserve order"), brk = failures && SymBool("break");
    b.Config->PreserveSetupOrder = preserve;
    unsigned maxWrite = (unsigned)Pick("max write", failures ? 1 : 0, failures ? 2 : 3);
    b.Config->MaxWriteRegisters = (int)maxWrite;
    b.Config->MaxRegHole = 1;
    static const struct
    {
        int Type;
        RegisterFormat Format;
        unsigned Off, Width;
    } Kinds[] = {{0, U16, 0, 0}, {0, U16, 4, 4}, {0, U32, 0, 0}, {4, U16, 0, 0}, {2, U8, 0, 0}, {5, U16, 0, 0}, {0, U32, 12, 8}};
    TDeviceSetupItems items;
    std::vector<std::pair<TLayout, uint64_t>> order;
    unsigned addrs = (unsigned)symx_param("addrs", 2);
    for (int i = 0; i < n; ++i) {
        auto& k = Kinds[Pick("kind", 0, kinds)];
        TLayout l{k.Type, k.Format, k.Off, k.Width, false, false, 10 + (unsigned)Pick("addr", 0, addrs)};
        // several items for the same bits are used once (C39)
        for (auto& x: order)
            if (x.first.Type == l.Type && x.first.Addr == l.Addr && x.first.Off == l.Off)
                symx_prune();
        auto item = std::make_shared<TDeviceSetupItem>(std::make_shared<TDeviceSetupItemConfig>("s" + std::to_string(i), Make(l), "1"), b.Device);
        item->Order = i;
        uint64_t v = symx_var("value", k.Type == 2 ? 1 : FieldBits(l));
        item->RawValue = TRegisterValue(v);
        items.insert(item);
        order.emplace_back(l, v);
    }
    if (!preserve)
        std::stable_sort(order.begin(), order.end(), [](const auto& a, const auto& c) {
            return std::make_tuple(a.first.Type, a.first.Addr, a.first.Off) < std::make_tuple(c.first.Type, c.first.Addr, c.first.Off);
        });
    symx_assert(items.size() == order.size(), "all items are there");
    for (unsigned a = 9; a < 16; ++a) {
        m.H(a);
        m.C(a);
    }
    auto model = m.Holding;
    auto coils = m.Coil;
    bool partial = false;
    for (auto& x: order)
        partial |= x.first.Width != 0;
    bool readFails = failures && partial && SymBool("read fails");
    int fail = failures && !readFails ? (int)Pick("failing write", 0, n - 1) : n, how = fail < n ? (int)Pick("failure", 0, 2) : 0;
    int writes = 0;
    b.Server->ExceptionCode = how ? 4 : 2;
    b.Server->Decide = [&](const TSimRequest& r) {
        if (r.Fn <= 4)
            return readFails ? (int)SIM_TIMEOUT : (int)SIM_OK;
        return writes++ == fail ? (how == 2 ? (int)SIM_TIMEOUT : (int)SIM_EXCEPTION) : (int)SIM_OK;
    };
    bool thrown = false;
    try {
        b.Device->WriteSetupRegisters(b.Port, items, brk);
    } catch (const TSerialDeviceException&) {
        thrown = true;
    }
    bool anyRead = false, anyWrite = false, stop = false;
    size_t k = 0;
    for (auto& r: b.Server->Log) {
        if (r.Fn <= 4) {
            symx_assert(!anyWrite, "words of partial items are read before anything is written");
            anyRead = true;
            continue;
        }
        anyWrite = true;
        symx_assert(!stop, "nothing is written after a failure that ends the setup");
        symx_assert(k < order.size(), "nothing is written twice");
        auto& first = order[k].first;
        unsigned words = 0, count = 0;
        std::vector<uint8_t> data;
        while (k < order.size() && words < r.Count) {
            auto& l = order[k].first;
            unsigned w = l.Type == 2 ? 1 : Words(l);
            if (count) {
                symx_assert(first.Type == 0 && l.Type == 0 && !first.Width && !l.Width, "only whole holding registers are written together");
                symx_assert(l.Addr == first.Addr + words, "only adjacent registers are written together");
            }
            uint64_t v = order[k].second;
            if (l.Type == 2) {
                data = {(uint8_t)(v ? 0xff : 0), 0};
            } else {
                uint64_t whole = 0;
                for (unsigned i = 0; i < w; ++i)
                    whole = whole << 16 | model[l.Addr + i];
                uint64_t mask = Mask(FieldBits(l)) << l.Off;
                whole = (whole & ~mask) | (v << l.Off & mask);
                for (unsigned i = 0; i < w; ++i) {
                    data.push_back((uint8_t)(whole >> (16 * (w - 1 - i) + 8)));
                    data.push_back((uint8_t)(whole >> 16 * (w - 1 - i)));
                }
            }
            words += w;
            ++count;
            ++k;
        }
        symx_assert(r.Addr == first.Addr && r.Count == words && r.Data == data, "items are written in their order with their values, other bits of a partial item's words are preserved");
        symx_assert(r.Fn == (first.Type == 2 ? 5 : r.Count > 1 || first.Type == 5 ? 16 : 6), "the function suits the register");
        if (count > 1) {
            symx_assert(!maxWrite || words <= maxWrite, "a combined write is within the limit");
            symx_reach("combined");
        }
        if (first.Type == 0 && !first.Width && k < order.size() && maxWrite != 1) {
            auto& l = order[k].first;
            if (l.Type == 0 && !l.Width && l.Addr == first.Addr + words)
                symx_assert(maxWrite && words + Words(l) > maxWrite, "adjacent registers are written together within the limit");
        }
        if (r.Outcome == SIM_OK) {
            if (first.Type == 2)
                coils[first.Addr] = data[0] ? 1 : 0;
            else
                for (unsigned i = 0; i < words; ++i)
                    model[first.Addr + i] = (uint16_t)(data[2 * i] << 8 | data[2 * i + 1]);
        } else {
            bool permanent = how == 0;
            stop = brk || !permanent;
            symx_reach(permanent ? "refused" : "failed");
        }
    }
    symx_assert(anyRead == partial, "words are read only for partial items");
    if (partial && readFails) {
        symx_assert(thrown && !anyWrite, "the setup fails if the words of a partial item can't be read");
        symx_reach("unreadable");
        return;
    }
    symx_assert(thrown == stop, "a failure that ends the setup is reported");
    symx_assert(stop || k == order.size(), "every item is written");
    for (unsigned a = 9; a < 16; ++a)
        symx_assert(m.H(a) == model[a] && m.C(a) == coils[a], "the device has what was written and nothing else has changed");
    symx_reach("done");
    symx_observe("writes", b.Server->Log.size());
}
// setup items with texts, which may be shorter than their registers
HARNESS h_mb_setup_string()
{
    TBench b;
    auto& m = b.Server->Mem;
    b.Config->MaxWriteRegisters = (int)Pick("max write", 0, 3);
    TDeviceSetupItems items;
    bool s8 = SymBool("string8"), after = SymBool("text after"), wle = SymBool("word le");
    size_t len = (size_t)Pick("len", 1, s8 ? 4 : 2);
    unsigned at = after ? 11 : 10, words = s8 ? (unsigned)(len + 1) / 2 : (unsigned)len;
    std::string text;
    for (size_t i = 0; i < len; ++i)
        text.push_back((char)Sym8("char"));
    uint16_t v = Sym16("value");
    TLayout ls{0, s8 ? String8 : String, 0, 16, wle, false, at}, ln{0, U16, 0, 0, false, false, after ? 10u : 12u};
    auto s = std::make_shared<TDeviceSetupItem>(std::make_shared<TDeviceSetupItemConfig>("s", Make(ls), "ab"), b.Device);
    s->RawValue = TRegisterValue(text);
    auto u = std::make_shared<TDeviceSetupItem>(std::make_shared<TDeviceSetupItemConfig>("u", Make(ln), "1"), b.Device);
    u->RawValue = TRegisterValue((uint64_t)v);
    items.insert(s);
    items.insert(u);
    for (unsigned a = 9; a < 14; ++a)
        m.H(a);
    auto model = m.Holding;
    b.Device->WriteSetupRegisters(b.Port, items, true);
    model[ln.Addr] = v;
    for (unsigned i = 0; i < words; ++i) {
        uint16_t w = s8 ? (uint16_t)((uint8_t)text[2 * i] << 8 | (2 * i + 1 < len ? (uint8_t)text[2 * i + 1] : 0)) : (uint8_t)text[i];
        if (wle && words == 1)
            continue;
        model[at + (wle ? 1 - i : i)] = w;
    }
    for (unsigned a = 9; a < 14; ++a)
        if (!(wle && words == 1 && (a == at || a == at + 1)))
            symx_assert(m.H(a) == model[a], "texts and numbers are written to their own registers");
    symx_reach(words < 2 ? "short" : "full");
}
