// C24 Mercury 230, C25 Milur, C26 Mercury 200, C27 Uniel, C28 Pulsar, C29 LLS, C30 IVTM, C31 S2K, C33 Energomera CE
#include "devbench.h"
#include "devices/energomera_ce_device.h"
#include "devices/ivtm_device.h"
#include "devices/lls_device.h"
#include "devices/mercury200_device.h"
#include "devices/mercury230_device.h"
#include "devices/milur_device.h"
#include "devices/pulsar_device.h"
#include "devices/s2k_device.h"
#include "devices/uniel_device.h"
using namespace std::chrono;
static const RegisterFormat Sizes[] = {U8, U16, U24, U32, U64};
static const unsigned SizeBytes[] = {1, 2, 3, 4, 8};
static std::vector<uint8_t> Frame(std::vector<uint8_t> v)
{
    AppendModbusCrc(v);
    return v;
}
// ---- C24
static std::vector<uint8_t> AnyAnswer(uint64_t lo, uint64_t hi)
{
    return SymBytes("answer", (size_t)Pick("len", lo, hi));
}
static uint64_t M230Value(int type, const uint8_t* p, unsigned n)
{
    if (n == 3) {
        uint32_t all = (uint32_t)(p[0] << 16 | p[2] << 8 | p[1]), mag = all & 0x3fffff;
        if (type == 2)
            return all & 0x800000 ? 0u - mag : mag;
        if (type == 3)
            return all & 0x400000 ? 0u - mag : mag;
        return type == 4 ? mag : all;
    }
    if (n == 2)
        return type == 5 ? (uint32_t)(p[0] << 8 | p[1]) : (uint32_t)(p[1] << 8 | p[0]);
    return p[0];
}
HARNESS h_mercury230_param()
{
    bool first = SymBool("slave");
    TDevBench<TMercury230Device> b(first ? "1" : "0xf5");
    uint8_t slave = first ? 1 : 0xf5;
    bool pass = SymBool("password");
    if (pass)
        b.Config->Password = {1, 2, 3, 4, 5, 6};
    b.Config->AccessLevel = 2;
    int type = (int)Pick("type", 1, 5);
    size_t size = (size_t)Pick("size", 1, 4); // 2, 3, 4 or 8 bytes
    unsigned n = SizeBytes[size];
    auto reg = b.Add(type, 0x1234, Sizes[size]);
    b.Port.Answers.push_back(Frame({slave, 0}));
    auto a = AnyAnswer(0, (uint64_t)symx_param("hi", 13));
    b.Port.Answers.push_back(a);
    b.Read({reg});
    if (n > 3) {
        symx_assert(!TDevBench<TMercury230Device>::Good(reg), "a value wider than the protocol's has no reading");
        symx_reach("wide");
        return;
    }
    symx_assert(SameBytes(b.Port.Sent[0], Frame(pass ? std::vector<uint8_t>{slave, 1, 2, 1, 2, 3, 4, 5, 6} : std::vector<uint8_t>{slave, 1, 2, 1, 1, 1, 1, 1, 1})), "a session is opened with the access level and password");
    symx_assert(SameBytes(b.Port.Sent[1], Frame({slave, 8, 0x12, 0x34})), "the parameter is requested");
    bool intact = a.size() == 3u + n && CrcOk(a) && a[0] == slave;
    TDevBench<TMercury230Device>::Expect(reg, intact, intact ? M230Value(type, a.data() + 1, n) : 0, 32);
}
// an error answer (3 bytes and a checksum) for every code; a closed session is opened again, but not for ever
HARNESS h_mercury230_session()
{
    TDevBench<TMercury230Device> b("5");
    auto reg = b.Add(1, 0x1100, U24);
    auto reg2 = b.Add(1, 0x1200, U24);
    int n = (int)symx_param("steps", 3);
    int failed = 0;
    bool connected = false; // what the meter thinks
    bool served = false, refused = false;
    std::vector<uint8_t> v = {0, 0, 0};
    unsigned count = 0, sessions = 0;
    int step = 0;
    bool open = false; // the last request for a session was accepted
    b.Port.Answer = [&](const std::vector<uint8_t>& q) -> std::vector<uint8_t> {
        symx_assert(++count < 40, "an exchange ends whatever the meter answers");
        symx_assert(q.size() >= 4 && q[0] == 5 && CrcOk(q), "requests are well formed");
        int outcome = step++ < n ? (int)Pick("outcome", 0, 3) : (int)symx_param("forever", 0);
        if (q[1] == 1)
            open = outcome == 0 || outcome == 4;
        symx_assert(q[1] == 1 || open, "nothing is asked of a meter that refused the session");
        if (outcome == 3) {
            ++failed;
            return {};
        }
        if (q[1] == 1) {
            if (open) {
                connected = outcome == 0; // 4: a session that is closed at once
                ++sessions;
                return Frame({5, 0});
            }
            return Frame({5, (uint8_t)(outcome == 1 ? 5 : Pick("refusal", 1, 4))});
        }
        if (outcome == 1 || outcome == 4 || !connected) {
            connected = false;
            return Frame({5, 5});
        }
        if (outcome == 2) {
            uint8_t code = Sym8("code");
            symx_assume((code & 15) != 0 && (code & 15) != 5);
            refused = true;
            symx_assert(!served, "nothing is asked after an answer");
            return Frame({5, code});
        }
        served = true;
        v = SymBytes("data", 3);
        return Frame({5, v[0], v[1], v[2]});
    };
    for (int k = 0; k < (int)symx_param("readings", 2); ++k) {
        served = refused = false;
        auto r = k ? reg2 : reg;
        b.Read({r});
        b.Device->InvalidateReadCache();
        bool good = TDevBench<TMercury230Device>::Good(r);
        symx_assert(good == served, "a value is delivered exactly if the meter sent one");
        if (good)
            symx_assert(r->GetValue().Get<uint64_t>() == M230Value(1, v.data(), 3), "the value is the one in the answer");
        symx_reach(served ? "served" : refused ? "refused" : "failed");
    }
    symx_observe("count", count);
    symx_observe("sessions", sessions);
}
// permanent errors exclude the register, others do not
HARNESS h_mercury230_codes()
{
    TDevBench<TMercury230Device> b("5");
    auto reg = b.Add(1, 0x1100, U24);
    b.Port.Answers.push_back(Frame({5, 0}));
    uint8_t code = Sym8("code");
    symx_assume((code & 15) != 5);
    b.Port.Answers.push_back(Frame({5, code}));
    b.Read({reg});
    symx_assert(reg->GetErrorState().test(TRegister::ReadError), "an error answer is a read error");
    symx_assert((reg->GetAvailable() == TRegisterAvailability::UNAVAILABLE) == ((code & 15) == 1), "only an invalid command excludes the register");
    symx_reach((code & 15) == 1 ? "permanent" : "other");
}
HARNESS h_mercury230_array()
{
    TDevBench<TMercury230Device> b("5");
    int type = SymBool("array12") ? 6 : 0;
    unsigned n = type ? 3 : 4;
    static const unsigned Offs[] = {0, 1, 2, 3};
    PRegister regs[2];
    unsigned off[2];
    for (int i = 0; i < 2; ++i) {
        off[i] = Offs[Pick("offset", 0, 3)];
        regs[i] = b.Add(type, 0x302, U32, off[i]);
    }
    b.Port.Answers.push_back(Frame({5, 0}));
    static const size_t Lens[] = {0, 4, 15, 18, 19, 20};
    size_t len = (size_t)(symx_param("all", 0) ? Pick("len", 0, 20) : Lens[Pick("len", 0, 5)]);
    auto a = SymBytes("answer", len);
    b.Port.Answers.push_back(a);
    auto range = b.Device->CreateRegisterRange();
    b.Read({regs[0]});
    if (off[0] >= n) {
        symx_assert(!TDevBench<TMercury230Device>::Good(regs[0]), "the array has no such element");
        symx_reach("outside");
        return;
    }
    symx_assert(SameBytes(b.Port.Sent[1], Frame({5, 5, 2, 3})), "the array is requested");
    bool intact = a.size() == 3u + n * 4 && CrcOk(a) && a[0] == 5;
    bool have = intact && off[0] < n;
    const uint8_t* p = have ? a.data() + 1 + 4 * off[0] : nullptr;
    TDevBench<TMercury230Device>::Expect(regs[0], have, have ? (uint64_t)p[1] << 24 | p[0] << 16 | p[3] << 8 | p[2] : 0, 32);
    symx_reach(have ? "array" : "no array");
}
// arrays of both kinds with one number do not share their answer
HARNESS h_mercury230_mixed()
{
    TDevBench<TMercury230Device> b("5");
    bool swap = Pick("order", 0, 1) != 0;
    auto r1 = b.Add(swap ? 6 : 0, 0x302, U32, 1), r2 = b.Add(swap ? 0 : 6, 0x302, U32, 2);
    b.Port.Answers.push_back(Frame({5, 0}));
    std::vector<uint8_t> d[2];
    for (int i = 0; i < 2; ++i) {
        std::vector<uint8_t> f = {5};
        d[i] = SymBytes("data", (i == 1) == swap ? 16 : 12);
        f.insert(f.end(), d[i].begin(), d[i].end());
        b.Port.Answers.push_back(Frame(f));
    }
    b.Read({r1, r2});
    for (int i = 0; i < 2; ++i) {
        auto r = i ? r2 : r1;
        const uint8_t* p = d[i].data() + 4 * (i + 1);
        symx_assert(TDevBench<TMercury230Device>::Good(r) && r->GetValue().Get<uint64_t>() == ((uint64_t)p[1] << 24 | p[0] << 16 | p[3] << 8 | p[2]), "every array is read by a request of its own");
    }
    symx_reach("done");
}
// one answer serves the registers of an array until the cycle ends
static bool TDone[8];
HARNESS h_mercury230_cycle()
{
    TDevBench<TMercury230Device> b("5");
    static const uint32_t Arrays[] = {0x100, 0x200, 0x110, 0x101, 0x000};
    int n = (int)symx_param("n", 2);
    std::vector<PRegister> regs;
    std::vector<uint32_t> addr;
    std::vector<int> type;
    for (int i = 0; i < n; ++i) {
        addr.push_back(Arrays[Pick("array", 0, 4)]);
        type.push_back(SymBool("array12") ? 6 : 0);
        regs.push_back(b.Add(type[i], addr[i], U32, (unsigned)i));
    }
    uint32_t salt = 0; // what the counters show changes with every answer
    std::vector<std::pair<uint32_t, uint8_t>> asked;
    b.Port.Answer = [&](const std::vector<uint8_t>& q) -> std::vector<uint8_t> {
        if (q[1] == 1)
            return Frame({5, 0});
        symx_assert(q.size() == 6 && q[1] == 5, "an array is requested");
        uint32_t a = (uint32_t)(q[3] << 8 | q[2]);
        ++salt;
        size_t words = 4;
        for (int i = 0; i < n; ++i)
            if (addr[i] == a && !TDone[i]) {
                words = type[i] ? 3 : 4;
                break;
            }
        std::vector<uint8_t> f = {5};
        for (size_t k = 0; k < words; ++k)
            f.insert(f.end(), {(uint8_t)(a >> 8), (uint8_t)a, (uint8_t)salt, (uint8_t)k}); // the order of the bytes of a word is odd
        asked.push_back({a, (uint8_t)words});
        return Frame(f);
    };
    for (int cycle = 0; cycle < 2; ++cycle) {
        for (int i = 0; i < n; ++i)
            TDone[i] = false;
        for (int i = 0; i < n;) {
            auto range = b.Device->CreateRegisterRange();
            int first = i;
            while (i < n && range->Add(b.Port, regs[i], milliseconds::max()))
                ++i;
            symx_assert(i > first, "a register can be read alone");
            asked.clear();
            b.Device->ReadRegisterRange(b.Port, range, false);
            symx_assert(asked.size() == 1, "the registers of an array are read by one request");
            for (int j = first; j < i; ++j) {
                TDone[j] = true;
                symx_assert(TDevBench<TMercury230Device>::Good(regs[j]), "the register is read");
                uint64_t v = regs[j]->GetValue().Get<uint64_t>();
                symx_assert((v & 0xff) == salt && (v >> 8 & 0xff) == (uint64_t)j, "the value is of this answer and element");
                symx_assert((v >> 16 & 0xff) == addr[j] >> 8 && v >> 24 == (addr[j] & 0xff), "the value is of this array");
            }
            symx_reach(i > first + 1 ? "shared" : "asked");
        }
    }
}
// the time a meter has for an answer, and the silence that ends it
template<class D> static void Timeouts(const char* slave, double chars, bool m230)
{
    TDevBench<D> b(slave);
    static const unsigned Speeds[] = {1200, 2400, 4800, 9600, 19200, 38400, 115200};
    static const int64_t Least[] = {400, 250, 180, 150, 150, 150, 0};
    int s = (int)Pick("speed", 0, 6);
    b.Port.BitTimeUs = (1000000 + Speeds[s] - 1) / Speeds[s];
    static const int64_t Response[] = {-1, 0, 100, 700, 5000};
    static const int64_t FrameMs[] = {0, 3, 20, 2000};
    int64_t r = Response[Pick("response timeout", 0, 4)], f = FrameMs[Pick("frame timeout", 0, 3)];
    b.Config->ResponseTimeout = milliseconds(r);
    b.Config->FrameTimeout = milliseconds(f);
    int64_t gotR = b.Device->GetResponseTimeout(b.Port).count(), gotF = b.Device->GetFrameTimeout(b.Port).count();
    symx_assert(gotR >= r && (!m230 || gotR >= Least[s]), "an answer is waited for as long as configured and as the protocol demands");
    symx_assert(gotR == r || (m230 && gotR <= Least[s] + 150), "an answer is not waited for longer than configured or the protocol demands");
    int64_t line = (int64_t)(chars * 10 * b.Port.BitTimeUs);
    symx_assert(gotF >= f && gotF * 1000 >= line, "a frame ends after the configured silence and that of the protocol");
    symx_assert(gotF == f || gotF * 1000 <= line + 2000, "a frame does not end later");
}
HARNESS h_dev_timeouts()
{
    switch (Pick("protocol", 0, 3)) {
        case 0: Timeouts<TMercury230Device>("5", 6, true); break;
        case 1: Timeouts<TMercury200Device>("0xfe123456", 6, false); break;
        case 2: Timeouts<TMilurDevice>("0xe5", 3.5, false); break;
        default: Timeouts<TLLSDevice>("5", 3.5, false);
    }
    symx_reach("done");
}
// ---- C25
HARNESS h_milur()
{
    bool wide = SymBool("wide");
    TDevBench<TMilurDevice> b(wide ? "0x12345678" : "0xe5");
    b.Config->AccessLevel = 1;
    std::vector<uint8_t> id = wide ? std::vector<uint8_t>{0x78, 0x56, 0x34, 0x12} : std::vector<uint8_t>{0xe5};
    auto frame = [&](std::vector<uint8_t> v) {
        v.insert(v.begin(), id.begin(), id.end());
        return Frame(v);
    };
    static const unsigned Bytes[] = {3, 4, 4, 2, 2};
    static const RegisterFormat F[] = {U24, S32, BCD32, U16, S16};
    int type = (int)Pick("type", 0, 4);
    unsigned n = Bytes[type];
    static const uint8_t Addrs[] = {102, 0, 255};
    uint8_t addr = Addrs[Pick("address", 0, 2)];
    auto reg = b.Add(type, addr, F[type]);
    b.Port.Answers.push_back(frame({8, 1}));
    auto a = AnyAnswer(0, (uint64_t)symx_param("hi", 14));
    b.Port.Answers.push_back(a);
    // a closed session is opened again once, then silence
    b.Read({reg});
    symx_assert(SameBytes(b.Port.Sent[0], frame({8, 1, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff})), "a session is opened");
    symx_assert(SameBytes(b.Port.Sent[1], frame({1, addr})), "the register is requested");
    size_t w = id.size();
    auto& d = b.Port.Delivered[1];
    bool mine = d.size() > w && CrcOk(d) && SameBytes(std::vector<uint8_t>(d.begin(), d.begin() + w), id);
    bool intact = mine && d.size() == w + 5 + n && d[w] == 1 && d[w + 1] == addr && d[w + 2] == n;
    uint64_t v = 0;
    if (intact) {
        v = LittleEndian(d.data() + w + 3, n);
        if (type == 2) {
            v = 0;
            for (unsigned i = 0; i < 4; ++i)
                v |= (uint64_t)(uint8_t)(d[w + 3 + i] << 4 | d[w + 3 + i] >> 4) << 8 * i;
        }
    }
    TDevBench<TMilurDevice>::Expect(reg, intact, v, 8 * n);
    if (mine && d.size() == w + 5 && (d[w] & 0x80) && d[w + 1] == 8) {
        symx_assert(b.Port.Sent.size() > 2 && SameBytes(b.Port.Sent[2], b.Port.Sent[0]), "a closed session is opened again");
        symx_reach("closed");
    } else if (d.size())
        symx_assert(b.Port.Sent.size() == 2, "no more requests");
}
HARNESS h_milur_session()
{
    bool wide = SymBool("wide");
    TDevBench<TMilurDevice> b(wide ? "0x12345678" : "0xe5");
    std::vector<uint8_t> id = wide ? std::vector<uint8_t>{0x78, 0x56, 0x34, 0x12} : std::vector<uint8_t>{0xe5};
    b.Config->AccessLevel = 1;
    auto frame = [&](std::vector<uint8_t> v) {
        v.insert(v.begin(), id.begin(), id.end());
        return Frame(v);
    };
    auto reg = b.Add(0, 102, U24);
    int n = (int)symx_param("steps", 3), step = 0;
    unsigned count = 0;
    bool connected = false, served = false, accepted = false;
    std::vector<uint8_t> v;
    b.Port.Answer = [&](const std::vector<uint8_t>& q) -> std::vector<uint8_t> {
        symx_assert(++count < 40, "an exchange ends whatever the meter answers");
        int outcome = step++ < n ? (int)Pick("outcome", 0, 3) : (int)symx_param("forever", 0);
        bool open = q[id.size()] == 8;
        if (open)
            accepted = outcome == 0 || outcome == 4;
        symx_assert(open || accepted, "nothing is asked of a meter that refused the session");
        if (outcome == 3)
            return {};
        if (outcome == 2) {
            uint8_t code = Sym8("code");
            symx_assume(code != 8);
            return frame({(uint8_t)(0x80 | q[id.size()]), code, 0});
        }
        if (outcome == 1 || (!open && (outcome == 4 || !connected))) {
            connected = false;
            return frame({(uint8_t)(0x80 | q[id.size()]), 8, 0});
        }
        if (open) {
            connected = outcome == 0;
            uint8_t level = Sym8("level");
            accepted = level == 1;
            return frame({8, level});
        }
        served = true;
        v = SymBytes("data", 3);
        return frame({1, 102, 3, v[0], v[1], v[2]});
    };
    for (int k = 0; k < (int)symx_param("readings", 2); ++k) {
        served = false;
        b.Read({reg});
        bool good = TDevBench<TMilurDevice>::Good(reg);
        symx_assert(good == served, "a value is delivered exactly if the meter sent one");
        if (good)
            symx_assert(reg->GetValue().Get<uint64_t>() == LittleEndian(v.data(), 3), "the value is the one in the answer");
        symx_reach(good ? "served" : "failed");
    }
    symx_observe("count", count);
}
// ---- C26
HARNESS h_mercury200()
{
    TDevBench<TMercury200Device> b("0xfe123456");
    size_t size = (size_t)Pick("size", 0, 3);
    unsigned n = SizeBytes[size], off = (unsigned)Pick("offset", 0, (uint64_t)std::min<int64_t>(symx_param("offsets", 4), n * 8 - 1));
    uint8_t cmd = (uint8_t)(Pick("command", 0, 2) * 0x21);
    auto reg = b.Add(0, cmd, Sizes[size], off);
    auto a = AnyAnswer((uint64_t)symx_param("lo", 0), (uint64_t)symx_param("hi", 12));
    b.Port.Answers.push_back(a);
    b.Read({reg});
    symx_assert(b.Port.Sent.size() == 1 && SameBytes(b.Port.Sent[0], Frame({0xfe, 0x12, 0x34, 0x56, cmd})), "one request");
    bool intact = a.size() >= 7u + off + n && CrcOk(a) && SameBytes(std::vector<uint8_t>(a.begin(), a.begin() + 5), {0xfe, 0x12, 0x34, 0x56, cmd});
    TDevBench<TMercury200Device>::Expect(reg, intact, intact ? BigEndian(a.data() + 5 + off, n) : 0, 8 * n);
}
// the longest answers; the address of the meter may be anything
HARNESS h_mercury200_long()
{
    TDevBench<TMercury200Device> b("0xfe123456");
    b.Device->SlaveId = Sym32("slave");
    auto reg = b.Add(0, 0, U32, (uint32_t)Pick("offset", 0, 20));
    size_t n = (size_t)(SymBool("long") ? Pick("n", 96, 102) : Pick("n", 1, 10));
    auto a = SymBytes("answer", n);
    b.Port.Answers.push_back(a);
    b.Read({reg});
    auto& d = b.Port.Delivered[0];
    symx_assert(d.size() == std::min<size_t>(n, 100), "an answer is cut to the buffer");
    if (d.size() < 11)
        symx_assert(!TDevBench<TMercury200Device>::Good(reg), "a short answer has no value");
    symx_reach(n > 10 ? "long" : "short");
}
// registers of one command share its answer until the cycle ends
HARNESS h_mercury200_cache()
{
    TDevBench<TMercury200Device> b("7");
    auto r1 = b.Add(0, 0x27, U16, 0), r2 = b.Add(0, 0x27, U32, 2), r3 = b.Add(0, 0x28, U8, 0);
    auto d = SymBytes("data", 6), e = SymBytes("data", 1);
    b.Port.Answer = [&](const std::vector<uint8_t>& q) {
        std::vector<uint8_t> f(q.begin(), q.begin() + 5);
        auto& x = q[4] == 0x27 ? d : e;
        f.insert(f.end(), x.begin(), x.end());
        return Frame(f);
    };
    b.Read({r1, r2, r3});
    symx_assert(r1->GetValue().Get<uint64_t>() == BigEndian(d.data(), 2) && r2->GetValue().Get<uint64_t>() == BigEndian(d.data() + 2, 4) && r3->GetValue().Get<uint64_t>() == e[0], "every register gets its own bytes");
    auto d2 = SymBytes("data", 6);
    d = d2;
    b.Read({r1});
    symx_assert(r1->GetValue().Get<uint64_t>() == BigEndian(d2.data(), 2), "the next cycle reads again");
    symx_reach("done");
}
// ---- C27
HARNESS h_uniel_read()
{
    TDevBench<TUnielDevice> b("0x0a");
    int type = (int)Pick("type", 0, 3);
    uint8_t addr = Sym8("addr");
    auto reg = b.Add(type, addr, U8);
    auto a = AnyAnswer(0, (uint64_t)symx_param("hi", 8));
    b.Port.Answers.push_back(a);
    b.Read({reg});
    symx_assert(b.Port.Sent.size() == 1 && SameBytes(b.Port.Sent[0], {0xff, 0xff, 5, 0x0a, 0, addr, 0, (uint8_t)(5 + 0x0a + addr)}), "one request");
    // the answer: bytes before the first 0xff are skipped, then 0xff and optionally a second one, five bytes and their sum
    size_t p = 0;
    while (p < a.size() && a[p] != 0xff)
        ++p;
    ++p;
    if (p < a.size() && a[p] == 0xff)
        ++p;
    bool intact = p + 6 <= a.size();
    if (intact) {
        uint8_t s = 0;
        for (int i = 0; i < 5; ++i)
            s += a[p + i];
        intact = s == a[p + 5] && a[p] == 5 && a[p + 1] == 0 && a[p + 3] == addr;
    }
    TDevBench<TUnielDevice>::Expect(reg, intact, intact ? (type == 0 ? a[p + 2] != 0 : a[p + 2]) : 0, 8);
}
HARNESS h_uniel_write()
{
    TDevBench<TUnielDevice> b("0x0a");
    int type = (int)Pick("type", 0, 3);
    if (type == 1)
        symx_prune();
    uint8_t addr = Sym8("addr");
    RegisterFormat f = SymBool("signed") ? S8 : U8;
    auto reg = b.Add(type, type == 3 ? (uint32_t)addr << 8 | Sym8("read addr") : addr, f);
    uint8_t v = Sym8("value");
    auto a = SymBytes("answer", (size_t)Pick("len", 6, (uint64_t)symx_param("hi", 8)));
    b.Port.Answers.push_back(a);
    bool ok = true;
    try {
        b.Device->WriteRegister(b.Port, reg, (uint64_t)v);
    } catch (const TSerialDeviceException&) {
        ok = false;
    }
    uint8_t cmd = type == 3 ? 0x0a : 6, sent = type == 0 && v ? 255 : v;
    symx_assert(b.Port.Sent.size() == 1 && SameBytes(b.Port.Sent[0], {0xff, 0xff, cmd, 0x0a, sent, addr, 0, (uint8_t)(cmd + 0x0a + sent + addr)}), "one request");
    size_t p = 0;
    while (p < a.size() && a[p] != 0xff)
        ++p;
    ++p;
    if (p < a.size() && a[p] == 0xff)
        ++p;
    bool intact = p + 6 <= a.size();
    if (intact) {
        uint8_t s = 0;
        for (int i = 0; i < 5; ++i)
            s += a[p + i];
        intact = s == a[p + 5] && a[p] == cmd && a[p + 1] == 0 && a[p + 2] == sent && a[p + 3] == addr;
    }
    symx_assert(ok == intact, "a write succeeds exactly if the device confirmed it");
    symx_reach(ok ? "good" : "bad");
}
// ---- C28
static uint16_t LeCrc(const uint8_t* p, size_t n)
{
    uint16_t c = RefModbusCrc(p, n);
    return (uint16_t)(c << 8 | c >> 8);
}
static std::vector<uint8_t> PulsarFrame(std::vector<uint8_t> v)
{
    AppendModbusCrc(v);
    return v;
}
HARNESS h_pulsar()
{
    TDevBench<TPulsarDevice> b("107080");
    bool time = SymBool("time");
    size_t size = (size_t)Pick("size", 0, 4);
    unsigned n = time ? 6 : SizeBytes[size];
    unsigned addr = (unsigned)Pick("addr", 0, 31);
    if (!symx_param("addrs", 0) && addr != 0 && addr != 2 && addr != 31)
        symx_prune();
    auto reg = b.Add(time, addr, time ? U64 : Sizes[size]);
    uint64_t hi = symx_param("extra", 1);
    auto a = SymBytes("answer", (size_t)Pick("len", symx_param("all", 0) ? 0 : n + 9, n + 10 + hi));
    b.Port.Answers.push_back(a);
    b.Read({reg});
    uint32_t mask = 1u << addr;
    symx_assert(b.Port.Sent.size() == 1, "one request");
    if (!time)
        symx_assert(SameBytes(b.Port.Sent[0], PulsarFrame({0x00, 0x10, 0x70, 0x80, 1, 14, (uint8_t)mask, (uint8_t)(mask >> 8), (uint8_t)(mask >> 16), (uint8_t)(mask >> 24), 0, 0})), "the channel is requested");
    auto& d = b.Port.Delivered[0];
    bool intact = d.size() == n + 10 && CrcOk(d) && d[5] == n + 10 && d[n + 6] == 0 && d[n + 7] == 0;
    // the address is in decimal digits
    if (intact) {
        uint64_t id = 0;
        for (int i = 0; i < 4; ++i)
            id = id * 100 + (d[i] >> 4) * 10 + (d[i] & 15);
        intact = id == 107080;
    }
    TDevBench<TPulsarDevice>::Expect(reg, intact, intact ? LittleEndian(d.data() + 6, n) : 0, 8 * n);
}
// an answer to an earlier request is not taken for the current one
HARNESS h_pulsar_stale()
{
    TDevBench<TPulsarDevice> b("107080");
    auto r1 = b.Add(0, 2, U32), r2 = b.Add(0, 3, U32);
    auto reply = [](const std::vector<uint8_t>& q, const std::vector<uint8_t>& v) {
        std::vector<uint8_t> f = {q[0], q[1], q[2], q[3], q[4], 14, v[0], v[1], v[2], v[3], q[10], q[11]};
        return PulsarFrame(f);
    };
    auto v1 = SymBytes("data", 4);
    std::vector<uint8_t> late;
    b.Port.Answer = [&](const std::vector<uint8_t>& q) {
        late = reply(q, v1); // comes too late
        return std::vector<uint8_t>();
    };
    b.Read({r1});
    symx_assert(!TDevBench<TPulsarDevice>::Good(r1), "silence is an error");
    b.Port.Answers.clear();
    b.Port.Answer = [&](const std::vector<uint8_t>&) { return late; };
    b.Read({r2});
    symx_assert(!TDevBench<TPulsarDevice>::Good(r2), "the answer to another request is refused");
    b.Port.Answers.clear();
    b.Port.Answer = [&](const std::vector<uint8_t>& q) { return reply(q, v1); };
    b.Read({r2});
    symx_assert(TDevBench<TPulsarDevice>::Good(r2) && r2->GetValue().Get<uint64_t>() == LittleEndian(v1.data(), 4), "the next request is served");
    symx_reach("done");
}
// ---- C29
static uint8_t DallasCrc(const uint8_t* p, size_t n)
{
    uint8_t c = 0;
    for (size_t i = 0; i < n; ++i) {
        c ^= p[i];
        for (int k = 0; k < 8; ++k)
            c = (uint8_t)((c >> 1) ^ ((uint8_t)(-(c & 1)) & 0x8c));
    }
    return c;
}
HARNESS h_lls()
{
    TDevBench<TLLSDevice> b("1");
    uint8_t slave = Sym8("slave");
    b.Device->SlaveId = slave;
    size_t size = (size_t)Pick("size", 0, 3);
    unsigned n = SizeBytes[size], off = (unsigned)Pick("offset", 0, (uint64_t)symx_param("offsets", 4));
    uint8_t cmd = (uint8_t)(0xf0 + 12 * Pick("command", 0, 1));
    auto reg = b.Add(0, cmd, Sizes[size], off);
    auto a = AnyAnswer(0, (uint64_t)symx_param("hi", 10));
    b.Port.Answers.push_back(a);
    b.Read({reg});
    std::vector<uint8_t> q = {0x31, slave, cmd};
    q.push_back(DallasCrc(q.data(), 3));
    symx_assert(b.Port.Sent.size() == 1 && SameBytes(b.Port.Sent[0], q), "one request");
    bool intact = a.size() >= 4u + off + n && a[0] == 0x3e && a[1] == slave && a[2] == cmd && a.back() == DallasCrc(a.data(), a.size() - 1);
    TDevBench<TLLSDevice>::Expect(reg, intact, intact ? LittleEndian(a.data() + 3 + off, n) : 0, 8 * n);
}
// a later reading asks again and takes the later answer
HARNESS h_lls_cycle()
{
    TDevBench<TLLSDevice> b("1");
    auto reg = b.Add(0, 0xf0, U8, 0), other = b.Add(0, 0xf0, U8, 1);
    auto answer = [&](uint8_t x, uint8_t y) {
        std::vector<uint8_t> a = {0x3e, 1, 0xf0, x, y};
        a.push_back(DallasCrc(a.data(), 5));
        b.Port.Answers.push_back(a);
    };
    uint8_t v[8][2];
    size_t steps = (size_t)symx_param("steps", 3);
    for (size_t i = 0; i < steps; ++i) {
        v[i][0] = Sym8("level");
        v[i][1] = Sym8("temperature");
        if (i && SymBool("silent")) { // nothing is taken from the earlier answers
            auto& r = SymBool("the other register") ? other : reg;
            b.Port.Answers.push_back({});
            b.Read({r});
            symx_assert(!TDevBench<TLLSDevice>::Good(r), "a silent device has no reading");
            symx_reach("silent");
            continue;
        }
        size_t before = b.Port.Sent.size();
        answer(v[i][0], v[i][1]);
        answer(v[i][0], v[i][1]);
        b.Read({reg});
        b.Read({other});
        symx_assert(b.Port.Sent.size() - before >= 1, "the device is asked again");
        TDevBench<TLLSDevice>::Expect(reg, true, v[i][0], 8);
        TDevBench<TLLSDevice>::Expect(other, true, v[i][1], 8);
        b.Port.Answers.clear();
    }
}
// ---- C30
static int HexDigit(uint8_t c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
}
static int HexByte(const uint8_t* p)
{
    int a = HexDigit(p[0]), b = HexDigit(p[1]);
    return a < 0 || b < 0 ? -1 : a * 16 + b;
}
static std::vector<uint8_t> Hex(const std::vector<uint8_t>& v)
{
    std::vector<uint8_t> r;
    for (uint8_t x: v)
        for (int s = 4; s >= 0; s -= 4)
            r.push_back((uint8_t)((x >> s & 15) < 10 ? '0' + (x >> s & 15) : 'A' + (x >> s & 15) - 10));
    return r;
}
// the answer: '!' address 'RR' data checksum '\r'; `shape` fixes the bytes that are not symbolic
HARNESS h_ivtm()
{
    TDevBench<TIVTMDevice> b("0x1234");
    size_t size = (size_t)Pick("size", 0, 4);
    unsigned n = SizeBytes[size];
    auto reg = b.Add(0, 0x0104, Sizes[size]);
    std::vector<uint8_t> a;
    int shape = (int)symx_param("shape", 0);
    size_t len = 10 + 2 * n;
    if (shape == 0) // anything short
        a = AnyAnswer(0, (uint64_t)symx_param("hi", 3));
    else {
        size_t window = (size_t)symx_param("window", 1), first = window && n > window ? (size_t)Pick("window at", 0, n - window) : 0;
        std::vector<uint8_t> d;
        size_t count = shape == 4 ? (size_t)Pick("bytes", 0, 8) : n; // 4: an intact answer of another size
        for (size_t i = 0; i < count; ++i)
            d.push_back(i >= first && i < first + window ? Sym8("data") : (uint8_t)(0x3b * i + 5));
        a = {'!', '1', '2', '3', '4', 'R', 'R'};
        for (uint8_t x: Hex(d))
            a.push_back(x);
        uint8_t s = 0;
        for (uint8_t x: a)
            s += x;
        for (uint8_t x: Hex({s}))
            a.push_back(x);
        a.push_back('\r');
        if (shape == 2) { // some bytes are damaged
            size_t at = (size_t)Pick("at", 0, len - 1);
            for (size_t i = at; i < std::min(len, at + (size_t)symx_param("damage", 2)); ++i)
                a[i] = Sym8("damaged");
        } else if (shape == 3) { // cut or continued
            int cut = (int)Pick("cut", 0, 6);
            a.resize(len - std::min<size_t>(len, (size_t)cut));
            if (SymBool("footer") && a.size())
                a.back() = '\r';
        }
    }
    b.Port.Answers.push_back(a);
    b.Port.Chunk = 1;
    b.Read({reg});
    if (n > 4) {
        symx_assert(!TDevBench<TIVTMDevice>::Good(reg), "a value wider than the protocol's has no reading");
        symx_reach("wide");
        return;
    }
    auto q = Hex({0x12, 0x34});
    q.insert(q.begin(), '$');
    q.push_back('R');
    q.push_back('R');
    for (uint8_t x: Hex({1, 4, (uint8_t)n}))
        q.push_back(x);
    uint8_t s = 0;
    for (uint8_t x: q)
        s += x;
    for (uint8_t x: Hex({s}))
        q.push_back(x);
    q.push_back('\r');
    symx_assert(b.Port.Sent.size() == 1 && SameBytes(b.Port.Sent[0], q), "one request");
    auto& d = b.Port.Delivered[0];
    bool intact = d.size() == len && d[0] == '!' && d[5] == 'R' && d[6] == 'R' && d[len - 1] == '\r' && HexByte(&d[1]) == 0x12 && HexByte(&d[3]) == 0x34;
    uint64_t v = 0;
    for (unsigned i = n; intact && i-- > 0;) {
        int x = HexByte(&d[7 + 2 * i]);
        intact = x >= 0;
        v = v << 8 | (uint8_t)x;
    }
    if (intact) {
        uint8_t c = 0;
        for (size_t i = 0; i < len - 3; ++i)
            c += d[i];
        intact = HexByte(&d[len - 3]) == c;
    }
    TDevBench<TIVTMDevice>::Expect(reg, intact, v, 8 * n);
}
// ---- C31
static const uint8_t S2kTail[] = {0xA9, 0xF6, 0xB6, 0xFC}; // the vendor's table differs from the regular polynomial here
static uint8_t S2kCrc(const uint8_t* p, size_t n)
{
    uint8_t c = 0;
    for (size_t i = 0; i < n; ++i) {
        uint8_t x = c ^ p[i];
        c = DallasCrc(&x, 1);
        c = (uint8_t)symx_ite(x == 247, S2kTail[1], symx_ite(x == 249, S2kTail[3], c));
    }
    return c;
}
static std::vector<uint8_t> S2kFrame(std::vector<uint8_t> v)
{
    v.push_back(S2kCrc(v.data(), v.size()));
    return v;
}
HARNESS h_s2k_read()
{
    TDevBench<TS2KDevice> b("9");
    int type = (int)Pick("type", 2, 3);
    uint8_t addr = (uint8_t)Pick("addr", 1, 4), no = (uint8_t)(addr + (type == 3 ? 4 : 0));
    auto reg = b.Add(type, addr, U8);
    auto a = AnyAnswer(0, (uint64_t)symx_param("hi", 7));
    b.Port.Answers.push_back(a);
    b.Read({reg});
    symx_assert(b.Port.Sent.size() == 1 && SameBytes(b.Port.Sent[0], S2kFrame({9, 6, 0, 5, no, 0})), "one request");
    bool intact = a.size() == 6 && a[0] == 9 && a[1] == 5 && a[2] == 6 && a[3] == no && a[5] == S2kCrc(a.data(), 5);
    TDevBench<TS2KDevice>::Expect(reg, intact, intact ? a[4] : 0, 8);
}
HARNESS h_s2k_relay()
{
    TDevBench<TS2KDevice> b("9");
    uint8_t addr = (uint8_t)Pick("addr", 0, (uint64_t)symx_param("addrs", 6)), other = (uint8_t)(addr % 4 + 1);
    auto reg = b.Add(0, addr, U8), mode = b.Add(1, addr, U8), reg2 = b.Add(0, other, U8);
    int state = 2;
    bool valid = addr >= 1 && addr <= 4;
    for (int i = 0; i < (int)symx_param("steps", 2); ++i) {
        uint8_t v = Sym8("value");
        auto a = SymBytes("answer", (size_t)Pick("len", 5, 7));
        b.Port.Answers.clear();
        b.Port.Answers.push_back(a);
        b.Port.Sent.clear();
        bool ok = true;
        try {
            b.Device->WriteRegister(b.Port, reg, (uint64_t)v);
        } catch (const TSerialDeviceException&) {
            ok = false;
        }
        bool intact = valid && a.size() == 6 && a[0] == 9 && a[1] == 5 && a[2] == 0x16 && a[3] == addr && a[5] == S2kCrc(a.data(), 5);
        symx_assert(ok == intact, "a write succeeds exactly if the device confirmed it");
        if (valid)
            symx_assert(b.Port.Sent.size() == 1 && SameBytes(b.Port.Sent[0], S2kFrame({9, 6, 0, 0x15, addr, (uint8_t)(v ? 1 : 2)})), "one request");
        else
            symx_assert(b.Port.Sent.empty(), "nothing is sent for a relay that does not exist");
        if (intact)
            state = a[4];
        b.Read({reg, mode, reg2});
        if (valid) {
            symx_assert(TDevBench<TS2KDevice>::Good(reg) && reg->GetValue().Get<uint64_t>() == (uint64_t)(state != 0 && state != 2), "the relay is as the device last confirmed");
            symx_assert(TDevBench<TS2KDevice>::Good(mode) && mode->GetValue().Get<uint64_t>() == (uint64_t)state, "so is its program");
        } else
            symx_assert(!TDevBench<TS2KDevice>::Good(reg) && !TDevBench<TS2KDevice>::Good(mode), "a relay that does not exist has no state");
        symx_assert(TDevBench<TS2KDevice>::Good(reg2) && reg2->GetValue().Get<uint64_t>() == 0, "another relay keeps its state");
        symx_reach(intact ? "good" : valid ? "bad" : "invalid");
    }
}
// ---- C33
static uint8_t CeCrc(const uint8_t* p, size_t n)
{
    uint8_t c = 0;
    for (size_t i = 0; i < n; ++i) {
        c ^= p[i];
        for (int k = 0; k < 8; ++k)
            c = (uint8_t)((c << 1) ^ ((uint8_t)(-(c >> 7)) & 0xb5));
    }
    return c;
}
static std::vector<uint8_t> CeStuff(const std::vector<uint8_t>& v)
{
    std::vector<uint8_t> r = {0xc0};
    for (uint8_t x: v)
        if (x == 0xc0) {
            r.push_back(0xdb);
            r.push_back(0xdc);
        } else if (x == 0xdb) {
            r.push_back(0xdb);
            r.push_back(0xdd);
        } else
            r.push_back(x);
    r.push_back(0xc0);
    return r;
}
HARNESS h_energomera_ce()
{
    TDevBench<TEnergomeraCeDevice> b("0x1234");
    bool password = symx_param("damage", 0) == 0 && Pick("password", 0, 1);
    if (password)
        b.Config->Password = {0xb1, 0x02, 0x53, 0xd4};
    int type = (int)Pick("type", 0, 2);
    static const uint32_t Addrs[] = {0x0130, 0x013001, 0x01300002};
    size_t k = (size_t)Pick("address", 0, 2);
    auto reg = b.Add(type, Addrs[k], type == 1 ? String : U32);
    // the answer before stuffing, without its marks
    static const uint8_t To[] = {0xfd, 0x00}, From[] = {0x34, 0x12};
    size_t n = (size_t)Pick("data", 0, 8);
    std::vector<uint8_t> c = {0x48, To[0], To[1], From[0], From[1], 0x50, (uint8_t)(Addrs[k] >> (k * 8 + 8 > 31 ? 24 : k * 8 + 8)), (uint8_t)(Addrs[k] >> (k * 8))};
    c[6] = 0x01;
    c[7] = 0x30;
    c[5] = (uint8_t)(0x50 | n);
    // a window of symbolic bytes, the others are fixed
    size_t window = (size_t)symx_param("window", 2), first = window && n > window ? (size_t)Pick("window at", 0, n - window) : 0;
    for (size_t i = 0; i < n; ++i)
        c.push_back(i >= first && i < first + window ? Sym8("data") : (uint8_t)(0x11 * i + 5));
    int damage = (int)symx_param("damage", 0);
    c.push_back(CeCrc(c.data(), c.size()));
    if (damage) {
        size_t at = (size_t)Pick("at", 0, c.size() - 1);
        for (size_t i = at; i < std::min(c.size(), at + (size_t)damage); ++i)
            c[i] = Sym8("damaged");
    }
    auto a = CeStuff(c);
    b.Port.Answers.push_back(a);
    b.Read({reg});
    std::vector<uint8_t> q = {0x48, 0x34, 0x12, 0xfd, 0x00, 0, 0, 0, 0, (uint8_t)(0xd0 | k)};
    if (password)
        for (int i = 0; i < 4; ++i)
            q[5 + i] = b.Config->Password[i];
    for (int i = (int)k + 1; i >= 0; --i)
        q.push_back((uint8_t)(Addrs[k] >> 8 * i));
    q.push_back(CeCrc(q.data(), q.size()));
    symx_assert(b.Port.Sent.size() == 1 && SameBytes(b.Port.Sent[0], CeStuff(q)), "one request");
    bool crc = c.back() == CeCrc(c.data(), c.size() - 1);
    bool intact = crc && c[0] == 0x48 && (c[5] >> 4 & 7) != 7;
    const uint8_t* p = c.data() + 8;
    if (type == 0)
        TDevBench<TEnergomeraCeDevice>::Expect(reg, intact && n >= 1 && n <= 4, BigEndian(p, n), 32);
    else if (type == 2)
        TDevBench<TEnergomeraCeDevice>::Expect(reg, intact && n == 7, n == 7 ? LittleEndian(p + 3, 4) : 0, 32);
    else {
        bool good = intact && n == 7;
        symx_assert(TDevBench<TEnergomeraCeDevice>::Good(reg) == good, "a date is delivered exactly from an intact answer");
        if (good) {
            auto h = Hex({p[4], p[5], p[6], p[2], p[1], p[0]});
            for (auto& x: h)
                x = (uint8_t)(x >= 'A' ? x + 32 : x);
            std::string s;
            static const char Sep[] = ".. ::";
            for (int i = 0; i < 6; ++i) {
                s.push_back((char)h[2 * i]);
                s.push_back((char)h[2 * i + 1]);
                if (i < 5)
                    s.push_back(Sep[i]);
            }
            symx_assert(reg->GetValue().Get<std::string>() == s, "the date is the one in the answer");
            symx_reach("date");
        }
    }
}
// any bytes
HARNESS h_energomera_ce_any()
{
    TDevBench<TEnergomeraCeDevice> b("0x1234");
    auto reg = b.Add((int)Pick("type", 0, 2), 0x130, U32);
    auto a = SymBytes("answer", (size_t)Pick("len", 0, (uint64_t)symx_param("hi", 4)));
    if (SymBool("framed")) {
        std::vector<uint8_t> f = {0xc0, 0x48, 0xfd, 0, 0x34, 0x12, 0x55, 1, 0x30};
        f.insert(f.end(), a.begin(), a.end());
        f.push_back(0xc0);
        a = f;
    }
    b.Port.Answers.push_back(a);
    b.Port.Chunk = (size_t)Pick("chunk", 0, 1);
    b.Read({reg});
    if (a.size() < 12)
        symx_assert(!TDevBench<TEnergomeraCeDevice>::Good(reg), "a short answer has no value");
    symx_reach(TDevBench<TEnergomeraCeDevice>::Good(reg) ? "good" : "bad");
}
