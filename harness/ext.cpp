// C21 events, C22 enabling of events, C23 scan
#include "fakeport.h"
#include "modbus_base.h"
#include "modbus_ext_common.h"
#include "symx.h"
#include <map>
using namespace std::chrono;
using namespace ModbusExt;
class TScriptTraits: public Modbus::IModbusTraits
{
public:
    struct TAnswer
    {
        uint8_t Slave;
        std::vector<uint8_t> Pdu;
        bool Timeout;
    };
    std::vector<TAnswer> Answers;
    std::vector<std::pair<uint8_t, std::vector<uint8_t>>> Requests;
    std::vector<bool> Match;
    std::function<std::vector<uint8_t>(const std::vector<uint8_t>&)> Answer;
    size_t Expected = 0;
    Modbus::TReadResult Transaction(TPort& port, uint8_t slaveId, const std::vector<uint8_t>& pdu, size_t expected, const milliseconds& rt, const milliseconds& ft, bool match) override
    {
        Requests.emplace_back(slaveId, pdu);
        Match.push_back(match);
        Expected = expected;
        Modbus::TReadResult r;
        r.SlaveId = slaveId;
        if (Answer) {
            r.Pdu = Answer(pdu);
            return r;
        }
        if (Requests.size() > Answers.size())
            throw TResponseTimeoutException();
        auto& a = Answers[Requests.size() - 1];
        if (a.Timeout)
            throw TResponseTimeoutException();
        r.SlaveId = a.Slave;
        r.Pdu = a.Pdu;
        return r;
    }
};
struct TEvent
{
    uint8_t Slave, Type;
    uint16_t Id;
    std::vector<uint8_t> Data;
};
class TCollector: public IEventsVisitor
{
public:
    std::vector<TEvent> Events;
    void Event(uint8_t slaveId, uint8_t eventType, uint16_t eventId, const uint8_t* data, size_t n) override
    {
        Events.push_back({slaveId, eventType, eventId, std::vector<uint8_t>(data, data + n)});
    }
};
// ---- C21
static void CheckEventsAnswer(const std::vector<uint8_t>& pdu, uint8_t slave, const TEventConfirmationState& before, const TEventConfirmationState& after, const TCollector& c, bool thrown, bool more)
{
    // the reference: header 46 11 flag count size, then records: size type id(2) data
    size_t n = pdu.size();
    bool has = n >= 5 && pdu[1] == 0x11 && n == 5u + pdu[4];
    bool none = n >= 2 && pdu[1] == 0x12;
    if (none) {
        symx_assert(!thrown && !more && c.Events.empty(), "a packet without events ends the reading");
        symx_assert(after.SlaveId == before.SlaveId && after.Flag == before.Flag, "nothing is confirmed");
        symx_reach("none");
        return;
    }
    if (!has) {
        symx_assert(thrown && c.Events.empty(), "a broken packet is an error and delivers nothing");
        symx_assert(after.SlaveId == before.SlaveId && after.Flag == before.Flag, "a broken packet is not confirmed");
        symx_reach("broken");
        return;
    }
    size_t p = 5, k = 0;
    bool bad = false;
    while (p < n) {
        size_t size = pdu[p] + 4u;
        if (size > n - p) {
            bad = true;
            break;
        }
        symx_assert(k < c.Events.size(), "every event is delivered");
        auto& e = c.Events[k++];
        symx_assert(e.Slave == slave && e.Type == pdu[p + 1], "with its slave and type");
        symx_assert(e.Id == (uint16_t)(pdu[p + 2] << 8 | pdu[p + 3]), "with its id");
        symx_assert(e.Data.size() == size - 4, "with its data size");
        for (size_t i = 0; i < e.Data.size(); ++i)
            symx_assert(e.Data[i] == pdu[p + 4 + i], "with its data");
        p += size;
    }
    symx_assert(k == c.Events.size(), "no event is delivered twice");
    symx_assert(thrown == bad, "an event that does not fit its packet is an error");
    if (!bad) {
        symx_assert(more, "there may be more events");
        symx_assert(after.SlaveId == slave && after.Flag == pdu[2], "the next request confirms this packet");
        symx_reach(k > 1 ? "several" : k ? "one" : "empty");
    } else
        symx_reach("bad record");
}
HARNESS h_ext_events()
{
    TScriptTraits t;
    TFakePort port;
    uint8_t slave = Sym8("slave");
    t.Answers.push_back({slave, SymBytes("pdu", (size_t)Pick("len", 0, (uint64_t)symx_param("hi", 12))), false});
    TEventConfirmationState state, before;
    before.SlaveId = state.SlaveId = Sym8("confirm slave");
    before.Flag = state.Flag = Sym8("confirm flag");
    uint8_t start = Sym8("start");
    TCollector c;
    bool thrown = false, more = false;
    try {
        more = ReadEvents(port, t, milliseconds(50), start, state, c);
    } catch (const Modbus::TErrorBase&) {
        thrown = true;
    }
    symx_assert(t.Requests.size() == 1 && t.Requests[0].first == 0xFD && !t.Match[0], "the request is sent to all devices");
    auto& r = t.Requests[0].second;
    symx_assert(r.size() == 6 && r[0] == 0x46 && r[1] == 0x10 && r[2] == start && r[4] == before.SlaveId && r[5] == before.Flag, "the request confirms the previous packet");
    CheckEventsAnswer(t.Answers[0].Pdu, slave, before, state, c, thrown, more);
}
// regular packets with events of every size
HARNESS h_ext_events_regular()
{
    TScriptTraits t;
    TFakePort port;
    uint8_t slave = Sym8("slave");
    std::vector<uint8_t> pdu{0x46, 0x11, Sym8("flag"), 0, 0};
    int n = (int)Pick("events", 0, (uint64_t)symx_param("events", 4));
    pdu[3] = (uint8_t)n;
    for (int i = 0; i < n; ++i) {
        size_t size = (size_t)Pick("size", 0, 2);
        pdu.push_back((uint8_t)size);
        for (size_t k = 0; k < size + 3; ++k)
            pdu.push_back(Sym8("byte"));
    }
    pdu[4] = (uint8_t)(pdu.size() - 5);
    t.Answers.push_back({slave, pdu, false});
    TEventConfirmationState state, before;
    TCollector c;
    bool more = ReadEvents(port, t, milliseconds(50), 0, state, c);
    symx_assert((int)c.Events.size() == n, "every event is delivered once");
    CheckEventsAnswer(pdu, slave, before, state, c, false, more);
}
// the size limit in the request
HARNESS h_ext_events_limit()
{
    TScriptTraits t;
    TFakePort port;
    static const size_t Bits[] = {0, 8, 17, 87, 104};
    port.BitTimeUs = Bits[Pick("bit time", 0, 4)];
    int ms = (int)symx_var("time", 16) - 100;
    t.Answers.push_back({1, {0x46, 0x12}, false});
    TEventConfirmationState state;
    TCollector c;
    ReadEvents(port, t, milliseconds(ms), 0, state, c);
    unsigned limit = t.Requests[0].second[3];
    symx_assert(limit >= 6, "at least one event may be sent");
    symx_assert(limit <= 256 - 8, "the answer fits a packet");
    int64_t us = (int64_t)(limit + 8) * 10 * (int64_t)port.BitTimeUs;
    symx_assert(limit == 6 || us <= (int64_t)ms * 1000, "the answer fits the time unless it is the shortest one");
    symx_reach(limit == 6 ? "least" : limit == 248 ? "most" : "some");
}
// ---- packets with arbitration noise before them
static bool ValidPacket(const uint8_t* p, size_t n)
{
    if (n < 5 || p[0] == 0xff || (p[1] != 0x46 && p[1] != 0x60))
        return false;
    bool size = p[2] == 0x11 ? n >= 8 && n == 8u + p[5] : p[2] == 0x12 || p[2] == 4 ? n == 5 : p[2] == 3 ? n == 10 : false;
    return size && RefModbusCrc(p, n - 2) == (uint16_t)(p[n - 2] << 8 | p[n - 1]);
}
HARNESS h_ext_transaction()
{
    TFakePort port;
    std::vector<uint8_t> bytes;
    int noise = (int)symx_param("noise", -1);
    if (noise >= 0) { // a regular packet after noise
        bytes = SymBytes("noise", (size_t)Pick("noise", 0, (uint64_t)noise));
        size_t at = bytes.size(), size = 0;
        int kind = (int)Pick("kind", 0, 3);
        size_t n = kind == 0 ? 8 + (size = (size_t)Pick("size", 0, (uint64_t)symx_param("size", 6))) : kind == 3 ? 10 : 5;
        std::vector<uint8_t> p;
        if (symx_param("plain", 0)) {
            for (size_t i = 0; i < n; ++i)
                p.push_back((uint8_t)(7 * i + 1));
            p[0] = Sym8("packet slave");
        } else
            p = SymBytes("packet", n);
        bytes.insert(bytes.end(), p.begin(), p.end());
        bytes[at + 1] = SymBool("deprecated") ? 0x60 : 0x46;
        bytes[at + 2] = kind == 0 ? 0x11 : kind == 1 ? 0x12 : kind == 2 ? 4 : 3;
        if (kind == 0)
            bytes[at + 5] = (uint8_t)size;
        uint16_t c = RefModbusCrc(bytes.data() + at, n - 2);
        bytes[at + n - 2] = (uint8_t)(c >> 8);
        bytes[at + n - 1] = (uint8_t)c;
    } else
        bytes = SymBytes("answer", (size_t)Pick("len", 1, (uint64_t)symx_param("hi", 8)));
    port.Answers.push_back(bytes);
    port.Chunk = (size_t)symx_param("chunk", 0);
    TModbusRTUWithArbitrationTraits t;
    std::vector<uint8_t> request{0x46, 0x10, 1, 2, 3, 4};
    bool match = SymBool("match"), thrown = false, mismatch = false;
    uint8_t slave = Sym8("slave");
    Modbus::TReadResult res;
    try {
        res = t.Transaction(port, slave, request, 288, milliseconds(5), milliseconds(5), match);
    } catch (const Modbus::TMalformedResponseError&) {
        thrown = true;
    } catch (const Modbus::TUnexpectedResponseError&) {
        mismatch = true;
    }
    symx_assert(port.Sent.size() == 1 && port.Sent[0].size() == 9 && port.Sent[0][0] == slave, "one request");
    for (size_t i = 0; i < 6; ++i)
        symx_assert(port.Sent[0][i + 1] == request[i], "with its data");
    uint16_t crc = RefModbusCrc(port.Sent[0].data(), 7);
    symx_assert(port.Sent[0][7] == (uint8_t)(crc >> 8) && port.Sent[0][8] == (uint8_t)crc, "with its checksum");
    auto& d = port.Delivered[0];
    size_t at = 0;
    while (at < d.size() && !ValidPacket(d.data() + at, d.size() - at))
        ++at;
    if (at == d.size()) {
        symx_assert(thrown, "noise without a valid packet is an error");
        symx_reach("noise");
    } else if (match && d[at] != slave) {
        symx_assert(mismatch, "an answer of another device is an error");
        symx_reach("mismatch");
    } else {
        symx_assert(!thrown && !mismatch, "a valid packet is accepted");
        symx_assert(res.SlaveId == d[at] && res.Pdu == std::vector<uint8_t>(d.begin() + at + 1, d.end() - 2), "the packet is taken as it is");
        symx_reach(at ? "after noise" : "packet");
    }
}
// ---- C22
struct TReg
{
    uint8_t Type;
    uint16_t Addr;
    uint8_t Priority;
};
// a device that decodes a request of enabling by itself
class TEnableServer
{
public:
    std::map<std::pair<unsigned, unsigned>, std::vector<uint8_t>> Asked; // priorities named in requests
    std::map<std::pair<unsigned, unsigned>, uint8_t> Bits;
    unsigned Requests = 0;
    std::vector<uint8_t> operator()(const std::vector<uint8_t>& q)
    {
        ++Requests;
        symx_assert(q.size() >= 3 && q.size() <= 253 && q[0] == 0x46 && q[1] == 0x18, "a request fits a packet");
        symx_assert(q[2] == q.size() - 3, "the length field is right");
        std::vector<uint8_t> a{0x46, 0x18, 0};
        size_t p = 3;
        while (p < q.size()) {
            symx_assert(q.size() - p >= 5, "a record has a type, an address, a count and priorities");
            unsigned type = q[p], addr = q[p + 1] * 256u + q[p + 2], count = q[p + 3];
            symx_assert(count >= 1 && p + 4 + count <= q.size(), "a record has all its priorities");
            uint8_t acc = 0;
            for (unsigned i = 0; i < count; ++i) {
                uint8_t pr = q[p + 4 + i];
                auto key = std::make_pair(type, addr + i);
                Asked[key].push_back(pr);
                symx_assert(pr <= 2, "a priority is known");
                uint8_t bit = pr ? (uint8_t)symx_var("enabled", 1) : 0;
                Bits[key] = bit;
                acc |= (uint8_t)(bit << i % 8);
                if (i % 8 == 7 || i + 1 == count) {
                    a.push_back(acc);
                    acc = 0;
                }
            }
            p += 4 + count;
        }
        a[2] = (uint8_t)(a.size() - 3);
        return a;
    }
};
static void RunEnabler(const std::vector<TReg>& regs, bool holes)
{
    TFakePort port;
    TScriptTraits t;
    TEnableServer server;
    t.Answer = std::ref(server);
    std::map<std::pair<unsigned, unsigned>, std::vector<uint8_t>> seen;
    TEventsEnabler e(
        7, port, t, [&](uint8_t type, uint16_t addr, bool on) { seen[{type, addr}].push_back(on); },
        holes ? TEventsEnabler::DISABLE_EVENTS_IN_HOLES : TEventsEnabler::NO_HOLES);
    for (auto& r: regs)
        e.AddRegister(r.Addr, (TEventType)r.Type, (TEventPriority)r.Priority);
    symx_assert(e.HasEventsToSetup() == !regs.empty(), "there is something to set up");
    e.SendRequests();
    for (auto& r: t.Requests)
        symx_assert(r.first == 7, "requests are sent to the device");
    std::map<std::pair<unsigned, unsigned>, uint8_t> want;
    for (auto& r: regs)
        want.emplace(std::make_pair((unsigned)r.Type, (unsigned)r.Addr), r.Priority);
    for (auto& w: want) {
        auto it = server.Asked.find(w.first);
        symx_assert(it != server.Asked.end() && it->second.size() == 1, "every register is named exactly once");
        bool ok = false;
        for (auto& r: regs)
            ok |= r.Type == w.first.first && r.Addr == w.first.second && r.Priority == it->second[0];
        symx_assert(ok, "with its priority");
        auto s = seen.find(w.first);
        symx_assert(s != seen.end() && s->second.size() == 1, "every register is reported exactly once");
        symx_assert(s->second[0] == (server.Bits[w.first] != 0), "as enabled or not according to its bit");
    }
    for (auto& a: server.Asked)
        if (!want.count(a.first))
            symx_assert(holes && a.second.size() == 1 && a.second[0] == 0, "other registers are only named as disabled in holes");
    for (auto& s: seen)
        symx_assert(server.Asked.count(s.first), "nothing else is reported");
    symx_reach(server.Requests > 1 ? "several" : server.Requests ? "one" : "none");
    symx_observe("requests", server.Requests);
}
HARNESS h_ext_enable()
{
    std::vector<TReg> regs;
    int n = (int)Pick("n", 0, (uint64_t)symx_param("n", 3));
    uint16_t addr = symx_param("base", 100);
    for (int i = 0; i < n; ++i) {
        addr += (uint16_t)Pick("delta", 0, (uint64_t)symx_param("deltas", 4));
        regs.push_back({(uint8_t)(1 + Pick("type", 0, 1)), addr, (uint8_t)symx_param("priorities", 2) ? (uint8_t)Pick("priority", 0, (uint64_t)symx_param("priorities", 2)) : (uint8_t)1});
    }
    if (SymBool("reversed"))
        std::reverse(regs.begin(), regs.end());
    RunEnabler(regs, SymBool("holes"));
}
// enough registers for several requests
HARNESS h_ext_enable_many()
{
    std::vector<TReg> regs;
    int n = (int)symx_param("n", 60);
    unsigned step = (unsigned)Pick("step", 1, 7), types = (unsigned)Pick("types", 1, 2), off = (unsigned)Pick("offset", 0, (uint64_t)symx_param("offsets", 3));
    for (int i = 0; i < n; ++i)
        regs.push_back({(uint8_t)(1 + i % types), (uint16_t)(off + i / types * step), (uint8_t)(1 + i % 2)});
    for (unsigned i = 0; i < off; ++i) // shift the boundary of packets
        regs.push_back({4, (uint16_t)(100 + 50 * i), 1});
    RunEnabler(regs, SymBool("holes"));
}
HARNESS h_ext_enable_raw()
{
    TFakePort port;
    TScriptTraits t;
    std::vector<uint8_t> a = SymBytes("answer", (size_t)Pick("len", 0, (uint64_t)symx_param("hi", 7)));
    t.Answer = [&](const std::vector<uint8_t>&) { return a; };
    std::vector<std::pair<unsigned, bool>> seen;
    TEventsEnabler e(7, port, t, [&](uint8_t type, uint16_t addr, bool on) { seen.emplace_back(type * 65536u + addr, on); });
    int n = (int)Pick("n", 1, 2);
    static const int Count[] = {1, 10};
    int per = Count[Pick("registers", 0, 1)];
    for (int i = 0; i < n; ++i)
        for (int k = 0; k < per; ++k)
            e.AddRegister((uint16_t)(10 + 30 * i + k), TEventType::COIL, TEventPriority::HIGH);
    bool thrown = false;
    try {
        e.SendRequests();
    } catch (const Modbus::TErrorBase&) {
        thrown = true;
    }
    size_t need = n * ((per + 7) / 8);
    bool exception = a.size() == 2 && (a[0] & 0x80);
    bool good = a.size() >= 3 && a[1] == 0x18 && a.size() == 3u + a[2] && a[2] >= need;
    if (good && a[2] == need) {
        symx_assert(!thrown && seen.size() == (size_t)n * per, "a regular answer is accepted");
        for (int i = 0; i < n; ++i)
            for (int k = 0; k < per; ++k) {
                auto& s = seen[i * per + k];
                symx_assert(s.first == 65536u + 10 + 30 * i + k && s.second == ((a[3 + i * ((per + 7) / 8) + k / 8] >> k % 8 & 1) != 0), "every register is reported by its bit");
            }
        symx_reach("good");
    } else if (a.size() < 3u + need || a[1] != 0x18 || a[2] < need) {
        symx_assert(thrown, "a short or inconsistent answer is rejected");
        symx_reach(exception ? "exception" : "bad");
    }
}
// ---- C23
HARNESS h_ext_scan()
{
    TFakePort port;
    TScriptTraits t;
    int n = (int)symx_param("n", 3);
    bool deprecated = SymBool("deprecated");
    uint8_t cmd = deprecated ? 0x60 : 0x46;
    for (int i = 0; i < n; ++i) {
        int kind = (int)Pick("kind", 0, 3); // found, end, anything, silence
        TScriptTraits::TAnswer a{0xFD, {}, kind == 3};
        if (kind == 0) {
            a.Pdu = SymBytes("device", 7);
            a.Pdu[0] = cmd;
            a.Pdu[1] = 3;
        } else if (kind == 1)
            a.Pdu = {cmd, 4};
        else if (kind == 2)
            a.Pdu = SymBytes("answer", (size_t)Pick("len", 0, (uint64_t)symx_param("hi", 8)));
        t.Answers.push_back(a);
        if (kind)
            break;
    }
    std::vector<TScannedDevice> found;
    bool malformed = false, timeout = false;
    try {
        Scan(port, t, deprecated ? TModbusExtCommand::DEPRECATED : TModbusExtCommand::ACTUAL, found);
    } catch (const Modbus::TErrorBase&) {
        malformed = true;
    } catch (const TResponseTimeoutException&) {
        timeout = true;
    }
    size_t k = 0;
    bool end = false;
    for (size_t i = 0; i <= t.Answers.size() && !end; ++i) {
        symx_assert(i < t.Requests.size(), "the scan goes on until its end");
        symx_assert(t.Requests[i].first == 0xFD && t.Requests[i].second == std::vector<uint8_t>({cmd, (uint8_t)(i ? 2 : 1)}), "the scan is started once and then continued");
        bool silent = i == t.Answers.size() || t.Answers[i].Timeout;
        if (silent) {
            symx_assert(timeout == (i > 0) && !malformed, "silence at the start means that there are no devices, later it is an error");
            symx_reach("silence");
            end = true;
            break;
        }
        auto& p = t.Answers[i].Pdu;
        if (p.size() >= 7 && p[1] == 3) {
            symx_assert(k < found.size(), "a device that answered is found");
            symx_assert(found[k].SlaveId == p[6] && found[k].Sn == ((uint32_t)p[2] << 24 | (uint32_t)p[3] << 16 | (uint32_t)p[4] << 8 | p[5]), "with its serial number and slave id");
            ++k;
        } else {
            end = true;
            bool regular = p.size() >= 2 && p[1] == 4;
            symx_assert(malformed == !regular && !timeout, "the end of the scan is regular, anything else is an error");
            symx_reach(regular ? "end" : "malformed");
            symx_assert(t.Requests.size() == i + 1, "nothing is sent after the end");
        }
    }
    symx_assert(k == found.size(), "no other devices are found");
    if (k > 1)
        symx_reach("several");
}
// addressing by serial number
HARNESS h_ext_sn()
{
    auto base = std::make_unique<TScriptTraits>();
    auto& t = *base;
    TModbusTraits traits(std::move(base));
    static const uint32_t Sns[] = {0, 0x00012345, 0xfe80a1b2};
    uint32_t sn = symx_param("anysn", 0) ? Sym32("sn") : Sns[Pick("sn", 0, 2)];
    traits.SetSn(sn);
    bool deprecated = SymBool("deprecated");
    uint8_t cmd = deprecated ? 0x60 : 0x46;
    traits.SetModbusExtCommand(deprecated ? TModbusExtCommand::DEPRECATED : TModbusExtCommand::ACTUAL);
    auto pdu = SymBytes("request", (size_t)Pick("request len", 0, 3));
    uint8_t from = Sym8("slave");
    t.Answers.push_back({from, SymBytes("answer", (size_t)Pick("len", (uint64_t)symx_param("lo", 0), (uint64_t)symx_param("hi", 9))), false});
    TFakePort port;
    bool thrown = false;
    Modbus::TReadResult res;
    try {
        res = traits.Transaction(port, 5, pdu, 4, milliseconds(1), milliseconds(1));
    } catch (const Modbus::TErrorBase&) {
        thrown = true;
    }
    auto& q = t.Requests[0].second;
    symx_assert(t.Requests.size() == 1 && t.Requests[0].first == 0xFD && t.Expected == 10 && q.size() == 6 + pdu.size(), "one request to the broadcast address");
    symx_assert(q[0] == cmd && q[1] == 8, "an emulation request");
    for (int i = 0; i < 4; ++i)
        symx_assert(q[2 + i] == (uint8_t)(sn >> (24 - 8 * i)), "with the serial number");
    for (size_t i = 0; i < pdu.size(); ++i)
        symx_assert(q[6 + i] == pdu[i], "and the standard request");
    auto& a = t.Answers[0].Pdu;
    bool good = a.size() >= 6 && a[0] == cmd && a[1] == 9;
    for (int i = 0; good && i < 4; ++i)
        good = a[2 + i] == (uint8_t)(sn >> (24 - 8 * i));
    symx_assert(thrown == !good, "only an answer with the same serial number is accepted");
    if (good) {
        symx_assert(res.SlaveId == from && res.Pdu == std::vector<uint8_t>(a.begin() + 6, a.end()), "the standard answer is returned");
        symx_reach("good");
    } else
        symx_reach("bad");
}
