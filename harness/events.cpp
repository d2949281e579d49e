// C56 events: the real events reader, enabler and Modbus framing with an emulated Fast Modbus device behind a gateway
#include "devices/modbus_device.h"
#include "fakeport.h"
#include "serial_client.h"
#include "serial_client_events_reader.h"
#include "symx.h"
#include <algorithm>
#include <map>
using namespace std::chrono;
static const int64_t MS = 1000000;
typedef TRegisterConfig::TSporadicMode TMode;
class TNamedProtocol: public IProtocol
{
public:
    TNamedProtocol(): IProtocol("modbus", Modbus::REG_HOLDING == 0 ? TRegisterTypes{{Modbus::REG_HOLDING, "holding", "value", U16}} : TRegisterTypes{{Modbus::REG_HOLDING, "holding", "value", U16}, {Modbus::REG_COIL, "coil", "switch", U8}, {Modbus::REG_INPUT, "input", "value", U16, true}})
    {}
    bool IsSameSlaveId(const std::string& id1, const std::string& id2) const override
    {
        return id1 == id2;
    }
    bool IsModbus() const override
    {
        return true;
    }
};
typedef std::vector<uint8_t> TBytes;
struct TEventsBench
{
    std::shared_ptr<TFakePort> Base = std::make_shared<TFakePort>();
    TFeaturePort Port;
    std::vector<std::shared_ptr<TModbusDevice>> Devs;
    std::vector<PRegister> Regs;
    std::unique_ptr<TSerialClientEventsReader> Reader;
    std::map<std::pair<unsigned, unsigned>, uint8_t> Asked, Accepted; // by type and address
    std::vector<std::pair<unsigned, std::pair<unsigned, unsigned>>> Disabled; // slave, type, address named with priority 0
    std::vector<uint8_t> EnabledSlaves; // who was asked
    std::function<int(unsigned)> EnableOutcome = [](unsigned) { return 0; }; // 0 answer, 1 exception, 2 silence, 3 broken
    std::function<TBytes(const TBytes&)> Events;                               // answers a request for events, with the unit; empty: silence
    std::function<TBytes(unsigned, const TBytes&)> Other; // answers other requests
    bool AllAccepted = false;
    std::vector<PRegister> Called;
    TEventsBench(bool gateway = true, size_t maxErrors = 2): Port(Base, true, gateway), Reader(new TSerialClientEventsReader(maxErrors))
    {
        Base->Answer = [this](const TBytes& q) {
            symx_assert(q.size() >= 8, "a request is a complete frame");
            TBytes pdu(q.begin() + 7, q.end());
            TBytes a;
            uint8_t unit = q[6];
            if (pdu.size() >= 2 && pdu[0] == 0x46 && pdu[1] == 0x18)
                a = Enable(unit, pdu);
            else if (pdu.size() >= 2 && pdu[0] == 0x46 && pdu[1] == 0x10) {
                symx_assert(unit == 0xfd, "events are requested from all devices");
                a = Events(pdu);
                if (!a.empty()) {
                    unit = a[0];
                    a.erase(a.begin());
                }
            } else if (Other)
                a = Other(unit, pdu);
            else
                symx_fail("only events are set up and read");
            if (a.empty())
                return TBytes();
            TBytes f(q.begin(), q.begin() + 4);
            f.push_back(0);
            f.push_back((uint8_t)(a.size() + 1));
            f.push_back(unit);
            f.insert(f.end(), a.begin(), a.end());
            return f;
        };
    }
    TBytes Enable(uint8_t unit, const TBytes& q)
    {
        EnabledSlaves.push_back(unit);
        TBytes a{0x46, 0x18, 0};
        int o = EnableOutcome(unit);
        size_t p = 3;
        while (p < q.size()) {
            unsigned type = q[p], addr = q[p + 1] * 256u + q[p + 2], count = q[p + 3];
            uint8_t acc = 0;
            for (unsigned i = 0; i < count; ++i) {
                uint8_t pr = q[p + 4 + i];
                auto key = std::make_pair(type, addr + i);
                if (!pr)
                    Disabled.push_back({unit, key});
                else {
                    Asked[key] = pr;
                    Accepted[key] = o == 0 && (AllAccepted || Pick("accepted", 0, 1));
                    acc |= (uint8_t)(Accepted[key] << i % 8);
                }
                if (i % 8 == 7 || i + 1 == count) {
                    a.push_back(acc);
                    acc = 0;
                }
            }
            p += 4 + count;
        }
        a[2] = (uint8_t)(a.size() - 3);
        if (o == 1)
            return {0xc6, 1};
        if (o == 2)
            return {};
        if (o == 3)
            return {0x46, 0x19, 0, 0, 0};
        return a;
    }
    void AddDevice(int slave)
    {
        static TNamedProtocol protocol;
        TModbusDeviceConfig c;
        c.CommonConfig = std::make_shared<TDeviceConfig>("dev", std::to_string(slave), "modbus");
        c.CommonConfig->DeviceTimeout = milliseconds(0);
        c.CommonConfig->DeviceMaxFailCycles = 1;
        c.EnableWbContinuousRead = false;
        Devs.push_back(std::make_shared<TModbusDevice>(std::make_unique<Modbus::TModbusTCPTraits>(), c, &protocol));
        Devs.back()->SetSporadicOnly(false);
    }
    PRegister AddReg(int dev, int type, uint32_t addr, TMode mode, RegisterFormat format = U16, uint32_t offset = 0, uint32_t width = 0)
    {
        auto rc = TRegisterConfig::Create(type, addr, format, 1, 0, 0, mode, false, "", EWordOrder::BigEndian, EByteOrder::BigEndian, offset, width);
        Regs.push_back(Devs[dev]->AddRegister(rc));
        return Regs.back();
    }
    void Start()
    {
        std::list<PSerialDevice> l(Devs.begin(), Devs.end());
        Reader->SetDevices(l);
    }
    void Read(int64_t ms = 100)
    {
        Called.clear();
        Reader->ReadEvents(Port, milliseconds(ms), [this](PRegister r) { Called.push_back(r); }, steady_clock::now);
    }
    size_t Calls(const PRegister& r)
    {
        return (size_t)std::count(Called.begin(), Called.end(), r);
    }
    // as after a successful enabling
    void EnableAll()
    {
        EnableOutcome = [](unsigned) { return 0; };
        for (auto& d: Devs)
            Reader->EnableEvents(d, Port);
    }
};
static unsigned EventType(const PRegister& r)
{
    switch (r->GetConfig()->Type) {
        case Modbus::REG_COIL: return 1;
        case Modbus::REG_DISCRETE: return 2;
        case Modbus::REG_INPUT: return 4;
        default: return 3;
    }
}
HARNESS h_events_enable()
{
    bool gateway = Pick("gateway", 0, 1);
    TEventsBench b(gateway);
    b.AddDevice(5);
    b.AddDevice(6);
    int n = (int)symx_param("regs", 3);
    static const TMode modes[] = {TMode::DISABLED, TMode::ONLY_EVENTS, TMode::EVENTS_AND_POLLING};
    for (int i = 0; i < n; ++i) {
        int kind = (int)Pick("kind", 0, 2);
        // the second may share the address of the first
        uint32_t addr = 20 + (i == 1 && Pick("shared", 0, 1) ? 0 : 3 * i);
        int type = kind == 0 ? Modbus::REG_HOLDING : kind == 1 ? Modbus::REG_INPUT : Modbus::REG_COIL;
        auto r = b.AddReg(0, type, addr, modes[Pick("mode", 0, 2)], kind == 2 ? U8 : U16);
        if (Pick("unsupported", 0, symx_param("unsupported", 0)))
            r->SetSupported(false);
        if (Pick("high", 0, symx_param("high", 0)))
            r->GetConfig()->ReadPeriod = milliseconds(100);
    }
    bool sporadicOnly = symx_param("sporadic", 0);
    b.Devs[0]->SetSporadicOnly(sporadicOnly);
    auto other = b.AddReg(1, Modbus::REG_HOLDING, 20, TMode::ONLY_EVENTS);
    b.Start();
    bool again = symx_param("again", 0) && gateway; // the device was set up before
    if (again) {
        b.AllAccepted = true;
        b.Reader->EnableEvents(b.Devs[0], b.Port);
        b.AllAccepted = false;
        b.Asked.clear();
        b.Accepted.clear();
        b.Disabled.clear();
        b.Base->Sent.clear();
    }
    // 4: the port fails
    int outcome = (int)Pick("outcome", 0, 4);
    b.EnableOutcome = [&](unsigned unit) {
        symx_assert(unit == 5, "only the device itself is asked");
        if (outcome == 4)
            throw TSerialDeviceException("port failure");
        return outcome;
    };
    bool thrown = false;
    try {
        b.Reader->EnableEvents(b.Devs[0], b.Port);
    } catch (const TSerialDeviceException&) {
        thrown = true;
    }
    bool any = false, wanted = false;
    size_t backToPolling = 0;
    for (int i = 0; i < n; ++i) {
        auto& r = b.Regs[i];
        auto key = std::make_pair(EventType(r), GetUint32RegisterAddress(r->GetConfig()->GetAddress()));
        bool asked = b.Asked.count(key), accepted = asked && b.Accepted[key];
        bool sporadic = r->GetConfig()->SporadicMode != TMode::DISABLED;
        // registers of the same address share their event
        std::vector<PRegister> same;
        for (int j = 0; j < n; ++j)
            if (b.Regs[j]->GetConfig()->SporadicMode != TMode::DISABLED && EventType(b.Regs[j]) == key.first && GetUint32RegisterAddress(b.Regs[j]->GetConfig()->GetAddress()) == key.second)
                same.push_back(b.Regs[j]);
        if (!same.empty() && same[0]->IsSupported())
            wanted = true;
        if (!same.empty() && same[0]->IsSupported() && gateway && outcome != 4) {
            symx_assert(asked, "events of every register that has them are asked for");
            symx_assert(b.Asked[key] == (same[0]->GetConfig()->ReadPeriod ? 2 : 1), "with the priority of the register");
        }
        if (same.empty() || !gateway)
            symx_assert(!asked, "no other events are asked for");
        bool only = r->GetConfig()->SporadicMode == TMode::ONLY_EVENTS;
        if (sporadic && r->GetConfig()->ReadPeriod)
            symx_assert(!r->GetConfig()->ReadRateLimit, "a read period that was configured stays");
        if (again && !(sporadic && accepted && outcome == 0) && !(asked && outcome == 0))
            symx_reach("unanswered"); // how it is read is decided by the answers that came before
        else if (sporadic && accepted && outcome == 0) {
            any = true;
            symx_assert(r->GetAvailable() == TRegisterAvailability::AVAILABLE, "a register whose events are enabled is available");
            if (!sporadicOnly)
                symx_assert(r->IsExcludedFromPolling() == only, "a register is read only by events exactly if it is configured so and the device sends them");
            else if (only && !r->IsExcludedFromPolling()) {
                ++backToPolling;
                symx_assert(r->GetConfig()->ReadPeriod || r->GetConfig()->ReadRateLimit, "the register that is still read is not read too often");
            }
            symx_reach("enabled");
        } else {
            symx_assert(!r->IsExcludedFromPolling(), "a register without events is polled");
            symx_reach("polled");
        }
    }
    if (sporadicOnly) {
        bool anyOnly = false;
        for (int i = 0; i < n; ++i)
            anyOnly |= b.Regs[i]->IsExcludedFromPolling();
        symx_assert(backToPolling <= 1 && (!anyOnly || backToPolling == 1), "of a device with events only, one register is still polled");
    }
    symx_assert(b.Reader->HasDevicesWithEnabledEvents() == any, "events are read exactly if some are enabled");
    if (gateway && wanted && outcome == 0) {
        bool confirmed = false;
        for (auto& x: b.Disabled)
            confirmed |= x == std::make_pair(5u, std::make_pair(15u, 0u));
        symx_assert(confirmed, "the restart of the device is confirmed, it would be reported again otherwise");
    }
    symx_assert(thrown == (gateway && wanted && outcome >= 3), "a broken answer is an error, an old firmware is not");
    if (!gateway)
        symx_assert(b.Base->Sent.empty(), "nothing is sent if the gateway can't pass events");
    symx_assert(!other->IsExcludedFromPolling(), "other devices are not affected");
    // a device that is lost has no events
    b.Devs[0]->SetDisconnected();
    symx_assert(!b.Reader->HasDevicesWithEnabledEvents(), "events of a lost device are not waited for");
    symx_reach("done");
}
// packets of events
HARNESS h_events_read()
{
    TEventsBench b;
    b.AddDevice(5);
    b.AddDevice(6);
    auto word = b.AddReg(0, Modbus::REG_HOLDING, 20, TMode::ONLY_EVENTS);
    auto low = b.AddReg(0, Modbus::REG_INPUT, 30, TMode::ONLY_EVENTS, U16, 0, 4);
    auto high = b.AddReg(0, Modbus::REG_INPUT, 30, TMode::ONLY_EVENTS, U16, 4, 7);
    auto coil = b.AddReg(0, Modbus::REG_COIL, 20, TMode::EVENTS_AND_POLLING, U8);
    auto quad = b.AddReg(1, Modbus::REG_HOLDING, 40, TMode::ONLY_EVENTS, U64);
    auto silent = b.AddReg(1, Modbus::REG_HOLDING, 50, TMode::DISABLED);
    b.Start();
    b.EnableAll();
    if (!b.Reader->HasDevicesWithEnabledEvents())
        return;
    for (auto& a: b.Accepted)
        if (!a.second)
            symx_prune(); // decided by h_events_enable
    b.Disabled.clear();
    b.EnabledSlaves.clear();
    for (auto& r: b.Regs)
        r->SetError(TRegister::TError::ReadError);
    struct TExpect
    {
        PRegister Reg;
        uint64_t Value;
    };
    std::vector<TExpect> expect;
    std::vector<std::pair<unsigned, std::pair<unsigned, unsigned>>> unknown;
    bool rebooted[2] = {false, false};
    int packets = (int)symx_param("packets", 1), records = (int)symx_param("records", 2);
    int sent = 0;
    uint8_t confirmSlave = 0, confirmFlag = 0;
    b.Events = [&](const TBytes& q) -> TBytes {
        symx_assert(q.size() == 6 && q[4] == confirmSlave && q[5] == confirmFlag, "the packet before is confirmed");
        symx_assert(q[2] == confirmSlave, "reading goes on with the next device");
        if (sent == packets)
            return {0xfd, 0x46, 0x12};
        ++sent;
        uint8_t slave = 5 + (uint8_t)Pick("slave", 0, 2);
        TBytes a{slave, 0x46, 0x11, (uint8_t)(sent % 2), 0, 0};
        for (int i = 0; i < records; ++i) {
            int kind = (int)Pick("event", 0, 6);
            size_t len = kind == 4 ? 8 : kind == 3 ? 1 : 2;
            unsigned type = kind == 2 ? 4 : kind == 3 ? 1 : kind == 5 ? 15 : kind == 6 ? 16 : 3;
            unsigned id = kind == 0 || kind == 3 ? 20 : kind == 1 ? 50 : kind == 2 ? 30 : kind == 4 ? 40 : 0;
            if (kind >= 5)
                len = 0;
            a.push_back((uint8_t)len);
            a.push_back((uint8_t)type);
            a.push_back((uint8_t)(id >> 8));
            a.push_back((uint8_t)id);
            uint64_t v = 0;
            for (size_t k = 0; k < len; ++k) {
                uint8_t d = Sym8("data");
                a.push_back(d);
                v |= (uint64_t)d << 8 * k;
            }
            if (kind == 5) {
                if (slave < 7)
                    rebooted[slave - 5] = true;
            } else if (kind == 6) {
            } else if (slave == 5 && kind == 0)
                expect.push_back({word, v});
            else if (slave == 5 && kind == 2) {
                expect.push_back({low, v & 15});
                expect.push_back({high, v >> 4 & 127});
            } else if (slave == 5 && kind == 3)
                expect.push_back({coil, v});
            else if (slave == 6 && kind == 4)
                expect.push_back({quad, v});
            else
                unknown.push_back({slave, {type, id}});
            a[4]++;
        }
        a[5] = (uint8_t)(a.size() - 6);
        confirmSlave = slave;
        confirmFlag = a[3];
        return a;
    };
    b.Base->ReadTimeUs = 5000;
    b.Read();
    symx_assert(b.Called.size() == expect.size(), "every event is delivered once");
    for (size_t i = 0; i < expect.size(); ++i)
        symx_assert(b.Called[i] == expect[i].Reg || (b.Called[i]->GetConfig()->Type == expect[i].Reg->GetConfig()->Type && b.Calls(expect[i].Reg) >= 1), "to its register");
    for (auto& r: b.Regs) {
        const TExpect* last = nullptr;
        for (auto& e: expect)
            if (e.Reg == r)
                last = &e;
        if (last) {
            symx_assert(r->GetValue() == TRegisterValue(last->Value), "with the bits of the register");
            symx_assert(!r->GetErrorState().test(TRegister::TError::ReadError), "an event removes a reading error");
            symx_reach("event");
        } else
            symx_assert(r->GetValue().GetType() == TRegisterValue::ValueType::Undefined, "other registers do not change");
    }
    for (auto& u: unknown) {
        bool found = false;
        for (auto& d: b.Disabled)
            found |= d == u;
        symx_assert(found, "events nobody asked for are disabled");
        symx_reach("unexpected");
    }
    for (auto& d: b.Disabled) {
        bool found = false;
        for (auto& u: unknown)
            found |= d == u;
        symx_assert(found, "nothing else is disabled");
    }
    for (int i = 0; i < 2; ++i) {
        symx_assert((b.Devs[i]->GetConnectionState() == TDeviceConnectionState::DISCONNECTED) == rebooted[i], "a device that restarted, and no other, is set up again");
        if (rebooted[i])
            symx_reach("restart");
    }
    symx_assert(b.Reader->HasDevicesWithEnabledEvents() == !(rebooted[0] && rebooted[1]), "a restarted device has no events");
    // the next reading begins anew
    confirmSlave = confirmFlag = 0;
    size_t before = b.Base->Sent.size();
    b.Read();
    symx_assert(b.Base->Sent.size() == before + 1 && b.Called.empty(), "there are no more events");
    symx_reach("done");
}
// failures in a row
HARNESS h_events_errors()
{
    size_t limit = 2;
    TEventsBench b(true, limit);
    b.AddDevice(5);
    b.AddDevice(6);
    auto excluded = b.AddReg(0, Modbus::REG_HOLDING, 20, TMode::ONLY_EVENTS);
    auto polled = b.AddReg(0, Modbus::REG_HOLDING, 30, TMode::EVENTS_AND_POLLING);
    auto sporadicOnly = b.AddReg(1, Modbus::REG_HOLDING, 40, TMode::ONLY_EVENTS);
    b.Devs[1]->SetSporadicOnly(true);
    b.AddDevice(7);
    auto dead = b.AddReg(2, Modbus::REG_HOLDING, 50, TMode::ONLY_EVENTS); // of a device that is lost
    auto broken = b.AddReg(0, Modbus::REG_HOLDING, 60, TMode::ONLY_EVENTS); // holds its error value
    broken->GetConfig()->ErrorValue = TRegisterValue(0x7fff);
    excluded->GetConfig()->ErrorValue = TRegisterValue(0x7ffe); // but has another value
    b.Start();
    b.EnableAll();
    for (auto& a: b.Accepted)
        if (!a.second)
            symx_prune();
    broken->SetValue(TRegisterValue(0x7fff));
    b.Devs[2]->SetDisconnected();
    dead->SetError(TRegister::TError::ReadError);
    b.Base->ReadTimeUs = 30000; // four requests per call
    int failures = 0;
    bool error = false;
    std::vector<int> outcomes;
    b.Events = [&](const TBytes&) -> TBytes {
        int o = (int)Pick("answer", 0, 3); // nothing, silence, broken, an event
        outcomes.push_back(o);
        if (o == 0)
            return {0xfd, 0x46, 0x12};
        if (o == 1)
            return {};
        if (o == 2)
            return {5, 0x46, 0x11, 1, 1, 9, 1};
        return {6, 0x46, 0x11, 1, 1, 6, 2, 3, 0, 40, 7, 0};
    };
    int n = (int)symx_param("calls", 2);
    auto check = [&] {
        symx_assert(excluded->GetErrorState().test(TRegister::TError::ReadError) == error, "registers read by events have an error exactly after too many failures in a row");
        symx_assert(dead->GetErrorState().test(TRegister::TError::ReadError), "the error of a lost device stays");
        symx_assert(broken->GetErrorState().test(TRegister::TError::ReadError), "the error of an error value stays");
        symx_assert(!polled->GetErrorState().test(TRegister::TError::ReadError), "polled registers are not affected");
    };
    for (int i = 0; i < n; ++i) {
        if (Pick("closed", 0, 1)) {
            b.Called.clear();
            b.Reader->SetReadErrors([&](PRegister r) { b.Called.push_back(r); });
            symx_assert(b.Calls(excluded) == 1 && b.Calls(sporadicOnly) == 1 && b.Calls(polled) == 0, "errors of a closed port are reported");
            error = true;
            check();
            symx_reach("closed");
        }
        outcomes.clear();
        int64_t start = symx_clock_ns;
        b.Read();
        bool was = error;
        size_t reports = 0;
        for (auto o: outcomes) {
            if (o == 1 || o == 2) {
                if (++failures > (int)limit) {
                    error = true;
                    failures = 0;
                    ++reports;
                }
            } else {
                failures = 0;
                if (error)
                    ++reports;
                error = false;
            }
        }
        symx_assert(!outcomes.empty() && (outcomes.back() == 0 || symx_clock_ns - start >= 100 * MS), "reading goes on until there is nothing more or the time is over");
        symx_assert(b.Calls(excluded) == reports, "errors are reported when they come and go");
        check();
        symx_reach(error ? "error" : was ? "cleared" : "no error");
    }
    symx_reach("done");
}

// the client: events and polling on the same bus
class TMayFail: public TFakePort
{
public:
    bool Fails = false;
    void Open() override
    {
        if (Fails)
            throw TSerialDeviceException("can't open");
        TFakePort::Open();
    }
};
HARNESS h_client_events()
{
    TEventsBench b;
    auto base = std::make_shared<TMayFail>();
    base->Answer = b.Base->Answer;
    b.Base = base;
    auto port = std::make_shared<TFeaturePort>(base, true, true);
    static const size_t speeds[] = {10, 30, 104, 833}; // us per bit: 115200 .. 1200
    static const int64_t periods[] = {50, 100, 200, 200};
    int speed = (int)Pick("speed", symx_param("minspeed", 0), 3);
    base->BitTimeUs = speeds[speed];
    int64_t period = periods[speed] * MS;
    static const int times[] = {8, 20, 60};
    bool fine = symx_param("fine", 0); // any duration up to 60 ms
    int64_t pollMs = fine ? (int64_t)Pick("poll", 8, 60) : times[Pick("poll", 0, 2)], eventMs = fine ? (int64_t)Pick("events", 8, 60) : times[Pick("events", 0, 2)];
    b.AddDevice(5);
    auto onlyEvents = b.AddReg(0, Modbus::REG_HOLDING, 20, TMode::ONLY_EVENTS);
    auto polled = b.AddReg(0, Modbus::REG_HOLDING, 30, TMode::DISABLED);
    b.AllAccepted = true;
    b.Devs[0]->DeviceConfig()->DeviceTimeout = seconds(100);
    std::vector<int64_t> polls, reads;
    bool silent = symx_param("silent", 0);
    int firstReads = 0;
    b.Other = [&](unsigned unit, const TBytes& q) -> TBytes {
        symx_assert(base->IsOpenFlag, "a closed port is not used");
        symx_assert(unit == 5, "only the device is asked");
        if (q != TBytes({3, 0, 30, 0, 1}) && q != TBytes({3, 0, 20, 0, 1})) {
            base->ReadTimeUs = 2000;
            return {(uint8_t)(q[0] | 0x80), 2}; // it has no firmware version and so on
        }
        symx_assert(q[2] == 30 || !onlyEvents->IsExcludedFromPolling() || firstReads++ == 0, "only registers without events are read, and the one selected before they were enabled");
        if (q[2] == 30)
            polls.push_back(symx_clock_ns);
        base->ReadTimeUs = pollMs * 1000;
        if (silent && q[2] == 30)
            return {};
        return {3, 2, 0, 7};
    };
    bool event = false;
    b.Events = [&](const TBytes&) -> TBytes {
        symx_assert(base->IsOpenFlag, "a closed port is not used");
        base->ReadTimeUs = eventMs * 1000;
        if (!event) {
            event = true;
            reads.push_back(symx_clock_ns);
            return {5, 0x46, 0x11, 1, 1, 6, 2, 3, 0, 20, 9, 0};
        }
        event = false;
        return {0xfd, 0x46, 0x12};
    };
    TPortOpenCloseLogic::TSettings s;
    s.MaxFailTime = milliseconds(-1);
    TSerialClient client(port, s, steady_clock::now, 1000);
    client.AddDevice(b.Devs[0]);
    size_t values[2] = {}, errors[2] = {};
    client.SetReadCallback([&](PRegister r) { ++values[r == polled]; });
    client.SetErrorCallback([&](PRegister r) {
        symx_assert(r->GetErrorState().test(TRegister::ReadError) || r->GetErrorState().test(TRegister::WriteError), "an error is reported only if there is one");
        ++errors[r == polled];
    });
    bool writeError = symx_param("write", 0);
    int64_t begin = symx_clock_ns, end = begin + (int64_t)symx_param("ms", 1600) * MS;
    for (int i = 0; i < 400 && symx_choose(symx_clock_ns < end); ++i) {
        event = false;
        if (writeError)
            polled->SetError(TRegister::WriteError);
        client.Cycle();
    }
    // one request at least is over, and all that a cycle may take besides: opening of a session, waiting
    int64_t wait = 100 * MS, slack = wait + (2 * eventMs + pollMs + 10) * MS;
    symx_assert(!polls.empty() && !reads.empty(), "events and registers are read");
    symx_assert(onlyEvents->IsExcludedFromPolling(), "the register sends events");
    for (size_t i = 1; i < reads.size(); ++i) {
        symx_assert(reads[i] - reads[i - 1] >= period, "events are not read more often than the period");
        symx_assert(reads[i] - reads[i - 1] <= period + slack, "events are read in every period");
    }
    for (size_t i = 1; i < polls.size(); ++i)
        symx_assert(polls[i] - polls[i - 1] <= 500 * MS + 2 * period + 2 * slack, "polling is not starved by events");
    symx_assert(symx_clock_ns - polls.back() <= 500 * MS + 2 * period + 2 * slack, "polling is never given up");
    symx_assert(symx_clock_ns - reads.back() <= period + slack, "events are never given up");
    symx_assert(values[0] + errors[0] == reads.size() + firstReads && errors[0] == 0, "every event is reported once");
    if (silent || writeError)
        symx_assert(errors[1] >= polls.size() - 1 && errors[1] > 0 && values[1] == 0, "errors of the polled register are reported");
    else
        symx_assert(values[1] == polls.size() && errors[1] == 0, "every value that is read is reported");
    symx_reach(speed == 3 ? "slow" : "fast");
    if (symx_param("closed", 0)) {
        base->Fails = true;
        base->IsOpenFlag = false;
        size_t asked = base->Sent.size();
        client.Cycle();
        symx_assert(base->Sent.size() == asked, "a closed port is not used");
        symx_assert(onlyEvents->GetErrorState().test(TRegister::ReadError) && errors[0] >= 1, "registers that are read by events have errors while the port is closed");
        symx_reach("closed");
        base->Fails = false;
        base->IsOpenFlag = true;
        size_t before = values[0];
        for (int i = 0; i < 12; ++i) {
            event = false;
            client.Cycle();
        }
        symx_assert(values[0] > before && !onlyEvents->GetErrorState().test(TRegister::ReadError), "and no errors when events come again");
        symx_reach("reopened");
    }
}
