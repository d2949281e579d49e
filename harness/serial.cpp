// C39 device connection state, C40 port reopening, C41 pending register writes (one register)
#include "fakeport.h"
#include "port/port.h"
#include "register_handler.h"
#include "serial_device.h"
#include "symx.h"
using namespace std::chrono;
static steady_clock::time_point Now()
{
    return steady_clock::time_point(nanoseconds(symx_clock_ns));
}
class TFlakyPort: public TFakePort
{
public:
    bool FailOpen = false;
    int OpenTries = 0;
    void Open() override
    {
        ++OpenTries;
        if (FailOpen)
            throw TSerialDeviceException("can't open");
        TFakePort::Open();
    }
};
// ---- C40
HARNESS h_port_reopen()
{
    static const int MaxTimes[] = {0, 1000, 5000, -1};
    static const int MaxCycles[] = {0, 1, 2, 3, -1};
    int mt = MaxTimes[Pick("max fail time", 0, 3)], mc = MaxCycles[Pick("max fail cycles", 0, 4)];
    TPortOpenCloseLogic::TSettings s;
    s.MaxFailTime = milliseconds(mt);
    s.ConnectionMaxFailCycles = mc;
    int64_t reopen = 5000;
    s.ReopenTimeout = milliseconds(reopen);
    auto port = std::make_shared<TFlakyPort>();
    port->IsOpenFlag = false;
    TPortOpenCloseLogic logic(s, Now);
    // the model: times in ms
    int64_t now = symx_clock_ns, lastOk = 0, failedOpen = 0;
    bool openFailed = false;
    int64_t fails = 0; // consecutive failed cycles since the last success or opening
    int n = (int)symx_param("steps", 4);
    bool closedOnce = false;
    for (int i = 0; i < n; ++i) {
        int64_t d = (int64_t)symx_var("step", 24) * 1000000;
        symx_clock_ns += d;
        now = symx_clock_ns;
        bool wasOpen = port->IsOpen();
        int tries = port->OpenTries;
        port->FailOpen = wasOpen ? false : SymBool("open fails");
        bool thrown = false;
        try {
            logic.OpenIfAllowed(port);
        } catch (const TSerialDeviceException&) {
            thrown = true;
        }
        if (wasOpen) {
            symx_assert(port->OpenTries == tries && !thrown && port->IsOpen(), "an open port is left alone");
        } else {
            bool tried = port->OpenTries != tries;
            symx_assert(port->OpenTries <= tries + 1, "one attempt to open per cycle");
            if (openFailed) {
                symx_assert(now >= failedOpen + reopen * 1000000 || !tried, "after a failed attempt the port is not opened again before the documented interval");
                symx_assert(now <= failedOpen + reopen * 1000000 || tried, "the port is opened again once the documented interval has passed");
            } else
                symx_assert(tried, "a closed port is opened at once");
            if (tried) {
                symx_assert(thrown == port->FailOpen, "a failed attempt to open is reported");
                if (thrown) {
                    openFailed = true;
                    failedOpen = now;
                    symx_assert(!port->IsOpen(), "a failed attempt leaves the port closed");
                    symx_reach("open failed");
                } else {
                    openFailed = false;
                    lastOk = now;
                    fails = 0;
                    if (closedOnce)
                        symx_reach("reopened");
                }
            } else
                symx_assert(!thrown, "nothing fails without an attempt");
        }
        bool opened = port->IsOpen();
        int64_t d2 = (int64_t)symx_var("cycle", 22) * 1000000;
        symx_clock_ns += d2;
        now = symx_clock_ns;
        bool failed = SymBool("cycle failed");
        int closes = port->CloseCount;
        logic.CloseIfNeeded(port, failed);
        if (!opened) {
            symx_assert(port->CloseCount == closes && !port->IsOpen(), "a closed port is left alone");
            continue;
        }
        if (failed)
            ++fails;
        else {
            fails = 0;
            lastOk = now;
        }
        bool closed = !port->IsOpen();
        symx_assert(port->CloseCount == closes + closed, "the port is closed at most once");
        if (mt < 0 || mc < 0)
            symx_assert(!closed, "-1 disables resetting the connection");
        else if (!failed)
            symx_assert(!closed, "a successful cycle never resets the connection");
        else {
            int64_t el = now - lastOk, lim = (int64_t)mt * 1000000;
            symx_assert(!closed || (el >= lim && fails >= mc), "the connection is reset only when both the time and the number of failed cycles are reached");
            symx_assert(closed || el <= lim || fails < mc, "the connection is reset when both the time and the number of failed cycles are reached");
        }
        if (closed) {
            closedOnce = true;
            symx_reach("closed");
        }
    }
    symx_observe("tries", port->OpenTries);
}
class TMinimalPort: public TFakePort
{
public:
    std::vector<int> Log;
    TSerialPortConnectionSettings Applied;
    void ApplySerialPortSettings(const TSerialPortConnectionSettings& s) override
    {
        Log.push_back(1);
        Applied = s;
    }
    void ResetSerialPortSettings() override
    {
        Log.push_back(2);
    }
    void Open() override
    {
        Log.push_back(3);
        TFakePort::Open();
    }
    void Close() override
    {
        Log.push_back(4);
        TFakePort::Close();
    }
};
HARNESS h_port_misc()
{
    auto port = std::make_shared<TMinimalPort>();
    int64_t a = (int64_t)symx_var("minimal", 32) - 1000, b = (int64_t)symx_var("call", 32) - 1000;
    bool set = SymBool("set minimal");
    if (set)
        port->SetMinimalResponseTimeout(microseconds(a));
    int64_t m = set ? a : -1000; // RESPONSE_TIMEOUT_NOT_SET is -1 ms
    int64_t r = port->CalcResponseTimeout(microseconds(b)).count();
    int64_t mx = m > b ? m : b;
    symx_assert(mx < 0 ? r == 500000 : r == mx, "the response timeout is the greater of the two, or the default if none is set");
    port->IsOpenFlag = SymBool("open");
    bool open = port->IsOpenFlag;
    port->Reopen();
    symx_assert(port->IsOpen() == open, "reopening keeps a closed port closed and an open one open");
    symx_assert(open ? port->Log == std::vector<int>({4, 3}) : port->Log.empty(), "reopening closes and opens the port");
    port->Log.clear();
    TSerialPortConnectionSettings s(4800, 'E', 7, 2);
    bool thrown = SymBool("thrown");
    try {
        TSerialPortSettingsGuard g(port, s);
        symx_assert(port->Log == std::vector<int>({1}), "settings are applied for the scope");
        symx_assert(port->Applied.BaudRate == 4800 && port->Applied.Parity == 'E' && port->Applied.DataBits == 7 && port->Applied.StopBits == 2, "the given settings are applied");
        if (thrown)
            throw TSerialDeviceTransientErrorException("x");
    } catch (const TSerialDeviceException&) {
    }
    symx_assert(port->Log == std::vector<int>({1, 2}), "settings are restored when the scope ends, also by an exception");
    symx_reach("done");
}
// ---- C39
enum TOutcome
{
    OK,
    TRANSIENT,
    OTHER,
    INTERNAL,
    PERMANENT
};
static void Fail(int o)
{
    switch (o) {
        case TRANSIENT: throw TSerialDeviceTransientErrorException("transient");
        case OTHER: throw TSerialDeviceException("other");
        case INTERNAL: throw TSerialDeviceInternalErrorException("internal");
        case PERMANENT: throw TSerialDevicePermanentRegisterException("permanent");
        default: break;
    }
}
class TScriptedDevice: public TSerialDevice
{
public:
    TScriptedDevice(PDeviceConfig c, PProtocol p): TSerialDevice(c, p)
    {}
    std::vector<std::pair<uint32_t, uint64_t>> Writes; // address, value
    std::vector<uint32_t> Reads;
    std::vector<int> Script; // outcomes of the next exchanges
    size_t Next = 0;
    int Prepared = 0;
    std::function<void()> DuringWrite;
    int Take()
    {
        return Next < Script.size() ? Script[Next++] : (int)OK;
    }
    using TSerialDevice::ReadRegisterRange;

protected:
    void PrepareImpl(TPort& port) override
    {
        ++Prepared;
    }
    TRegisterValue ReadRegisterImpl(TPort& port, const TRegisterConfig& reg) override
    {
        uint32_t a = GetUint32RegisterAddress(reg.GetAddress());
        Reads.push_back(a);
        Fail(Take());
        return TRegisterValue(1000 + a);
    }
    void WriteRegisterImpl(TPort& port, const TRegisterConfig& reg, const TRegisterValue& value) override
    {
        Writes.emplace_back(GetUint32RegisterAddress(reg.GetWriteAddress()), value.GetType() == TRegisterValue::ValueType::Integer ? value.Get<uint64_t>() : ~0ull);
        if (DuringWrite)
            DuringWrite();
        Fail(Take());
    }
};
static TRegisterTypes Types = {{0, "reg", "value", U16}, {1, "coil", "switch", U8}};
static PProtocol TestProtocol()
{
    static TUint32SlaveIdProtocol p("test", Types);
    return &p;
}
static std::shared_ptr<TScriptedDevice> MakeDevice(int timeout, int cycles)
{
    auto c = std::make_shared<TDeviceConfig>("dev", "7", "test");
    c->DeviceTimeout = milliseconds(timeout);
    c->DeviceMaxFailCycles = cycles;
    return std::make_shared<TScriptedDevice>(c, TestProtocol());
}
HARNESS h_device_state()
{
    static const int Timeouts[] = {0, 3000, -1};
    static const int Cycles[] = {0, 1, 2, 3, -1};
    int dt = Timeouts[Pick("device timeout", 0, 2)], mc = Cycles[Pick("max fail cycles", 0, 4)];
    bool disabled = dt < 0 || mc < 0;
    auto dev = MakeDevice(dt, mc);
    TFakePort port;
    std::vector<int> calls;
    dev->AddOnConnectionStateChangedCallback([&](PSerialDevice d) {
        symx_assert(d == dev, "the callback names the device");
        calls.push_back((int)d->GetConnectionState());
    });
    auto rc = TRegisterConfig::Create(0, 5);
    auto reg = dev->AddRegister(rc);
    auto sn = TRegisterConfig::Create(0, 6);
    dev->SetSnRegister(sn);
    auto setup = std::make_shared<TDeviceSetupItemConfig>("setup", TRegisterConfig::Create(0, 9), "42");
    bool withSetup = SymBool("has setup");
    if (withSetup)
        dev->AddSetupItem(setup);
    using S = TDeviceConnectionState;
    S state = S::UNKNOWN;
    symx_assert(dev->GetConnectionState() == state, "a new device has an unknown state");
    int64_t lastOk = 0, fails = 0;
    bool everOk = false;
    int n = (int)symx_param("steps", 4);
    for (int i = 0; i < n; ++i) {
        symx_clock_ns += (int64_t)symx_var("step", 23) * 1000000;
        bool simple = symx_param("simple", 0) != 0; // fewer kinds of exchanges, for longer histories
        int op = (int)Pick("op", 0, 3);
        if (simple && op != 0)
            symx_prune();
        S before = state;
        calls.clear();
        dev->Writes.clear();
        dev->Next = 0;
        dev->Prepared = 0;
        int outcome = -1; // of the exchange: 1 device answered, 0 failed, -1 no exchange, 2 not judged
        dev->GetSnRegister()->SetValue(TRegisterValue(77));
        if (op == 0) { // write a register
            int o = (int)Pick("outcome", 0, simple ? 1 : 4);
            dev->Script = {o};
            int got = OK;
            try {
                dev->WriteRegister(port, reg, TRegisterValue(5));
            } catch (const TSerialDevicePermanentRegisterException&) {
                got = PERMANENT;
            } catch (const TSerialDeviceInternalErrorException&) {
                got = INTERNAL;
            } catch (const TSerialDeviceTransientErrorException&) {
                got = TRANSIENT;
            } catch (const TSerialDeviceException&) {
                got = OTHER;
            }
            symx_assert(got == o, "a failed write is reported with its cause");
            symx_assert(dev->Writes.size() == 1 && dev->Writes[0].first == 5 && dev->Writes[0].second == 5, "the value is written to the register");
            outcome = o == OK || o == PERMANENT ? 1 : o == INTERNAL ? 2 : 0;
        } else if (op == 1) { // read one register
            int o = (int)Pick("outcome", 0, 4);
            dev->Script = {o};
            auto range = dev->CreateRegisterRange();
            bool brk = SymBool("break on error"), thrown = false;
            reg->SetAvailable(TRegisterAvailability::UNKNOWN);
            range->RegisterList().push_back(reg);
            try {
                dev->ReadRegisterRange(port, range, brk);
            } catch (const TSerialDeviceException&) {
                thrown = true;
            }
            symx_assert(thrown == (brk && o != OK), "an error stops the reading exactly if asked to");
            symx_assert(reg->GetErrorState().test(TRegister::TError::ReadError) == (o != OK), "the read error is set exactly if the reading failed");
            symx_assert((reg->GetAvailable() == TRegisterAvailability::UNAVAILABLE) == (o == PERMANENT), "a register is unavailable exactly if the device says so");
            if (o == OK)
                symx_assert(reg->GetValue() == TRegisterValue(1005), "the value read is stored");
            outcome = o == TRANSIENT || o == OTHER ? 0 : 1;
        } else if (op == 2) { // open a session
            int o = (int)Pick("outcome", 0, 2);
            dev->Script = {o};
            bool with = SymBool("with setup"), thrown = false;
            try {
                dev->Prepare(port, with ? TDevicePrepareMode::WITH_SETUP_IF_WAS_DISCONNECTED : TDevicePrepareMode::WITHOUT_SETUP);
            } catch (const TSerialDeviceException&) {
                thrown = true;
            }
            bool write = withSetup && with && before != S::CONNECTED;
            symx_assert(dev->Prepared == 1, "the session is opened");
            symx_assert(dev->Writes.size() == (write ? 1 : 0), "setup registers are written exactly when a device that is not connected is accessed");
            symx_assert(thrown == (write && o != OK), "a failed setup write is reported");
            if (write) {
                symx_assert(dev->Writes[0].first == 9 && dev->Writes[0].second == 42, "the setup value is written");
                outcome = o == OK ? 1 : 0;
                symx_reach("setup");
            }
        } else {
            dev->SetSupportsHoles(false);
            dev->SetDisconnected();
            symx_assert(dev->GetSupportsHoles(), "support of holes is tried again after a disconnection");
            state = S::DISCONNECTED;
        }
        int64_t now = symx_clock_ns;
        S got = dev->GetConnectionState();
        if (outcome == 2)
            outcome = got == S::CONNECTED && before != S::CONNECTED ? 1 : got == S::DISCONNECTED && before != S::DISCONNECTED ? 0 : -2;
        if (outcome == -2) { // a write refused by the device: the history is not continued, both readings are possible
            symx_reach("refused");
            return;
        }
        if (outcome == 1) {
            lastOk = now;
            everOk = true;
            fails = 0;
            state = S::CONNECTED;
        } else if (outcome == 0) {
            ++fails;
            int64_t el = now - lastOk, lim = (int64_t)dt * 1000000;
            if (disabled)
                symx_assert(got == before, "-1 disables disconnection");
            else if (everOk && before != S::DISCONNECTED) {
                symx_assert(got == S::DISCONNECTED || got == before, "a failure does not connect a device");
                symx_assert(got == before || (el >= lim && fails >= mc), "a device is disconnected only when both the time and the number of failures are reached");
                symx_assert(got != before || el <= lim || fails < mc, "a device is disconnected when both the time and the number of failures are reached");
            } else if (!everOk)
                symx_assert(got != S::CONNECTED, "a device that never answered is not connected");
            else
                symx_assert(got == before, "a disconnected device stays disconnected while it fails");
            state = got;
        }
        symx_assert(got == state, "the state is the one that follows from the exchanges");
        if (state != before) {
            symx_assert(calls == std::vector<int>({(int)state}), "a change of the state is announced once");
            symx_reach(state == S::CONNECTED ? "connected" : "disconnected");
        } else
            symx_assert(calls.empty(), "nothing is announced while the state is the same");
        if (state == S::CONNECTED && before != S::CONNECTED) {
            symx_assert(dev->GetSnRegister()->GetValue().GetType() == TRegisterValue::ValueType::Undefined, "the cached serial number is forgotten when a device appears");
        } else
            symx_assert(dev->GetSnRegister()->GetValue() == TRegisterValue(77), "the serial number is kept while the connection lasts");
    }
    symx_observe("state", (uint64_t)state);
}
// reading a range of two registers: each gets its own result; one failure does not spoil the other
HARNESS h_device_range()
{
    auto dev = MakeDevice(3000, 2);
    TFakePort port;
    std::vector<PRegister> regs;
    auto range = dev->CreateRegisterRange();
    int n = 2;
    std::vector<int> o;
    std::vector<bool> un;
    for (int i = 0; i < n; ++i) {
        regs.push_back(dev->AddRegister(TRegisterConfig::Create(0, 10 + i)));
        range->RegisterList().push_back(regs[i]);
        un.push_back(SymBool("unavailable"));
        if (un[i])
            regs[i]->SetAvailable(TRegisterAvailability::UNAVAILABLE);
        o.push_back((int)Pick("outcome", 0, 4));
        if (!un[i])
            dev->Script.push_back(o[i]);
    }
    bool brk = SymBool("break on error"), thrown = false;
    try {
        dev->ReadRegisterRange(port, range, brk);
    } catch (const TSerialDeviceException&) {
        thrown = true;
    }
    bool stopped = false;
    size_t reads = 0;
    for (int i = 0; i < n; ++i) {
        bool asked = !stopped && !un[i];
        if (asked) {
            symx_assert(reads < dev->Reads.size() && dev->Reads[reads] == (uint32_t)(10 + i), "registers are read in order");
            ++reads;
            if (o[i] == OK)
                symx_assert(regs[i]->GetValue() == TRegisterValue(1010 + i), "every register gets its own value");
            if (o[i] != OK && brk)
                stopped = true;
        } else
            symx_assert(regs[i]->GetValue().GetType() == TRegisterValue::ValueType::Undefined, "a register that was not read has no value");
        symx_assert(regs[i]->GetErrorState().test(TRegister::TError::ReadError) == (asked && o[i] != OK), "every register has its own error");
    }
    symx_assert(reads == dev->Reads.size(), "nothing else is read");
    symx_assert(thrown == stopped, "the error is passed on if asked to");
    symx_reach("done");
}
// order of setup writes and duplicate items; one failure stops the rest and is reported
HARNESS h_device_setup()
{
    auto dev = MakeDevice(3000, 2);
    bool preserve = SymBool("preserve order");
    dev->DeviceConfig()->PreserveSetupOrder = preserve;
    int n = (int)symx_param("items", 3);
    struct TItem
    {
        int type;
        uint32_t addr, off;
        uint64_t value;
    };
    std::vector<TItem> items; // accepted ones
    for (int i = 0; i < n; ++i) {
        TItem t{(int)Pick("type", 0, 1), (uint32_t)Pick("addr", 1, 2), (uint32_t)Pick("offset", 0, 1), (uint64_t)(i + 1)};
        auto rc = TRegisterConfig::Create(t.type, t.addr, U16, 1, 0, 0, TRegisterConfig::TSporadicMode::DISABLED, false, t.type ? "coil" : "reg",
                                          EWordOrder::BigEndian, EByteOrder::BigEndian, t.off, 8);
        dev->AddSetupItem(std::make_shared<TDeviceSetupItemConfig>("s" + std::to_string(i), rc, std::to_string(i + 1)));
        bool dup = false;
        for (auto& x: items)
            dup |= x.type == t.type && x.addr == t.addr && x.off == t.off;
        if (!dup)
            items.push_back(t);
        else
            symx_reach("duplicate");
    }
    if (!preserve)
        std::stable_sort(items.begin(), items.end(), [](const TItem& a, const TItem& b) {
            return std::make_tuple(a.type, a.addr, a.off) < std::make_tuple(b.type, b.addr, b.off);
        });
    symx_assert(dev->GetSetupItems().size() == items.size(), "setup items for the same register are used once, others all");
    TFakePort port;
    int failAt = (int)Pick("fail at", 0, n);
    for (int i = 0; i < n; ++i)
        dev->Script.push_back(i == failAt ? TRANSIENT : OK);
    bool thrown = false;
    try {
        dev->Prepare(port);
    } catch (const TSerialDeviceException&) {
        thrown = true;
    }
    size_t want = std::min(items.size(), (size_t)failAt + 1);
    symx_assert(thrown == ((size_t)failAt < items.size()), "a failed setup write is reported");
    symx_assert(dev->Writes.size() == want, "setup registers are written once each until one fails");
    for (size_t i = 0; i < want; ++i)
        symx_assert(dev->Writes[i].first == items[i].addr && dev->Writes[i].second == items[i].value,
                    preserve ? "setup registers are written in the order of the template" : "setup registers are written in the order of types and addresses");
    symx_assert((dev->GetConnectionState() == TDeviceConnectionState::CONNECTED) == !thrown, "the device is connected once its setup is written");
    symx_reach(preserve ? "preserved" : "sorted");
}
// slave ids
HARNESS h_slave_id()
{
    static const struct
    {
        const char* Text;
        uint32_t Id;
    } Ids[] = {{"1", 1}, {"0x01", 1}, {"10", 10}, {"0x10", 16}, {"0xA", 10}, {"010", 8}, {"255", 255}, {"0", 0}, {"4294967295", 4294967295u}, {"", 0}, {"x", 0}};
    int a = (int)Pick("a", 0, 10), b = (int)Pick("b", 0, 10);
    bool bc = SymBool("broadcast");
    TUint32SlaveIdProtocol p("p", Types, bc);
    symx_assert(p.SupportsBroadcast() == bc, "broadcast support");
    bool thrown = false, same = false;
    try {
        same = p.IsSameSlaveId(Ids[a].Text, Ids[b].Text);
    } catch (const TSerialDeviceException&) {
        thrown = true;
    }
    bool bad = a == 10 || b == 10 || (!bc && (a == 9 || b == 9));
    symx_assert(thrown == bad, "a slave id that is not a number is refused");
    if (!bad) {
        bool any = bc && (a == 9 || b == 9);
        symx_assert(same == (any || Ids[a].Id == Ids[b].Id), "slave ids are compared as numbers; a broadcast device takes them all");
    }
    symx_reach("done");
}
// ---- C41: one register
HARNESS h_pending_write()
{
    auto dev = MakeDevice(3000, 2);
    int maxFail = symx_param("zero", 0) ? 0 : 10;
    dev->DeviceConfig()->MaxWriteFailTime = seconds(maxFail);
    auto reg = dev->AddRegister(TRegisterConfig::Create(0, 5));
    TRegisterHandler h(reg);
    TFakePort port;
    bool pending = false, haveFirst = false;
    uint64_t value = 0;
    int64_t firstInherited = 0, firstOwn = 0; // time of the first failed try of this value / since the register became pending
    bool ownSet = false;
    bool we = false;
    uint64_t stored = ~0ull;
    static const char* Texts[] = {"1", "2"};
    int n = (int)symx_param("steps", 4);
    symx_assert(!h.NeedToFlush(), "nothing to write at first");
    auto set = [&](int v) {
        h.SetTextValue(Texts[v]);
        if (!(pending && value == (uint64_t)v + 1))
            ownSet = false;
        pending = true;
        value = (uint64_t)v + 1;
    };
    auto bad = [&](const char* t) {
        bool thrown = false;
        try {
            h.SetTextValue(t);
        } catch (const std::exception&) {
            thrown = true;
        }
        symx_assert(thrown, "an invalid value is refused");
        symx_reach("invalid");
    };
    // after an attempt that failed, whether the value is still pending
    auto judge = [&](bool now, bool inheritedExpired, bool ownExpired, const char* kept, const char* dropped) {
        if (!inheritedExpired)
            symx_assert(now, kept);
        else if (ownExpired)
            symx_assert(!now, dropped);
    };
    for (int i = 0; i < n; ++i) {
        symx_clock_ns += (int64_t)symx_var("step", 14) * 1000000;
        int op = (int)Pick("op", 0, 4);
        if (op <= 1)
            set(op);
        else if (op == 2)
            bad("abc");
        else if (op == 3) {
            if (!pending)
                continue;
            int o = (int)Pick("outcome", 0, 4);
            dev->Script = {o};
            dev->Next = 0;
            dev->Writes.clear();
            int during = (int)Pick("during", 0, 3); // a new value arrives while the old one is being written
            uint64_t sent = value;
            dev->DuringWrite = [&]() {
                if (during == 1 || during == 2)
                    set(during - 1);
                else if (during == 3)
                    bad("");
            };
            symx_clock_ns += 0;
            h.Flush(port);
            dev->DuringWrite = nullptr;
            symx_assert(dev->Writes.size() == 1 && dev->Writes[0].first == 5 && dev->Writes[0].second == sent, "the last valid value is what is sent");
            bool newer = value != sent;
            if (o == OK) {
                pending = newer;
                haveFirst = ownSet = false;
                we = false;
                stored = sent;
                symx_assert(reg->GetValue() == TRegisterValue(sent), "the value written becomes the value of the register");
                symx_reach("written");
            } else {
                we = true;
                if (o == INTERNAL || o == PERMANENT) {
                    pending = newer;
                    haveFirst = ownSet = false;
                    symx_reach("refused");
                } else {
                    if (!haveFirst) {
                        haveFirst = true;
                        firstInherited = symx_clock_ns;
                    }
                    if (!ownSet && !newer) {
                        ownSet = true;
                        firstOwn = symx_clock_ns;
                    }
                    int64_t lim = (int64_t)maxFail * 1000000000;
                    bool got = h.NeedToFlush();
                    if (newer)
                        symx_assert(got, "a value that arrived during a failed write stays pending");
                    else {
                        int64_t e1 = symx_clock_ns - firstInherited, e2 = symx_clock_ns - firstOwn;
                        judge(got, e1 >= lim, e2 > lim || lim == 0, "a failed write is retried before the time limit", "a failed write is given up after the time limit");
                        symx_reach(got ? "retry" : "given up");
                    }
                    pending = got;
                    if (!got || (newer && symx_clock_ns - firstInherited >= lim))
                        haveFirst = false;
                    if (!got)
                        ownSet = false;
                }
            }
            symx_assert(reg->GetErrorState().test(TRegister::TError::WriteError) == we, "the write error shows whether the last write failed");
            if (stored != ~0ull)
                symx_assert(reg->GetValue() == TRegisterValue(stored), "a failed write leaves the value alone");
        } else { // the write was not tried (port closed, device disconnected)
            bool got = h.NeedRetryAfterWriteFail();
            if (!pending) {
                symx_assert(!got, "nothing to retry");
                continue;
            }
            if (!haveFirst) {
                haveFirst = true;
                firstInherited = symx_clock_ns;
            }
            if (!ownSet) {
                ownSet = true;
                firstOwn = symx_clock_ns;
            }
            int64_t lim = (int64_t)maxFail * 1000000000;
            int64_t e1 = symx_clock_ns - firstInherited, e2 = symx_clock_ns - firstOwn;
            judge(got, e1 >= lim, e2 > lim || lim == 0, "a deferred write is retried before the time limit", "a deferred write is given up after the time limit");
            symx_assert(got == h.NeedToFlush(), "a write that is given up is not pending");
            pending = got;
            if (!got)
                haveFirst = ownSet = false;
            symx_reach(got ? "deferred" : "cancelled");
        }
        symx_assert(h.NeedToFlush() == pending, "a value is pending until it is written or given up");
    }
    symx_observe("pending", pending);
}
