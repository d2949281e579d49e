// C42 MQTT channels, C57 client cycle, C56 events: the real driver, client, poller, scheduler and register handlers on a device whose answers are chosen
#include "fakeport.h"
#include "serial_port_driver.h"
#include "symx.h"
#include <cmath>
using namespace std::chrono;
using namespace WBMQTT;
static const int64_t MS = 1000000;
enum TOutcome
{
    OK,
    TRANSIENT,
    PERMANENT
};
class TSingle: public TRegisterRange
{
public:
    bool Add(TPort& port, PRegister reg, milliseconds pollLimit) override
    {
        if (HasOtherDeviceAndType(reg))
            return false;
        if (reg->GetAvailable() != TRegisterAvailability::UNAVAILABLE)
            RegisterList().push_back(reg);
        return true;
    }
};
class TTestDevice: public TSerialDevice
{
public:
    std::function<int(uint32_t, uint64_t&)> OnRead;
    std::function<int(uint32_t, uint64_t)> OnWrite;
    std::function<bool()> OnPrepare;
    std::function<std::string()> OnText;
    TTestDevice(PDeviceConfig c, PProtocol p): TSerialDevice(c, p)
    {}
    PRegisterRange CreateRegisterRange() const override
    {
        return std::make_shared<TSingle>();
    }

protected:
    void PrepareImpl(TPort& port) override
    {
        if (OnPrepare && !OnPrepare())
            throw TSerialDeviceTransientErrorException("no session");
    }
    static void Throw(int o)
    {
        if (o == TRANSIENT)
            throw TSerialDeviceTransientErrorException("transient");
        if (o == PERMANENT)
            throw TSerialDevicePermanentRegisterException("permanent");
    }
    TRegisterValue ReadRegisterImpl(TPort& port, const TRegisterConfig& reg) override
    {
        if (reg.Format == String)
            return TRegisterValue(OnText());
        uint64_t v = 0;
        Throw(OnRead(GetUint32RegisterAddress(reg.GetAddress()), v));
        return TRegisterValue(v);
    }
    void WriteRegisterImpl(TPort& port, const TRegisterConfig& reg, const TRegisterValue& value) override
    {
        Throw(OnWrite(GetUint32RegisterAddress(reg.GetWriteAddress()), value.Get<uint64_t>()));
    }
};
typedef std::shared_ptr<TTestDevice> PTestDevice;
static TRegisterTypes Types = {{0, "reg", "value", U16}, {1, "press_counter", "value", U16, true}};
static PTestDevice MakeDevice(int id, int timeoutMs, int cycles)
{
    static TUint32SlaveIdProtocol protocol("test", Types);
    auto c = std::make_shared<TDeviceConfig>("dev" + std::to_string(id), std::to_string(id + 1), "test");
    c->Id = "dev" + std::to_string(id);
    c->DeviceTimeout = milliseconds(timeoutMs);
    c->DeviceMaxFailCycles = cycles;
    return std::make_shared<TTestDevice>(c, &protocol);
}
struct TBench
{
    std::shared_ptr<TFakePort> Base = std::make_shared<TFakePort>();
    PFeaturePort Port = std::make_shared<TFeaturePort>(Base, false);
    PPortConfig Config = std::make_shared<TPortConfig>();
    PDeviceDriver Mqtt = std::make_shared<TDeviceDriver>();
    TPublishParameters Policy;
    PTestDevice Dev;
    std::vector<PRegister> Regs;
    PDeviceChannelConfig Chan;
    PSerialPortDriver Driver;
    std::vector<int> States; // connection states that were announced
    TBench(int regs, bool press, int timeoutMs, int cycles)
    {
        Base->IsOpenFlag = false;
        Config->Port = Port;
        if (!symx_param("reopen", 0))
            Config->OpenCloseSettings.MaxFailTime = milliseconds(-1);
        Dev = MakeDevice(0, timeoutMs, cycles);
        for (int i = 0; i < regs; ++i)
            AddReg(press);
        auto d = std::make_shared<TSerialDeviceWithChannels>();
        d->Device = Dev;
        Chan = std::make_shared<TDeviceChannelConfig>("value", "dev0", 1, false, "chan", Regs);
        d->Channels.push_back(Chan);
        Config->Devices.push_back(d);
        Dev->AddOnConnectionStateChangedCallback([this](PSerialDevice dev) { States.push_back((int)dev->GetConnectionState()); });
    }
    void AddReg(bool press)
    {
        auto rc = TRegisterConfig::Create(press ? 1 : 0, (uint32_t)(10 + Regs.size()));
        rc->TypeName = press ? "press_counter" : "reg";
        Regs.push_back(Dev->AddRegister(rc));
    }
    void Start()
    {
        Driver = std::make_shared<TSerialPortDriver>(Mqtt, Config, Policy, 1000);
        Driver->SetUpDevices();
        symx_assert(Mqtt->Devices.size() == 1 && Mqtt->Devices[0]->Controls.size() == 1, "a device and its control are created");
    }
    TControl& Control()
    {
        return *Mqtt->Devices[0]->Controls[0];
    }
    void Set(const std::string& text)
    {
        TControlOnValueEvent e;
        e.Control = Mqtt->Devices[0]->Controls[0];
        e.RawValue = text;
        TSerialPortDriver::HandleControlOnValueEvent(e);
    }
};
static std::string Flags(const std::vector<PRegister>& regs)
{
    bool r = false, w = false, p = false;
    for (auto& reg: regs) {
        auto& s = reg->GetErrorState();
        r |= s.test(TRegister::TError::ReadError);
        w |= s.test(TRegister::TError::WriteError);
        p |= s.test(TRegister::TError::PollIntervalMissError);
    }
    return std::string(r ? "r" : "") + (w ? "w" : "") + (p ? "p" : "");
}
// every cycle reads all registers of the channel; what the broker shows is compared with the registers
HARNESS h_channel()
{
    size_t n = (size_t)symx_param("regs", 1);
    int steps = (int)symx_param("steps", 3), policy = (int)symx_param("policy", 0), unchanged = 60000;
    bool press = symx_param("press", 0), onoff = symx_param("onoff", 0), write = symx_param("write", 0), button = symx_param("button", 0);
    int timeout = (int)symx_param("timeout", -1);
    TBench b((int)n, press, timeout, 0);
    b.Policy.Set(policy == 0 ? -1 : policy == 1 ? 0 : unchanged);
    if (onoff) {
        b.Chan->OnValue = "5";
        b.Chan->OffValue = "3";
    }
    if (button)
        b.Chan->Type = "pushbutton";
    std::vector<uint64_t> device(n);
    std::vector<bool> known(n), good(n);
    size_t goodReads = 0, goodWrites = 0, badWrites = 0;
    b.Dev->OnRead = [&](uint32_t a, uint64_t& v) {
        int o = (int)Pick("read", OK, symx_param("permanent", 0) ? PERMANENT : TRANSIENT);
        if (o == OK) {
            v = device[a - 10] = SymRange("value", 0, 9);
            known[a - 10] = true;
            ++goodReads;
        }
        return o;
    };
    std::vector<std::pair<uint32_t, uint64_t>> written;
    b.Dev->OnWrite = [&](uint32_t a, uint64_t v) {
        int o = (int)Pick("written", OK, PERMANENT);
        written.emplace_back(a - 10, v);
        if (o == OK) {
            device[a - 10] = v;
            known[a - 10] = true;
            ++goodWrites;
        } else
            ++badWrites;
        return o;
    };
    b.Start();
    auto& control = b.Control();
    std::string shown, flags; // what the broker has
    bool hasValue = false, restarted = false;
    int64_t lastValue = 0;
    std::vector<uint64_t> pending(n);
    std::vector<bool> isPending(n);
    for (int step = 0; step < steps; ++step) {
        if (policy == 2)
            symx_clock_ns += (int64_t)SymRange("pause", 0, 130000) * MS;
        else
            symx_clock_ns += 30000 * MS;
        b.States.clear();
        written.clear();
        size_t before = control.Log.size();
        goodReads = goodWrites = badWrites = 0;
        bool setting = write && Pick("set", 0, 1);
        if (setting) {
            // one value more than registers is not accepted
            size_t parts = (size_t)Pick("parts", n, n + 1);
            std::string text;
            for (size_t i = 0; i < parts; ++i) {
                uint64_t v = onoff ? Pick("digit", 0, 2) : SymRange("digit", 0, 9);
                text += (i ? ";" : "") + std::string(1, (char)('0' + v));
                if (parts == n) {
                    pending[i] = onoff ? (v == 1 ? 5 : v == 0 ? 3 : v) : v;
                    isPending[i] = true;
                }
            }
            b.Set(text);
            if (parts != n)
                symx_reach("malformed");
        }
        b.Driver->Cycle();
        // writes
        for (auto& w: written) {
            symx_assert(isPending[w.first] && w.second == pending[w.first], "the value set over MQTT is written to its register, once per attempt");
            symx_reach("write");
        }
        // device connection
        bool lost = false;
        for (auto s: b.States)
            if (s == (int)TDeviceConnectionState::DISCONNECTED)
                lost = true;
        auto& deviceErrors = b.Mqtt->Devices[0]->Errors;
        if (!b.States.empty()) {
            symx_assert(!deviceErrors.empty(), "a change of the connection is announced");
            symx_assert((deviceErrors.back() == "r") == (b.States.back() == (int)TDeviceConnectionState::DISCONNECTED), "the device has an error exactly while it is disconnected");
        }
        bool all = true;
        for (size_t i = 0; i < n; ++i)
            all &= known[i];
        std::string text;
        if (all) {
            if (onoff && n == 1 && (device[0] == 5 || device[0] == 3))
                text = symx_choose(device[0] == 5) ? "1" : "0";
            else
                for (size_t i = 0; i < n; ++i)
                    text += (i ? ";" : "") + std::string(1, (char)('0' + device[i]));
        }
        bool zero = false;
        if (press)
            for (size_t i = 0; i < n; ++i)
                zero |= symx_choose(device[i] == 0) != 0;
        // publications of this cycle
        size_t values = 0;
        for (size_t i = before; i < control.Log.size(); ++i) {
            auto& l = control.Log[i];
            if (l.HasValue) {
                ++values;
                symx_assert(all, "no value is published while a register is unknown");
                if (policy == 0 && !button && !press)
                    symx_assert(!hasValue || l.Value != shown || l.Error != flags, "unchanged values are not published again");
                if (policy == 2 && !button && !press)
                    symx_assert(!hasValue || l.Value != shown || l.Error != flags || symx_clock_ns - lastValue >= unchanged * MS,
                                "unchanged values are not published again before the interval has passed");
                shown = l.Value;
                hasValue = true;
                lastValue = symx_clock_ns;
                symx_reach("value");
            }
            flags = l.Error;
        }
        symx_assert(flags == Flags(b.Regs), "the error flags of a channel are those of its registers");
        if (!flags.empty())
            symx_reach("error");
        if (lost)
            restarted = true;
        bool refused = flags.find('w') != std::string::npos; // the value read meanwhile is shown when the error is gone
        bool update = goodReads + goodWrites > 0;
        if (press && zero && restarted) {
            if (update) {
                symx_assert(values == 0 || n > 1, "the zero of a restarted press counter is not published");
                symx_reach("zero");
            }
        } else if (refused) {
            symx_reach("refused");
        } else if (all && update) {
            restarted = false;
            symx_assert(hasValue && shown == text, "the value of a channel is that of its registers");
            if (policy == 1 || button)
                symx_assert(values >= 1, "every value that was read is published");
            if (policy == 2)
                symx_assert(symx_clock_ns - lastValue < unchanged * MS, "an unchanged value is published again after the interval");
        } else if (all && !update && !press)
            symx_assert(hasValue && shown == text, "the value stays as it was last known");
        symx_reach(all ? "known" : "unknown");
    }
}

// a text register: any text, also an empty one, is shown
HARNESS h_channel_text()
{
    int policy = (int)symx_param("policy", 0);
    TBench b(0, false, -1, 0);
    auto rc = TRegisterConfig::Create(0, 10, String, 1, 0, 0, TRegisterConfig::TSporadicMode::DISABLED, false, "reg");
    b.Chan->Registers.push_back(b.Dev->AddRegister(rc));
    b.Policy.Set(policy == 0 ? -1 : policy == 1 ? 0 : 60000);
    std::string text;
    b.Dev->OnText = [&] {
        text = SymStr("text", (size_t)Pick("length", 0, 2));
        return text;
    };
    b.Start();
    for (int step = 0; step < 3; ++step) {
        symx_clock_ns += 1000 * MS;
        size_t before = b.Control().Log.size();
        b.Driver->Cycle();
        symx_assert(!b.Control().Log.empty() && b.Control().Args.RawValue == text, "the text of a register is shown");
        if (b.Control().Log.size() == before)
            symx_reach("unchanged");
    }
    symx_reach("done");
}
// what the control announces
HARNESS h_control()
{
    TBench b(1, Pick("press", 0, 1), -1, 0);
    auto& c = *b.Chan;
    static const char* types[] = {"text", "range", "dimmer", "value", "switch"};
    c.Type = types[Pick("type", 0, 4)];
    bool ranged = c.Type == "range" || c.Type == "dimmer";
    c.ReadOnly = SymBool("readonly");
    c.Hidden = SymBool("hidden");
    c.Order = (int)SymRange("order", 0, 1000000);
    bool hasMax = Pick("has max", 0, 1), hasMin = Pick("has min", 0, 1), hasPrecision = Pick("has precision", 0, 1);
    static const double values[] = {-1e9, -1, 0, 0.1, 255, 65536, 1e300};
    double max = values[Pick("max", 0, hasMax ? 6 : 0)], min = values[Pick("min", 0, hasMin ? 6 : 0)];
    if (hasMax)
        c.Max = max;
    if (hasMin)
        c.Min = min;
    if (hasPrecision)
        c.Precision = 0.01;
    c.Units = "V";
    c.SetTitle("Name", "en");
    c.SetTitle("Имя", "ru");
    TTitleTranslations t;
    t["en"] = "one";
    c.SetEnumTitles("1", t);
    b.Dev->DeviceConfig()->Name = "Device";
    b.Start();
    auto& d = *b.Mqtt->Devices[0];
    symx_assert(d.Args.Id == "dev0" && d.Args.Title == "Device" && d.Args.IsVirtual, "the device is announced with its id and name");
    auto& a = b.Control().Args;
    symx_assert(a.Id == "chan" && a.Type == c.Type && a.Units == "V", "the control has the id, type and units of the channel");
    symx_assert(a.Readonly == c.ReadOnly && a.Hidden == c.Hidden && a.Order == c.Order, "the control has the flags and order of the channel");
    symx_assert(a.HasMax == (hasMax || ranged) && (!a.HasMax || a.Max == (hasMax ? max : 65535)), "the maximum is the configured one, 65535 for ranges");
    symx_assert(a.HasMin == hasMin && (!hasMin || a.Min == min), "the minimum is the configured one");
    symx_assert(hasPrecision ? a.Precision == 0.01 : a.Precision == 0, "the precision is the configured one");
    symx_assert(a.Titles.size() == 2 && a.Titles["en"] == "Name" && a.Titles["ru"] == "Имя", "all titles are announced");
    symx_assert(a.EnumTitles.size() == 1 && a.EnumTitles["1"]["en"] == "one", "titles of values are announced");
    symx_assert(a.Durable == (c.Registers[0]->GetConfig()->TypeName == "press_counter"), "press counters are durable");
    symx_reach("done");
    // a control whose driver is gone ignores events
    TControlOnValueEvent e;
    e.Control = d.Controls[0];
    e.RawValue = "1";
    b.Dev->OnWrite = [&](uint32_t, uint64_t) {
        symx_fail("nothing is written without the driver");
        return 0;
    };
    b.Driver->ClearDevices();
    symx_assert(b.Mqtt->Devices.empty(), "all devices are removed");
    b.Driver.reset();
    TSerialPortDriver::HandleControlOnValueEvent(e);
}
// ---- the client itself ----
class TOpening: public TFakePort
{
public:
    bool CanFail = false;
    void Open() override
    {
        if (CanFail && Pick("open fails", 0, 1))
            throw TSerialDeviceException("can't open");
        TFakePort::Open();
    }
};
static std::function<bool()> OnWait; // what other threads do while the client waits; true: it is woken
extern "C" bool symx_on_wait(int64_t deadlineNs)
{
    if (OnWait && OnWait())
        return true;
    if (symx_choose(deadlineNs > symx_clock_ns))
        symx_clock_ns = deadlineNs;
    return false;
}
struct TPending
{
    bool Is = false;
    uint64_t Value = 0;
    bool Failed = false, OwnFailed = false;
    int64_t First = 0, Own = 0; // first failed attempt since something is pending; of this value
};
HARNESS h_client()
{
    int devs = (int)symx_param("devs", 1), steps = (int)symx_param("steps", 3);
    auto base = std::make_shared<TOpening>();
    base->IsOpenFlag = false;
    base->CanFail = symx_param("port", 0);
    auto port = std::make_shared<TFeaturePort>(base, false);
    TPortOpenCloseLogic::TSettings s;
    s.MaxFailTime = milliseconds(symx_param("port", 0) ? 0 : -1);
    s.ConnectionMaxFailCycles = 0;
    s.ReopenTimeout = milliseconds(1000);
    int64_t limit = 10000 * MS;
    TSerialClient client(port, s, steady_clock::now, 1000);
    std::vector<PTestDevice> d;
    std::vector<PRegister> regs;
    std::vector<TPending> pending(devs);
    std::vector<std::pair<int, uint64_t>> attempts; // device, outcome
    std::vector<size_t> reads(devs), readCalls(devs), errorCalls(devs);
    int session = -1; // the device that was prepared last
    bool lost = symx_param("lost", 1), prepare = symx_param("prepare", 0);
    for (int i = 0; i < devs; ++i) {
        d.push_back(MakeDevice(i, lost ? 0 : -1, 0));
        d[i]->DeviceConfig()->MaxWriteFailTime = seconds(10);
        regs.push_back(d[i]->AddRegister(TRegisterConfig::Create(0, 10 + i)));
        d[i]->OnPrepare = [&, i] {
            symx_assert(base->IsOpenFlag, "a closed port is not used");
            if (prepare && Pick("session fails", 0, 1))
                return false;
            session = i;
            return true;
        };
        d[i]->OnRead = [&, i](uint32_t a, uint64_t& v) {
            symx_assert(base->IsOpenFlag, "a closed port is not used");
            symx_assert(session == i, "a device is read in its session");
            symx_assert(a == 10u + i, "the register that is asked for is read");
            ++reads[i];
            v = 7;
            return (int)Pick("read", OK, TRANSIENT);
        };
        if (symx_param("unsupported", 0))
            regs[i]->SetSupported(!Pick("unsupported", 0, 1));
        d[i]->OnWrite = [&, i](uint32_t a, uint64_t v) {
            symx_assert(base->IsOpenFlag, "a closed port is not used");
            symx_assert(session == i, "a device is written in its session");
            symx_assert(d[i]->GetConnectionState() != TDeviceConnectionState::DISCONNECTED, "nothing is written to a disconnected device");
            symx_assert(regs[i]->IsSupported(), "an unsupported register is not written");
            symx_assert(a == 10u + i && pending[i].Is && v == pending[i].Value, "the last value that was set is written, to its register");
            int o = (int)Pick("written", OK, PERMANENT);
            attempts.emplace_back(i, o);
            return o;
        };
        client.AddDevice(d[i]);
    }
    client.SetReadCallback([&](PRegister r) {
        for (int i = 0; i < devs; ++i)
            if (regs[i] == r)
                ++readCalls[i];
    });
    client.SetErrorCallback([&](PRegister r) {
        for (int i = 0; i < devs; ++i)
            if (regs[i] == r) {
                ++errorCalls[i];
                symx_assert(r->GetErrorState().any(), "an error is reported only if there is one");
            }
    });
    bool thrown = false;
    try {
        client.AddDevice(d[0]);
    } catch (const TSerialDeviceException&) {
        thrown = true;
    }
    symx_assert(thrown, "a device can't be added twice");
    auto set = [&](int i) {
        uint64_t v = Pick("value", 1, 2);
        client.SetTextValue(regs[i], v == 1 ? "1" : "2");
        if (!(pending[i].Is && pending[i].Value == v))
            pending[i].OwnFailed = false;
        if (!pending[i].Is)
            pending[i].Failed = false;
        pending[i].Is = true;
        pending[i].Value = v;
    };
    for (int step = 0; step < steps; ++step) {
        symx_clock_ns += (int64_t)SymRange("step", 0, 16000) * MS;
        std::vector<bool> due(devs), off(devs);
        std::vector<bool> error(devs);
        bool late = symx_param("late", 0) && Pick("late", 0, 1);
        for (int i = 0; i < devs; ++i)
            if (!late && Pick("set", 0, 1))
                set(i);
        auto arm = [&] {
            attempts.clear();
            for (int i = 0; i < devs; ++i) {
                due[i] = pending[i].Is;
                off[i] = d[i]->GetConnectionState() == TDeviceConnectionState::DISCONNECTED;
            }
        };
        arm();
        for (int i = 0; i < devs; ++i)
            readCalls[i] = errorCalls[i] = reads[i] = 0;
        // all tasks have been run, the port is not polled yet
        auto judge = [&] {
            for (int i = 0; i < devs; ++i) {
                auto& p = pending[i];
                if (!due[i])
                    continue;
                int outcome = -1;
                size_t n = 0;
                for (auto& a: attempts)
                    if (a.first == i) {
                        outcome = (int)a.second;
                        ++n;
                    }
                symx_assert(n <= 1, "a value is sent once per cycle");
                if (base->IsOpenFlag && !regs[i]->IsSupported()) {
                    symx_assert(n == 0 && regs[i]->GetErrorState().test(TRegister::WriteError) && errorCalls[i] >= 1, "a write to an unsupported register is refused");
                    p.Is = false;
                    symx_reach("unsupported");
                    continue;
                }
                if (base->IsOpenFlag && !off[i] && !prepare)
                    symx_assert(n >= 1, "a pending value is sent to a connected device");
                bool e = regs[i]->GetErrorState().test(TRegister::WriteError);
                if (outcome == OK) {
                    symx_assert(!e, "the write error is removed by a successful write");
                    symx_assert(readCalls[i] >= 1, "a successful write is reported");
                    symx_assert(regs[i]->GetValue() == TRegisterValue(p.Value), "the value that was written is the value of the register");
                    p.Is = false;
                    symx_reach("written");
                    continue;
                }
                symx_assert(e && errorCalls[i] >= 1, "a write that failed or is put off is reported as an error");
                if (outcome == PERMANENT) {
                    p.Is = false;
                    symx_reach("refused");
                    continue;
                }
                symx_reach(n ? "failed" : "put off");
                if (!p.Failed) {
                    p.Failed = true;
                    p.First = symx_clock_ns;
                }
                if (!p.OwnFailed) {
                    p.OwnFailed = true;
                    p.Own = symx_clock_ns;
                }
                bool inherited = symx_choose(symx_clock_ns - p.First >= limit), own = symx_choose(symx_clock_ns - p.Own >= limit);
                if (own) {
                    p.Is = false; // given up: no further attempt
                    symx_reach("given up");
                } else if (inherited)
                    symx_prune(); // a newer value may or may not be given up together with the older one
            }
        };
        int waits = 0;
        OnWait = [&] {
            judge();
            for (int i = 0; i < devs; ++i)
                due[i] = false;
            if (late && waits++ == 0) {
                bool was = pending[0].Is; // the value that failed already is tried again in the next cycle, with its new value
                set(0);
                arm();
                for (int i = 0; i < devs; ++i)
                    due[i] = i == 0 && !was;
                symx_reach("late");
                return true;
            }
            return false;
        };
        if (symx_param("unsupported", 0))
            for (auto& r: regs)
                r->SetSupported(!Pick("unsupported", 0, 1)); // as after a reconnection with another firmware
        int64_t start = symx_clock_ns;
        client.Cycle();
        symx_assert(symx_clock_ns - start <= 500 * MS, "a cycle does not take long");
        OnWait = nullptr;
        for (int i = 0; i < devs; ++i) {
            if (!base->IsOpenFlag)
                symx_reach("closed");
            if (reads[i])
                symx_assert(readCalls[i] + errorCalls[i] >= 1, "the outcome of a reading is reported");
        }
    }
    symx_reach("done");
}
