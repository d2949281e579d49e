// C38 register poller and client tasks
#include "fakeport.h"
#include "port/feature_port.h"
#include "serial_client_register_poller.h"
#include "serial_client_device_access_handler.h"
#include "serial_client_events_reader.h"
#include "symx.h"
#include <algorithm>
using namespace std::chrono;
static const int64_t MS = 1000000, NEVER = INT64_MAX;
static steady_clock::time_point Now()
{
    return steady_clock::time_point(nanoseconds(symx_clock_ns));
}
static int64_t Ns(steady_clock::time_point t)
{
    return duration_cast<nanoseconds>(t.time_since_epoch()).count();
}
// the executor forks here, so that times stay plain sums
static bool Fork(bool c)
{
    return symx_choose(c) != 0;
}
static int64_t Min(int64_t a, int64_t b)
{
    if (a == NEVER)
        return b;
    if (b == NEVER)
        return a;
    return Fork(a < b) ? a : b;
}
static int64_t Max(int64_t a, int64_t b)
{
    return Fork(a < b) ? b : a;
}
enum TOutcome
{
    OK,
    TRANSIENT,
    PERMANENT
};
static std::vector<std::pair<char, int>> Sessions; // 'P'repare, 'E'nd, 'R'ead of a device
static int64_t ReadTime = 0;                         // virtual time taken by one read
// several registers per request, limited by number and time, without registers that are known to be absent: as Modbus does
class TBatch: public TRegisterRange
{
public:
    size_t Limit;
    milliseconds Each;
    TBatch(size_t limit, milliseconds each): Limit(limit), Each(each)
    {}
    bool Add(TPort& port, PRegister reg, milliseconds pollLimit) override
    {
        if (reg->GetAvailable() == TRegisterAvailability::UNAVAILABLE)
            return true;
        if (HasOtherDeviceAndType(reg) || RegisterList().size() >= Limit)
            return false;
        if (Each * (int)(RegisterList().size() + 1) > pollLimit)
            return false;
        RegisterList().push_back(reg);
        return true;
    }
};
class TPolledDevice: public TSerialDevice
{
public:
    int Id;
    size_t Limit = 8;
    milliseconds Each{0};
    std::vector<uint32_t> Reads;
    std::function<int()> Outcome = [] { return (int)OK; };
    std::function<int()> PrepareOutcome = [] { return (int)OK; };
    TPolledDevice(PDeviceConfig c, PProtocol p, int id): TSerialDevice(c, p), Id(id)
    {}
    PRegisterRange CreateRegisterRange() const override
    {
        return std::make_shared<TBatch>(Limit, Each);
    }
    void EndSession(TPort& port) override
    {
        Sessions.emplace_back('E', Id);
    }

protected:
    void PrepareImpl(TPort& port) override
    {
        Sessions.emplace_back('P', Id);
        if (PrepareOutcome())
            throw TSerialDeviceTransientErrorException("no session");
    }
    TRegisterValue ReadRegisterImpl(TPort& port, const TRegisterConfig& reg) override
    {
        symx_clock_ns += ReadTime;
        Reads.push_back(GetUint32RegisterAddress(reg.GetAddress()));
        Sessions.emplace_back('R', Id);
        switch (Outcome()) {
            case TRANSIENT: throw TSerialDeviceTransientErrorException("transient");
            case PERMANENT: throw TSerialDevicePermanentRegisterException("permanent");
        }
        return TRegisterValue(1);
    }
};
typedef std::shared_ptr<TPolledDevice> PPolled;
static TRegisterTypes Types = {{0, "reg", "value", U16}};
static PPolled MakeDevice(int id, int minInterval)
{
    static TUint32SlaveIdProtocol protocol("test", Types);
    auto c = std::make_shared<TDeviceConfig>("dev", std::to_string(id + 1), "test");
    c->DeviceTimeout = milliseconds(0);
    c->DeviceMaxFailCycles = 1;
    c->MinRequestInterval = milliseconds(minInterval);
    return std::make_shared<TPolledDevice>(c, &protocol, id);
}
// the reference: when every register and every group of registers (device and priority) may be polled
struct TModelReg
{
    PRegister Reg;
    int Dev, Group;
    int64_t Interval, Due;
    bool Queued;
    bool Again; // perhaps it is about to be tried again after the device was lost
};
struct TModelGroup
{
    int Dev;
    bool High;
    int64_t NotBefore, Delay;
};
// a register the device does not have: it is dropped from polling sooner or later
static bool Absent(const TModelReg& r)
{
    return r.Reg->GetAvailable() == TRegisterAvailability::UNAVAILABLE;
}
class TModel
{
public:
    std::vector<PPolled> Devs;
    std::vector<TModelGroup> Groups;
    std::vector<TModelReg> Regs;
    std::vector<int64_t> SuspendedUntil; // -1: not suspended
    std::vector<bool> Appear;            // the device was disconnected since the last cycle: all its groups are due
    int64_t GroupDue(int g) const
    {
        if (SuspendedUntil[Groups[g].Dev] >= 0)
            return NEVER;
        int64_t d = NEVER;
        for (auto& r: Regs)
            if (r.Group == g && r.Queued && !Absent(r))
                d = Min(d, r.Due);
        return d == NEVER ? d : Max(d, Groups[g].NotBefore);
    }
    bool Due(const TModelReg& r, int64_t now) const
    {
        return r.Queued && Fork(r.Due <= now) && Fork(GroupDue(r.Group) <= now);
    }
    int64_t Deadline() const
    {
        int64_t d = NEVER;
        for (size_t g = 0; g < Groups.size(); ++g)
            d = Min(d, GroupDue((int)g));
        return d;
    }
    void Include(int dev)
    {
        for (auto& r: Regs)
            if (r.Dev == dev && r.Reg->IsExcludedFromPolling() && (!r.Queued || Absent(r))) {
                r.Queued = r.Again = true;
                r.Due = 0;
            }
    }
    // pending changes that are taken into account when a cycle starts
    void StartCycle(int64_t now)
    {
        for (size_t d = 0; d < Devs.size(); ++d) {
            if (SuspendedUntil[d] >= 0 && SuspendedUntil[d] <= now)
                Resume((int)d);
            if (Appear[d] && SuspendedUntil[d] < 0) {
                Include((int)d);
                for (size_t g = 0; g < Groups.size(); ++g)
                    if (Groups[g].Dev == (int)d)
                        Groups[g].NotBefore = MinNext((int)g);
            }
            Appear[d] = false;
        }
    }
    int64_t MinNext(int g) const
    {
        auto& dev = *Devs[Groups[g].Dev];
        auto mri = dev.DeviceConfig()->MinRequestInterval;
        return !Groups[g].High && mri.count() ? Ns(dev.GetLastReadTime()) + duration_cast<nanoseconds>(mri).count() : 0;
    }
    void Resume(int d)
    {
        SuspendedUntil[d] = -1;
        Include(d);
        for (size_t g = 0; g < Groups.size(); ++g)
            if (Groups[g].Dev == d)
                Groups[g].NotBefore = MinNext((int)g);
    }
    void Polled(TModelReg& r, int64_t now)
    {
        if (r.Reg->IsExcludedFromPolling() && r.Reg->GetValue().GetType() != TRegisterValue::ValueType::Undefined)
            r.Queued = false;
        else {
            r.Queued = true;
            r.Due = now + (r.Reg->IsExcludedFromPolling() ? 1000 : r.Interval);
        }
    }
    void GroupPolled(int g, int64_t now)
    {
        auto& p = Groups[g];
        p.NotBefore = MinNext(g);
        if (Devs[p.Dev]->GetConnectionState() == TDeviceConnectionState::DISCONNECTED) {
            if (p.Delay)
                p.NotBefore = Max(p.NotBefore, now + p.Delay);
            if (p.Delay < 10000 * MS)
                p.Delay += 500 * MS;
        } else
            p.Delay = 0;
    }
};
struct TPollBench
{
    std::shared_ptr<TFakePort> Base = std::make_shared<TFakePort>();
    TFeaturePort Port;
    TModel M;
    TSerialClientRegisterPoller Poller;
    PSerialClientEventsReader Events = std::make_shared<TSerialClientEventsReader>(10);
    TSerialClientDeviceAccessHandler Access;
    std::vector<PRegister> Called;
    int LastDev = -1; // the device whose session is open
    int64_t MaxPoll = 100, Each = 0; // ms
    bool AtLeastOne = true;
    TRateLimiter Rate; // decided by C37

    TPollBench(size_t rate): Port(Base, false), Poller(rate), Access(Events), Rate(rate)
    {
        Sessions.clear();
    }
    // kind: 0 plain, 1 read period, 2 rate limit, 3 write only, 4 rate limit 0
    void AddReg(int dev, int kind, int64_t ms, bool sporadic = false)
    {
        auto rc = TRegisterConfig::Create(0, (uint32_t)(10 + M.Regs.size()));
        if (kind == 1)
            rc->ReadPeriod = milliseconds(ms);
        if (kind == 2 || kind == 4)
            rc->ReadRateLimit = milliseconds(kind == 2 ? ms : 0);
        if (kind == 3)
            rc->AccessType = TRegisterConfig::EAccessType::WRITE_ONLY;
        auto reg = M.Devs[dev]->AddRegister(rc);
        reg->SetAvailable(TRegisterAvailability::AVAILABLE);
        if (kind == 3)
            return;
        int g = -1;
        for (size_t i = 0; i < M.Groups.size(); ++i)
            if (M.Groups[i].Dev == dev && M.Groups[i].High == (kind == 1))
                g = (int)i;
        if (g < 0) {
            g = (int)M.Groups.size();
            M.Groups.push_back({dev, kind == 1, 0, 0});
        }
        // a register without a period, or with a zero limit, is read as often as possible, but after the others
        M.Regs.push_back({reg, dev, g, kind == 1 || kind == 2 ? ms * MS : 1000, symx_clock_ns, true, false});
        if (sporadic)
            reg->ExcludeFromPolling();
    }
    void Start()
    {
        std::list<PSerialDevice> l(M.Devs.begin(), M.Devs.end());
        Poller.SetDevices(l, Now());
        M.SuspendedUntil.assign(M.Devs.size(), -1);
        M.Appear.assign(M.Devs.size(), false);
        for (auto& d: M.Devs)
            d->AddOnConnectionStateChangedCallback([this](PSerialDevice dev) {
                auto& p = dynamic_cast<TPolledDevice&>(*dev);
                if (dev->GetConnectionState() == TDeviceConnectionState::DISCONNECTED && M.SuspendedUntil[p.Id] < 0)
                    M.Appear[p.Id] = true;
            });
    }
    TModelReg& Find(PRegister r)
    {
        for (auto& m: M.Regs)
            if (m.Reg == r)
                return m;
        symx_assert(false, "only readable registers are polled");
        return M.Regs[0];
    }
    void OpenCycle(bool exact)
    {
        util::TSpentTimeMeter spent(Now);
        spent.Start();
        int64_t now = symx_clock_ns;
        M.StartCycle(now);
        Called.clear();
        Sessions.clear();
        for (auto& d: M.Devs)
            d->Reads.clear();
        std::vector<bool> wasConnected;
        for (auto& d: M.Devs)
            wasConnected.push_back(d->GetConnectionState() == TDeviceConnectionState::CONNECTED);
        bool due = false, dueHigh = false, over = Fork(Rate.IsOverLimit(Now()));
        std::vector<bool> canRead;
        std::vector<int64_t> dueTimes;
        for (auto& r: M.Regs) {
            bool e = M.Due(r, now);
            canRead.push_back(e || r.Again);
            dueTimes.push_back(r.Due);
            if (e && !Absent(r) && !(over && !M.Groups[r.Group].High)) {
                due = true;
                dueHigh |= M.Groups[r.Group].High;
            }
        }
        int64_t high = NEVER; // the next registers with a read period
        for (size_t g = 0; g < M.Groups.size(); ++g)
            if (M.Groups[g].High)
                high = Min(high, M.GroupDue((int)g));
        // the time a request may take
        auto tooMuch = [&](int count, bool isHigh) {
            if (!Each || (count == 1 && AtLeastOne && (isHigh || high == NEVER)))
                return false;
            if (Fork(count * Each > MaxPoll))
                return true;
            if (isHigh || high == NEVER)
                return false;
            return Fork(high - now <= (count * Each - 1) * MS); // whole milliseconds count
        };
        auto res = Poller.OpenPortCycle(Port, spent, milliseconds(MaxPoll), AtLeastOne, Access, [&](PRegister r) { Called.push_back(r); });
        for (auto& r: M.Regs)
            r.Again = false;
        if (Called.empty() && res.NotEnoughTime) {
            symx_assert(due && tooMuch(1, dueHigh), "a request is put off only when its time is longer than allowed");
            symx_assert(!res.Device && Sessions.empty(), "a cycle without polled registers names no device");
            symx_assert(Fork(!dueHigh && high <= now + MaxPoll * MS) ? Ns(res.Deadline) == high : Ns(res.Deadline) == now + MaxPoll * MS, "the cycle asks for a time when the request can fit");
            symx_reach("no time");
        } else if (Called.empty()) {
            bool absent = false; // registers the device does not have take a cycle without polling, and the next one follows at once
            for (auto& r: M.Regs)
                absent |= Absent(r);
            symx_assert(!due || !exact || (absent && Ns(res.Deadline) <= now && ++Idle <= (int)M.Groups.size()), "a register whose time has come is polled");
            symx_assert(!res.Device && Sessions.empty(), "a cycle without polled registers names no device");
            symx_reach("idle");
        } else {
            Idle = 0;
            int g = Find(Called[0]).Group, d = M.Groups[g].Dev;
            symx_assert(res.Device == M.Devs[d], "the cycle reports the polled device");
            symx_assert(!res.NotEnoughTime, "the time was enough");
            symx_assert(M.SuspendedUntil[d] < 0, "a suspended device is not polled");
            symx_assert(!dueHigh || M.Groups[g].High || ReadTime, "registers with a read period come first");
            symx_assert(!over || M.Groups[g].High, "registers without a read period wait when their number per second is exceeded");
            bool opened = false, failed = false;
            for (auto& s: Sessions) {
                if (s.first == 'E')
                    symx_assert(!opened && s.second == LastDev && LastDev != d, "the session of the previous device is closed first");
                else if (s.first == 'P') {
                    symx_assert(!opened && s.second == d, "the session of the polled device is opened once");
                    opened = true;
                } else
                    symx_assert(s.second == d && (opened || LastDev == d), "registers are read in the session of their device");
            }
            symx_assert(LastDev == d || LastDev < 0 || Sessions[0] == std::make_pair('E', LastDev), "the session of the previous device is closed");
            symx_assert(opened == (LastDev != d || !wasConnected[d]), "a session is opened for another device and for a device that was lost");
            failed = Sessions.back().first != 'R';
            LastDev = failed ? (LastDev == d ? d : -1) : d;
            std::vector<bool> read(M.Regs.size());
            for (auto& r: Called) {
                if (!M.Groups[g].High)
                    Rate.NewItem(steady_clock::time_point(nanoseconds(now)));
                auto& m = Find(r);
                size_t i = &m - &M.Regs[0];
                symx_assert(!read[i], "a register is polled once in a cycle");
                read[i] = true;
                symx_assert(m.Group == g, "registers of one device and priority are polled together");
                symx_assert(canRead[i], "a register is polled not earlier than its time");
                if (failed)
                    symx_assert(r->GetErrorState().test(TRegister::TError::ReadError), "registers of an unreachable device have the read error");
            }
            symx_assert(M.Devs[d]->Reads.size() == (failed ? 0 : Called.size()), "every polled register is requested once");
            for (size_t i = 0; i < M.Regs.size(); ++i)
                for (size_t k = 0; k < M.Regs.size(); ++k)
                    if (read[i] && M.Regs[k].Group == g && canRead[k] && !read[k] && !Absent(M.Regs[k]))
                        symx_assert(dueTimes[k] >= dueTimes[i], "a register is not overtaken by one whose time came later");
            for (size_t i = 0; i < M.Regs.size(); ++i)
                if (read[i])
                    M.Polled(M.Regs[i], now);
            if (Each) {
                size_t ready = 0;
                for (size_t i = 0; i < M.Regs.size(); ++i)
                    ready += canRead[i] && M.Regs[i].Group == g;
                symx_assert(!tooMuch((int)Called.size(), M.Groups[g].High), "a request fits in the allowed time");
                symx_assert(Called.size() == ready || tooMuch((int)Called.size() + 1, M.Groups[g].High), "a request has as many registers as can be read in the allowed time");
            }
            M.GroupPolled(g, now);
            symx_reach(M.Groups[g].High ? "high" : "low");
            if (failed)
                symx_reach("no session");
        }
        if (exact && !res.NotEnoughTime) {
            int64_t want = M.Deadline();
            if (over) {
                symx_reach("over");
                int64_t low = NEVER, top = NEVER;
                for (size_t g = 0; g < M.Groups.size(); ++g)
                    (M.Groups[g].High ? top : low) = Min(M.Groups[g].High ? top : low, M.GroupDue((int)g));
                want = Min(top, low == NEVER ? low : Max(low, Ns(Rate.GetStartTime()) + 1000 * MS));
            }
            int64_t got = Ns(res.Deadline);
            symx_assert(want == NEVER || got <= want, "the next cycle is not later than the time of any register");
            bool absent = false;
            for (auto& r: M.Regs)
                absent |= Absent(r);
            symx_assert(absent || want == NEVER || Fork(got >= want) || got > now, "waiting makes sense");
        }
        Next = Ns(res.Deadline);
    }
    int64_t Next = 0;
    int Idle = 0;
    void ClosedCycle()
    {
        int64_t now = symx_clock_ns;
        M.StartCycle(now);
        Called.clear();
        std::vector<bool> due, absent;
        for (auto& r: M.Regs) {
            due.push_back(M.Due(r, now));
            absent.push_back(Absent(r));
        }
        Poller.ClosedPortCycle(Now(), [&](PRegister r) { Called.push_back(r); });
        for (auto& r: M.Regs)
            r.Again = false;
        std::vector<int> n(M.Regs.size());
        for (auto& r: Called)
            ++n[&Find(r) - &M.Regs[0]];
        std::vector<bool> g(M.Groups.size());
        for (size_t i = 0; i < M.Regs.size(); ++i) {
            if (absent[i] && n[i] < 2)
                due[i] = n[i] != 0;
            symx_assert(n[i] == due[i], "while the port is closed every register whose time has come gets an error once");
            if (due[i]) {
                symx_assert(M.Regs[i].Reg->GetErrorState().test(TRegister::TError::ReadError), "the error is a read error");
                M.Polled(M.Regs[i], now);
                g[M.Regs[i].Group] = true;
                symx_reach("closed");
            }
        }
        for (size_t k = 0; k < g.size(); ++k)
            if (g[k])
                M.GroupPolled((int)k, now);
    }
};
// one or two devices with registers of all kinds; cycles with the port open or closed, failures, suspensions
HARNESS h_poll()
{
    TPollBench b(0);
    ReadTime = 0;
    int devs = (int)symx_param("devs", 2), steps = (int)symx_param("steps", 4);
    bool suspend = symx_param("suspend", 0), closed = symx_param("closed", 1);
    int mri = symx_param("mri", 0) ? (int)Pick("minimal interval", 0, 1) * 300 : 0;
    static const int Layouts[][2][3] = {{{0, -1, -1}, {0, -1, -1}}, {{1, -1, -1}, {1, 0, -1}}, {{1, 2, -1}, {1, -1, -1}}, {{2, 0, -1}, {0, -1, -1}}, {{1, 1, 3}, {2, -1, -1}}, {{4, 2, -1}, {4, -1, -1}}};
    int layout = (int)Pick("layout", (uint64_t)symx_param("l0", 0), (uint64_t)symx_param("l1", 5));
    int64_t limit = (int64_t)SymRange("read rate limit", 10, 100000);
    static const int64_t Periods[] = {100, 1500, 60000};
    int64_t period = 0, period2 = 0; // concrete, because the check of missed periods computes with floating point numbers
    if (layout == 1 || layout == 2 || layout == 4) {
        period = Periods[Pick("read period", 0, 2)];
        period2 = Periods[Pick("read period 2", 0, 2)];
    }
    bool sporadic = symx_param("sporadic", 0) && SymBool("sporadic");
    bool permanent = symx_param("permanent", 0);
    for (int d = 0; d < devs; ++d) {
        b.M.Devs.push_back(MakeDevice(d, mri));
        b.M.Devs[d]->Limit = (size_t)symx_param("batch", 8);
        b.M.Devs[d]->Outcome = [&] { return permanent ? (int)Pick("outcome", 0, 2) : (int)SymBool("failed"); };
        if (symx_param("sessions", 0))
            b.M.Devs[d]->PrepareOutcome = [&] { return (int)SymBool("no session"); };
        for (int k = 0; k < 3; ++k)
            if (Layouts[layout][d][k] >= 0)
                b.AddReg(d, Layouts[layout][d][k], Layouts[layout][d][k] == 2 ? limit : k + d ? period2 : period, sporadic && d == 0 && k == 0);
    }
    b.Start();
    for (int i = 0; i < steps; ++i) {
        int op = (int)Pick("op", 0, (suspend ? 3 : closed ? 1 : 0));
        if (op == 1 && !closed)
            symx_prune();
        symx_clock_ns += (int64_t)SymRange("step", 1, symx_param("maxstep", 1000000)) * MS; // up to 16 minutes
        if (op == 0)
            b.OpenCycle(true);
        else if (op == 1)
            b.ClosedCycle();
        else if (op == 2) {
            int d = devs > 1 ? (int)Pick("device", 0, devs - 1) : 0;
            b.M.SuspendedUntil[d] = symx_clock_ns + 600000 * MS;
            b.Poller.SuspendPoll(b.M.Devs[d], Now());
            symx_assert(b.M.Devs[d]->GetConnectionState() == TDeviceConnectionState::DISCONNECTED, "a suspended device is considered lost");
            symx_reach("suspended");
        } else {
            int d = devs > 1 ? (int)Pick("device", 0, devs - 1) : 0;
            bool was = b.M.SuspendedUntil[d] >= 0, thrown = false;
            if (was)
                b.M.Resume(d);
            try {
                b.Poller.ResumePoll(b.M.Devs[d]);
            } catch (const std::runtime_error&) {
                thrown = true;
            }
            symx_assert(thrown != was, "only a suspended device can be resumed");
            if (was)
                symx_reach("resumed");
        }
    }
    symx_reach("done");
}

// a device that is silent for long is asked less and less often, and as often as before after its first answer
HARNESS h_poll_backoff()
{
    TPollBench b(0);
    ReadTime = 0;
    int devs = (int)symx_param("devs", 1), silent = (int)symx_param("silent", 24), steps = (int)symx_param("steps", 3);
    bool fails = true;
    int64_t limit = symx_param("limit", 0);
    for (int d = 0; d < devs; ++d) {
        b.M.Devs.push_back(MakeDevice(d, 0));
        b.M.Devs[d]->Outcome = [&, d] { return d ? 0 : fails ? 1 : (int)SymBool("failed"); };
        b.AddReg(d, limit ? 2 : 0, limit);
    }
    b.Start();
    for (int i = 0; i < silent; ++i) {
        symx_clock_ns += 12000 * MS;
        for (int d = 0; d < devs; ++d)
            b.OpenCycle(true);
    }
    fails = false;
    for (int i = 0; i < steps; ++i) {
        symx_clock_ns += (int64_t)SymRange("step", 1, 15000) * MS;
        b.OpenCycle(true);
    }
    symx_reach("done");
}

// the time of a request is limited
HARNESS h_poll_limit()
{
    TPollBench b(0);
    int devs = (int)symx_param("devs", 1), steps = (int)symx_param("steps", 2);
    static const int Layouts[][3] = {{1, 1, 0}, {0, 2, -1}, {1, 0, 2}, {1, 1, 1}};
    int layout = (int)Pick("layout", (uint64_t)symx_param("l0", 0), (uint64_t)symx_param("l1", 3));
    int64_t limit = (int64_t)SymRange("read rate limit", 10, 100000);
    b.Each = (int64_t)SymRange("time of one register", 1, 60);
    ReadTime = b.Each * MS;
    for (int d = 0; d < devs; ++d) {
        b.M.Devs.push_back(MakeDevice(d, 0));
        b.M.Devs[d]->Each = milliseconds(b.Each);
        for (int k = 0; k < 3; ++k)
            if (Layouts[layout][k] >= 0)
                b.AddReg(d, Layouts[layout][k], Layouts[layout][k] == 2 ? limit : d ? 1500 : 100);
    }
    b.Start();
    for (int i = 0; i < steps; ++i) {
        symx_clock_ns += (int64_t)SymRange("step", 0, 2000000) * (MS / 10);
        b.MaxPoll = (int64_t)SymRange("allowed time", 0, 200);
        b.AtLeastOne = SymBool("at least one register");
        b.OpenCycle(true);
    }
    symx_reach("done");
}

// the number of registers without a read period that may be read per second is limited
HARNESS h_poll_rate()
{
    TPollBench b((size_t)symx_param("rate", 1));
    int steps = (int)symx_param("steps", 3);
    ReadTime = 0;
    static const int Layouts[][3] = {{0, 0, -1}, {0, 1, 0}, {0, 2, -1}};
    int layout = (int)Pick("layout", 0, 2);
    int64_t limit = (int64_t)SymRange("read rate limit", 10, 3000);
    b.M.Devs.push_back(MakeDevice(0, 0));
    b.M.Devs[0]->Limit = Pick("registers per request", 1, 2);
    for (int k = 0; k < 3; ++k)
        if (Layouts[layout][k] >= 0)
            b.AddReg(0, Layouts[layout][k], Layouts[layout][k] == 2 ? limit : 100);
    b.Start();
    for (int i = 0; i < steps; ++i) {
        symx_clock_ns += (int64_t)SymRange("step", 1, 3000) * MS;
        b.OpenCycle(true);
    }
    symx_reach("done");
}
