// C48 flashing of firmware, C49 updates: state, lock, replies; release lists
#include "fakeport.h"
#include "modbus_base.h"
#include "rpc_fw_downloader.h"
#include "rpc_fw_restore_task.h"
#include "rpc_fw_update_handler.h"
#include "rpc_fw_update_helpers.h"
#include "rpc_fw_update_serial_client_task.h"
#include "rpc_fw_update_state.h"
#include "rpc_fw_update_task.h"
#include "rpc_helpers.h"
#include <algorithm>
using namespace std::chrono;
// A device that answers requests as the harness decides
struct TAnswer
{
    enum
    {
        OK,
        TIMEOUT,
        MALFORMED,
        EXCEPTION,
        IO_ERROR
    } Kind = OK;
    uint8_t Code = 0;
};
struct TRequest
{
    int Slave, Fn;
    unsigned Addr, Count;
    std::vector<uint8_t> Data;
    TAnswer Answer;
};
class TDevice
{
public:
    std::vector<TRequest> Log;
    std::map<unsigned, std::string> Strings; // registers of a string, one character per word
    int Preserve = -1;                       // value of register 131; -1: refused
    std::vector<uint8_t> Presence;           // empty: refused
    std::function<TAnswer(const TRequest&)> Decide;
    std::vector<uint8_t> Do(int slave, const std::vector<uint8_t>& pdu, size_t expected)
    {
        symx_assert(pdu.size() >= 5, "a request has a function, an address and a count or value");
        TRequest r;
        r.Slave = slave;
        r.Fn = pdu[0];
        r.Addr = pdu[1] * 256u + pdu[2];
        r.Count = 1;
        if (r.Fn == 6)
            r.Data.assign(pdu.begin() + 3, pdu.end());
        else
            r.Count = pdu[3] * 256u + pdu[4];
        if (r.Fn == 16) {
            symx_assert(r.Count >= 1 && r.Count <= 123 && pdu.size() == 6 + 2 * r.Count && pdu[5] == 2 * r.Count, "a write request is within the protocol limits and has the right size");
            r.Data.assign(pdu.begin() + 6, pdu.end());
        } else
            symx_assert(pdu.size() == 5, "size of the request");
        if (Decide)
            r.Answer = Decide(r);
        std::vector<uint8_t> res;
        if (r.Answer.Kind == TAnswer::OK) {
            if (r.Fn == 6 || r.Fn == 16)
                res.assign(pdu.begin(), pdu.begin() + 5);
            else if (r.Fn == 2) {
                if (Presence.empty()) {
                    r.Answer.Kind = TAnswer::EXCEPTION;
                    r.Answer.Code = 2;
                } else {
                    res = {2, (uint8_t)Presence.size()};
                    res.insert(res.end(), Presence.begin(), Presence.end());
                }
            } else {
                std::string s;
                bool known = Strings.count(r.Addr) || (r.Addr == 131 && Preserve >= 0);
                if (known) {
                    res = {(uint8_t)r.Fn, (uint8_t)(2 * r.Count)};
                    for (unsigned i = 0; i < r.Count; ++i) {
                        res.push_back(0);
                        res.push_back(r.Addr == 131 ? (uint8_t)Preserve : i < Strings[r.Addr].size() ? (uint8_t)Strings[r.Addr][i] : 0);
                    }
                } else {
                    r.Answer.Kind = TAnswer::EXCEPTION;
                    r.Answer.Code = 2;
                }
            }
        }
        Log.push_back(r);
        switch (r.Answer.Kind) {
            case TAnswer::TIMEOUT:
                throw TResponseTimeoutException();
            case TAnswer::IO_ERROR:
                throw TSerialDeviceException("i/o error");
            case TAnswer::MALFORMED:
                throw Modbus::TMalformedResponseError("invalid crc");
            case TAnswer::EXCEPTION:
                return {(uint8_t)(r.Fn | 0x80), r.Answer.Code};
            default:
                break;
        }
        symx_assert(expected == res.size(), "the size of the expected answer is the size of the regular answer");
        return res;
    }
};
static TDevice* Device;
static std::vector<std::string> TraitsOf; // protocols for which traits were made
class TTraits: public Modbus::IModbusTraits
{
public:
    Modbus::TReadResult Transaction(TPort&, uint8_t slaveId, const std::vector<uint8_t>& pdu, size_t expected, const milliseconds&, const milliseconds&, bool matchSlaveId = true) override
    {
        symx_assert(matchSlaveId, "only answers of the device itself count");
        Modbus::TReadResult r;
        r.SlaveId = slaveId;
        r.Pdu = Device->Do(slaveId, pdu, expected);
        return r;
    }
};
std::unique_ptr<Modbus::IModbusTraits> MakeModbusTraits(const std::string& protocol)
{
    TraitsOf.push_back(protocol);
    return std::make_unique<TTraits>();
}
TSerialPortConnectionSettings ParseRPCSerialPortSettings(const Json::Value& request)
{
    TSerialPortConnectionSettings s;
    if (request.isMember("baud_rate"))
        s.BaudRate = request["baud_rate"].asInt();
    return s;
}
static bool Throws(std::function<void()> f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
// any answer
static TAnswer AnyAnswer(bool io = true)
{
    TAnswer a;
    int k = (int)Pick("answer", 0, io ? 4 : 3);
    a.Kind = (decltype(a.Kind))k;
    if (k == TAnswer::EXCEPTION)
        a.Code = Pick("code4", 0, 1) ? 4 : (uint8_t)SymRange("code", 1, 255);
    return a;
}
// C48: FlashFirmware and TFwFlashTask
HARNESS h_flash()
{
    TDevice dev;
    Device = &dev;
    TParsedWBFW fw;
    fw.Info = SymBytes("info", 32);
    static const int sizes[] = {0, 2, 136, 138, 272, 3};
    int size = sizes[Pick("size", 0, symx_param("sizes", 4))];
    fw.Data = SymBytes("data", size);
    bool reboot = Pick("reboot", 0, 1), preserve = reboot && Pick("preserve", 0, 1);
    int slave = (int)Pick("slave", 0, 1) ? 247 : 1;
    bool ok = true;      // so far
    int phase = reboot ? 0 : 1;
    std::vector<uint8_t> written;
    int tries = 0;
    std::vector<int> progress;
    size_t blocks = (size + 135) / 136;
    size_t next = 0; // block
    bool late = false;
    dev.Decide = [&](const TRequest& r) {
        symx_assert(r.Slave == slave, "only the device itself is addressed");
        symx_assert(ok, "after a failure nothing more is sent");
        TAnswer a = AnyAnswer();
        bool accepted = a.Kind == TAnswer::OK;
        if (phase == 0) {
            symx_assert(r.Fn == 6 && r.Addr == (preserve ? 131 : 129) && r.Data[0] == 0 && r.Data[1] == 1, "the device is told to restart in the bootloader");
            if (!preserve && a.Kind == TAnswer::TIMEOUT) { // it restarted before it could answer
                accepted = true;
                symx_reach("restarted silently");
            }
            ok = accepted;
            phase = 1;
        } else if (phase == 1) {
            symx_assert(r.Fn == 16 && r.Addr == 0x1000 && r.Count == 16 && r.Data == fw.Info, "the description of the firmware is sent first");
            ok = accepted;
            phase = 2;
            if (a.Kind == TAnswer::EXCEPTION)
                symx_reach("refused description");
        } else {
            symx_assert(next < blocks, "nothing is sent after the last block");
            size_t at = next * 136, n = std::min<size_t>(136, size - at);
            std::vector<uint8_t> expected(fw.Data.begin() + at, fw.Data.begin() + at + n);
            if (n % 2)
                expected.push_back(0xff);
            symx_assert(r.Fn == 16 && r.Addr == 0x2000 && r.Data == expected, "blocks are sent in order, each until it is accepted");
            if (a.Kind == TAnswer::EXCEPTION && (symx_is_symbolic(a.Code) ? Pick("is4", 0, 1) : a.Code == 4)) { // the block was written already
                symx_assume(a.Code == 4);
                accepted = true;
                symx_reach("written already");
            } else if (a.Kind == TAnswer::EXCEPTION)
                symx_assume(a.Code != 4);
            ++tries;
            if (accepted) {
                if (tries > 1)
                    symx_reach("repeated");
                ++next;
                tries = 0;
            } else if (tries == 3)
                ok = false;
        }
        return a;
    };
    auto onProgress = [&](int p) {
        progress.push_back(p);
        symx_assert(p == (blocks ? (int)(next * 100 / blocks) : 100), "progress is the part that was accepted");
    };
    bool done = false, failed = false;
    if (symx_param("task", 0)) {
        auto base = std::make_shared<TFakePort>();
        base->IsOpenFlag = Pick("open", 0, 1);
        TraitsOf.clear();
        auto port = std::make_shared<TFeaturePort>(base, false);
        TSerialClientDeviceAccessHandler access(nullptr);
        TFwFlashTask task((uint8_t)slave, "modbus", fw, reboot, preserve, onProgress, [&] { symx_assert(!done && !failed, "one result"); done = true; }, [&](const std::string&) { symx_assert(!done && !failed, "one result"); failed = true; });
        auto r = task.Run(port, access, {});
        symx_assert(r == ISerialClientTask::TRunResult::OK && base->IsOpenFlag, "the task is over, the port was opened");
        symx_assert(TraitsOf.size() == 1 && TraitsOf[0] == "modbus", "protocol");
    } else {
        TFakePort port;
        TTraits traits;
        done = !Throws([&] { FlashFirmware(traits, port, (uint8_t)slave, fw, reboot, preserve, onProgress); });
        failed = !done;
    }
    bool complete = ok && phase == 2 && next == blocks;
    symx_assert(done == complete && failed == !complete, "success is reported exactly if the device accepted the restart, the description and every block");
    symx_assert(progress.size() == (blocks ? next : complete ? 1 : 0), "progress is reported after every block");
    symx_reach(done ? "done" : "failed");
    Device = nullptr;
}
// C49: what is published is the list of updates
struct TUpd
{
    int Slave;
    std::string Path, Type;
    int Progress;
    bool Error;
    std::string From, To;
    int Component;
};
static Json::Value ParseJson(const std::string& s)
{
    Json::Value v;
    Json::CharReaderBuilder b;
    std::unique_ptr<Json::CharReader> r(b.newCharReader());
    std::string err;
    symx_assert(r->parse(s.data(), s.data() + s.size(), &v, &err), "the published state is JSON");
    return v;
}
static void CheckPublished(const std::string& text, const std::vector<TUpd>& model)
{
    auto v = ParseJson(text);
    symx_assert(v["devices"].isArray() && v["devices"].size() == model.size(), "the state has every update once");
    for (size_t i = 0; i < model.size(); ++i) {
        const auto& d = v["devices"][(Json::ArrayIndex)i];
        auto& m = model[i];
        symx_assert(d["slave_id"].asInt() == m.Slave && d["port"]["path"].asString() == m.Path && d["type"].asString() == m.Type && d["protocol"].asString() == "modbus", "device and kind of the update");
        symx_assert(d["progress"].asInt() == m.Progress && d["from_version"].asString() == m.From && d["to_version"].asString() == m.To, "progress and versions");
        symx_assert(d["error"].isNull() == !m.Error, "error");
        symx_assert(m.Component < 0 ? d["component_number"].isNull() && d["component_model"].isNull() : d["component_number"].asInt() == m.Component && d["component_model"].asString() == "C", "component");
    }
}
HARNESS h_state()
{
    std::vector<std::pair<std::string, bool>> published;
    TFwUpdateState state([&](const std::string& topic, const std::string& s, bool retain) {
        symx_assert(topic == "/topic", "topic");
        published.push_back({s, retain});
    }, "/topic");
    std::vector<TUpd> model;
    static const char* types[] = {"firmware", "component"};
    static const char* paths[] = {"/dev/a", "/dev/b"};
    int steps = (int)symx_param("steps", 3);
    for (int s = 0; s < steps; ++s) {
        int op = (int)Pick("op", 0, 4);
        int who = op == 4 ? 0 : (int)Pick("who", 0, symx_param("who", 2)); // a device, another slave id, another port
        int slave = who == 1 ? 12 : 11;
        std::string path = paths[who == 2], type = types[op == 4 ? 0 : Pick("type", 0, 1)];
        auto it = std::find_if(model.begin(), model.end(), [&](const TUpd& u) { return u.Slave == slave && u.Path == path && u.Type == type; });
        size_t count = published.size(), expected = count + 1;
        switch (op) {
            case 0: {
                static const int values[] = {0, 99, 100};
                TUpd u{slave, path, type, values[Pick("progress", 0, 2)], (bool)Pick("error", 0, 1), "1." + std::to_string(s), "2." + std::to_string(s), type == "component" ? s : -1};
                TDeviceUpdateInfo i;
                i.SlaveId = slave;
                i.PortPath = path;
                i.Type = type;
                i.Protocol = "modbus";
                i.Progress = u.Progress;
                i.FromVersion = u.From;
                i.ToVersion = u.To;
                i.ComponentNumber = u.Component;
                i.ComponentModel = u.Component >= 0 ? "C" : "";
                if (u.Error)
                    i.Error = std::make_unique<TStateError>(TStateError{"id", "message", Json::Value()});
                state.Update(i);
                if (it == model.end())
                    model.push_back(u);
                else
                    *it = u;
                break;
            }
            case 1:
                state.Remove(slave, path, type);
                if (it != model.end())
                    model.erase(it);
                break;
            case 2:
                state.SetError(slave, path, type, "id", "message");
                if (it == model.end())
                    expected = count;
                else
                    it->Error = true;
                break;
            case 3:
                state.ClearError(slave, path, type);
                if (it == model.end() || !it->Error)
                    expected = count;
                else
                    model.erase(it);
                break;
            case 4:
                state.Reset();
                model.clear();
                break;
        }
        symx_assert(published.size() == expected, "every change is published once");
        if (expected > count) {
            symx_assert(published.back().second, "the state is retained");
            CheckPublished(published.back().first, model);
        }
        for (int w = 0; w < 3; ++w) {
            int sl = w == 1 ? 12 : 11;
            std::string p = paths[w == 2];
            bool active = false;
            for (auto& u: model)
                active |= u.Slave == sl && u.Path == p && u.Progress < 100 && !u.Error;
            symx_assert(state.HasActiveUpdate(sl, p) == active, "an update is active until it is complete or failed");
            if (active)
                symx_reach("active");
        }
    }
    symx_reach("done");
}
// C49: progress is published from time to time
HARNESS h_notifier()
{
    int n = (int)symx_param("n", 30);
    TUpdateNotifier notifier(n);
    int last = -1, count = 0, p = 0;
    int steps = (int)symx_param("steps", 2);
    for (int i = 0; i < steps; ++i) {
        p = (int)Pick("progress", p, 100);
        bool due = notifier.ShouldNotify(p);
        // a new part of 100/n percent (at least one percent) has begun
        double step = std::max(100.0 / n, 1.0);
        bool expected = p >= 100 || last < 0 || (int)(p / step) > (int)(last / step);
        symx_assert(due == expected, "progress is published when a new part begins, and at the end");
        if (due) {
            last = p;
            ++count;
        }
    }
    symx_observe("count", count);
    symx_reach("done");
}
// ---------------------------------------------------------------- whole updates
struct THttp: public IHttpClient
{
    std::map<std::string, std::string> Texts;
    std::map<std::string, std::vector<uint8_t>> Files;
    std::vector<std::string> Asked;
    std::string GetText(const std::string& url) override
    {
        Asked.push_back(url);
        if (!Texts.count(url))
            throw std::runtime_error("no " + url);
        return Texts[url];
    }
    std::vector<uint8_t> GetBinary(const std::string& url) override
    {
        Asked.push_back(url);
        if (!Files.count(url))
            throw std::runtime_error("no " + url);
        return Files[url];
    }
};
static const std::string Base = "https://fw-releases.wirenboard.com";
struct TRunner: public ITaskRunner
{
    std::vector<std::pair<Json::Value, PSerialClientTask>> Tasks;
    bool Fail = false;
    void RunTask(const Json::Value& request, PSerialClientTask task) override
    {
        if (Fail)
            throw std::runtime_error("no such port");
        Tasks.push_back({request, task});
    }
};
struct TReply
{
    int Results = 0, Errors = 0;
    Json::Value Result;
    std::string Error;
    WBMQTT::TMqttRpcServer::TResultCallback OnResult()
    {
        return [this](const Json::Value& v) {
            ++Results;
            Result = v;
        };
    }
    WBMQTT::TMqttRpcServer::TErrorCallback OnError()
    {
        return [this](int, const std::string& e) {
            ++Errors;
            Error = e;
        };
    }
};
struct TUpdateBench
{
    TDevice Dev;
    std::shared_ptr<THttp> Http = std::make_shared<THttp>();
    TRunner Runner;
    std::vector<std::string> Published;
    PFwUpdateState State;
    std::unique_ptr<TRPCFwUpdateHandler> Handler;
    std::shared_ptr<TFakePort> BasePort = std::make_shared<TFakePort>();
    PFeaturePort Port = std::make_shared<TFeaturePort>(BasePort, false);
    TSerialClientDeviceAccessHandler Access{nullptr};
    Json::Value Request;
    TUpdateBench()
    {
        Device = &Dev;
        State = std::make_shared<TFwUpdateState>([this](const std::string&, const std::string& s, bool) { Published.push_back(s); OnPublish(); }, "t");
        Handler.reset(new TRPCFwUpdateHandler(Runner, Http, State, "stable"));
        Request["slave_id"] = 7;
        Request["port"]["path"] = "/dev/a";
        // version 1.5.0 of the firmware, bootloader 1.2.0, component 2.0
        Http->Texts[Base + "/fw/by-signature/release-versions.yaml"] = "releases:\n  sigA:\n    stable: fw/sigA/1.5.0.wbfw\n    testing: fw/sigA/1.9.0.wbfw\n  compB:\n    stable: fw/compB/2.0.compfw\n";
        Http->Texts[Base + "/boot/by-signature/release-versions.yaml"] = "releases:\n  sigA:\n    stable: boot/sigA/1.2.0.wbfw\n";
        Http->Files[Base + "/fw/sigA/1.5.0.wbfw"] = File(1);
        Http->Files[Base + "/boot/sigA/1.2.0.wbfw"] = File(2);
        Http->Files[Base + "/fw/compB/2.0.compfw"] = File(3);
        Dev.Strings[290] = "sigA";
        Dev.Strings[250] = "1.4.0";
        Dev.Strings[330] = "1.1.0";
        Dev.Strings[200] = "MODEL";
    }
    ~TUpdateBench()
    {
        Device = nullptr;
    }
    std::function<void()> OnPublish = [] {};
    static std::vector<uint8_t> File(int kind)
    {
        std::vector<uint8_t> v(32, (uint8_t)kind);
        v.push_back((uint8_t)(kind + 16));
        v.push_back(0);
        return v;
    }
    void Component(int number, const std::string& version, const std::string& signature = "compB")
    {
        if (Dev.Presence.empty())
            Dev.Presence = {0};
        Dev.Presence[0] |= 1 << number;
        Dev.Strings[64788 + 48 * number] = signature;
        Dev.Strings[64800 + 48 * number] = version;
        Dev.Strings[64768 + 48 * number] = "C";
    }
    void RunAll()
    {
        while (!Runner.Tasks.empty()) {
            auto t = Runner.Tasks.front();
            Runner.Tasks.erase(Runner.Tasks.begin());
            symx_assert(t.first["path"].asString() == "/dev/a" && t.first["slave_id"].asString() == "7", "the task is run on the port of the device");
            t.second->Run(Port, Access, {});
        }
    }
    bool Entry(const std::string& type, bool& error)
    {
        if (Published.empty())
            return false;
        auto v = ParseJson(Published.back());
        bool found = false;
        for (Json::ArrayIndex i = 0; i < v["devices"].size(); ++i)
            if (v["devices"][i]["type"].asString() == type) {
                symx_assert(!found, "one update of a kind");
                found = true;
                error = !v["devices"][i]["error"].isNull();
            }
        return found;
    }
};
// C49: an update, from the request to its end
HARNESS h_update()
{
    TUpdateBench b;
    static const char* types[] = {"firmware", "bootloader", "component", "other"};
    int type = (int)Pick("type", 0, 3);
    bool restore = type == 0 && Pick("restore", 0, 1);
    int comps = restore || type == 1 ? 0 : (int)Pick("components", 0, symx_param("components", 1));
    bool newer[2] = {};
    for (int i = 0; i < comps; ++i) {
        newer[i] = Pick("newer", 0, 1);
        b.Component(i, newer[i] ? "1.0" : "2.0");
    }
    // what goes wrong
    bool silent = Pick("silent", 0, 1); // the device does not answer at all
    bool opens = true;
    int indexKind = silent ? 0 : (int)Pick("index", 0, 2); // fine, not available, without the device
    if (indexKind == 1)
        b.Http->Texts.clear();
    if (indexKind == 2)
        b.Http->Texts[Base + "/fw/by-signature/release-versions.yaml"] = "releases:\n  other:\n    stable: x/1.wbfw\n";
    int fileKind = indexKind || silent ? 0 : (int)Pick("file", 0, 2); // fine, not available, broken
    if (fileKind)
        for (auto& f: b.Http->Files) {
            if (fileKind == 2)
                f.second.resize(31);
        }
    if (fileKind == 1)
        b.Http->Files.clear();
    b.Dev.Preserve = Pick("preserve", 0, 1) ? 0 : -1;
    bool canFail = !silent && !indexKind && !fileKind;
    bool flashFails = false;
    bool lastFails = false; // the state has one entry for all components, the last of them counts
    int refused = 0;
    std::vector<int> accepted; // contents the device took
    int current = 0;
    bool restarted = false;
    std::vector<int> restarts;
    b.Dev.Decide = [&](const TRequest& r) {
        symx_assert(r.Slave == 7, "only the device itself is addressed");
        TAnswer a;
        if (silent)
            a.Kind = TAnswer::TIMEOUT;
        else if (r.Fn == 6) {
            symx_assert(r.Addr == (b.Dev.Preserve == 0 ? 131 : 129), "restart with the settings of the port if the device can");
            restarted = true;
        } else if (r.Fn == 16) {
            symx_assert(!canFail || !silent, "the device answers");
            if (Pick("refuse", 0, 1)) {
                a.Kind = TAnswer::EXCEPTION;
                a.Code = 2;
                refused = r.Addr == 0x1000 ? 3 : refused + 1;
                lastFails = refused == 3;
                flashFails = flashFails || lastFails;
                if (r.Addr == 0x1000)
                    current = 0;
            } else if (r.Addr == 0x1000) {
                current = r.Data[0];
                refused = 0;
                lastFails = false;
                restarts.push_back(restarted);
                restarted = false;
            } else {
                symx_assert(current == r.Data[0] - 16, "the data belong to the description");
                accepted.push_back(current);
                refused = 0;
                lastFails = false;
            }
        }
        if (r.Fn != 3 && r.Fn != 4 && r.Fn != 2)
            symx_assert(b.State->HasActiveUpdate(7, "/dev/a"), "an update is active while something is written to the device");
        return a;
    };
    // requests that come while the update runs
    bool asked = false;
    b.OnPublish = [&] {
        if (asked || !b.State->HasActiveUpdate(7, "/dev/a"))
            return;
        asked = true;
        TReply second;
        size_t tasks = b.Runner.Tasks.size();
        b.Handler->Update(b.Request, second.OnResult(), second.OnError());
        b.Handler->Restore(b.Request, second.OnResult(), second.OnError());
        b.Handler->GetFirmwareInfo(b.Request, second.OnResult(), second.OnError());
        symx_assert(second.Errors == 3 && !second.Results && b.Runner.Tasks.size() == tasks, "nothing else is done with the device meanwhile");
        symx_reach("busy");
    };
    b.Request["type"] = types[type];
    TReply reply;
    if (restore)
        b.Handler->Restore(b.Request, reply.OnResult(), reply.OnError());
    else
        b.Handler->Update(b.Request, reply.OnResult(), reply.OnError());
    symx_assert(!reply.Results && !reply.Errors && b.Runner.Tasks.size() == 1, "an update is started");
    {
        TReply second;
        b.Handler->Update(b.Request, second.OnResult(), second.OnError());
        symx_assert(second.Errors == 1 && !second.Results && b.Runner.Tasks.size() == 1, "one update at a time");
    }
    b.RunAll();
    symx_assert(reply.Results + reply.Errors == 1, "a request has one answer");
    bool startError = restore ? indexKind != 0 && !silent : silent;
    symx_assert(reply.Errors == (startError ? 1 : 0), "an update starts if the device answers");
    // what must have been done
    bool error[3] = {}, present[3];
    for (int i = 0; i < 3; ++i)
        present[i] = b.Entry(types[i], error[i]);
    for (int i = 0; i < 3; ++i)
        symx_assert(!present[i] || error[i], "an update that is over is not shown as active");
    symx_assert(!b.State->HasActiveUpdate(7, "/dev/a"), "no update is active");
    bool problem = flashFails || fileKind;
    std::vector<int> wanted;
    if (!silent && !indexKind && !fileKind && !flashFails) {
        if (type == 0)
            wanted.push_back(1);
        if (type == 1)
            wanted = {2, 1};
        if (type == 0 || type == 2)
            for (int i = 0; i < comps; ++i)
                if (newer[i])
                    wanted.push_back(3);
    }
    if (!flashFails) {
        symx_assert(accepted == wanted, "exactly the released versions are flashed");
        for (size_t i = 0; i < restarts.size(); ++i)
            symx_assert(restarts[i] == (i == 0 && type != 2 && !restore), "the device is restarted to the bootloader once");
        if (!fileKind)
            symx_assert(!present[0] && !present[1] && !present[2], "a successful update leaves nothing behind");
        if (!wanted.empty())
            symx_reach("updated");
    }
    bool started = !silent && !indexKind && type < 3;
    if (flashFails) {
        symx_assert(!lastFails || present[0] || present[1] || present[2], "a failed update is reported");
        symx_reach("failed");
    }
    if (fileKind && started && type != 2)
        symx_assert(present[0] || present[1], "a firmware that can not be loaded is reported");
    (void)problem;
    // errors are removed on request, and the next update can start
    b.OnPublish = [] {};
    for (int i = 0; i < 3; ++i) {
        b.Request["type"] = types[i];
        b.Handler->ClearError(b.Request);
        bool e;
        symx_assert(!b.Entry(types[i], e), "an error can be cleared");
    }
    TReply next;
    b.Request["type"] = "firmware";
    b.Handler->Update(b.Request, next.OnResult(), next.OnError());
    symx_assert(!next.Errors && b.Runner.Tasks.size() == 1, "the next update can be started");
    symx_reach("done");
}
// C49: requests that can not be started
HARNESS h_requests()
{
    TUpdateBench b;
    int method = (int)Pick("method", 0, 2);
    int bad = (int)Pick("bad", 0, 6);
    int64_t slave = (int64_t)SymRange("slave", 0, 255);
    b.Request["slave_id"] = (Json::Int64)slave;
    if (bad == 1)
        b.Request.removeMember("slave_id");
    if (bad == 2) {
        slave = (int64_t)SymRange("big", 256, 1u << 31);
        b.Request["slave_id"] = (Json::Int64)slave;
    }
    if (bad == 3)
        b.Request["slave_id"] = "7";
    if (bad == 4)
        b.Request["port"].removeMember("path");
    if (bad == 5)
        b.Request["port"]["path"] = "";
    b.Runner.Fail = bad == 6;
    TReply r;
    auto call = [&](TReply& reply) {
        if (method == 0)
            b.Handler->Update(b.Request, reply.OnResult(), reply.OnError());
        if (method == 1)
            b.Handler->Restore(b.Request, reply.OnResult(), reply.OnError());
        if (method == 2)
            b.Handler->GetFirmwareInfo(b.Request, reply.OnResult(), reply.OnError());
    };
    bool thrown = Throws([&] { call(r); });
    symx_assert(!thrown, "a request is answered");
    symx_assert(r.Errors == (bad ? 1 : 0) && !r.Results && b.Runner.Tasks.size() == (bad ? 0 : 1), "a request that can not be started is refused");
    if (!bad) {
        symx_assert(b.Runner.Tasks[0].first["slave_id"].asString() == std::to_string(slave) && b.Runner.Tasks[0].first["path"].asString() == "/dev/a" && b.Runner.Tasks[0].first["protocol"].asString() == "modbus", "the device asked for");
        symx_reach("started");
        return;
    }
    b.Request["slave_id"] = 7;
    b.Request["port"]["path"] = "/dev/a";
    b.Runner.Fail = false;
    TReply next;
    call(next);
    symx_assert(!next.Errors && b.Runner.Tasks.size() == 1, "a refused request does not block the next one");
    symx_reach("refused");
}
// C49: what is told about a device
HARNESS h_info()
{
    TUpdateBench b;
    // versions of the device
    static const char* versions[] = {"1.4.0", "1.5.0", "1.6.0", "1.5.0-rc1"};
    int v = (int)Pick("version", 0, 4), boot = (int)Pick("boot", 0, 2), sig = (int)Pick("signature", 0, 3);
    if (v < 4)
        b.Dev.Strings[250] = versions[v];
    else
        b.Dev.Strings.erase(250);
    if (boot == 1)
        b.Dev.Strings[330] = "1.2.0";
    if (boot == 2)
        b.Dev.Strings[330] = std::string(1, (char)SymRange("garbage", 0x80, 0xff));
    if (sig == 1)
        b.Dev.Strings[290] = "none";
    if (sig == 2)
        b.Dev.Strings[290] = "msw5GL";
    if (sig == 3)
        b.Dev.Strings[290] = std::string(1, (char)SymRange("garbage", 1, 0x1f));
    bool modelRead = Pick("model", 0, 1);
    if (!modelRead)
        b.Dev.Strings.erase(200);
    else
        b.Dev.Strings[200] = "MO\x02" "DEL";
    int comp = (int)Pick("component", 0, 4);
    if (comp)
        b.Component((int)Pick("number", 0, 1) * 7, comp == 1 ? "1.0" : "2.0", comp == 3 ? std::string(12, '\xfe') : comp == 4 ? "none" : "compB");
    int index = (int)Pick("index", 0, 2);
    if (index == 1)
        b.Http->Texts.erase(Base + "/fw/by-signature/release-versions.yaml");
    if (index == 2)
        b.Http->Texts.erase(Base + "/boot/by-signature/release-versions.yaml");
    TReply r;
    b.Handler->GetFirmwareInfo(b.Request, r.OnResult(), r.OnError());
    b.RunAll();
    symx_assert(r.Results == 1 && !r.Errors, "a device that answers is described");
    const auto& j = r.Result;
    bool known = sig == 0;
    symx_assert(j["fw"].asString() == (v < 4 ? versions[v] : "") && j["bootloader"].asString() == (boot == 0 ? "1.1.0" : boot == 1 ? "1.2.0" : ""), "versions of the device; unreadable ones are empty");
    symx_assert(j["model"].asString() == (modelRead ? "MODEL" : ""), "model");
    symx_assert(j["available_fw"].asString() == (known && index != 1 ? "1.5.0" : "") && j["available_bootloader"].asString() == (known && index != 2 ? "1.2.0" : ""), "released versions for its signature and suite");
    symx_assert(j["fw_has_update"].asBool() == (known && index != 1 && (v == 0 || v == 3)), "a newer firmware");
    symx_assert(j["bootloader_has_update"].asBool() == (known && index != 2 && boot == 0), "a newer bootloader");
    symx_assert(j["can_update"].asBool() == known, "a device can be updated if there is something for it");
    bool shown = sig < 2 && index != 1 && (comp == 1 || comp == 2);
    symx_assert(j["components"].size() == (shown ? 1 : 0), "components with a release");
    if (shown) {
        auto names = j["components"].getMemberNames();
        const auto& c = j["components"][names[0]];
        symx_assert((names[0] == "0" || names[0] == "7") && c["fw"].asString() == (comp == 1 ? "1.0" : "2.0") && c["available_fw"].asString() == "2.0" && c["has_update"].asBool() == (comp == 1) && c["model"].asString() == "C", "a component");
        symx_reach("component");
    }
    symx_assert(b.Dev.Log.size() > 0 && std::all_of(b.Dev.Log.begin(), b.Dev.Log.end(), [](const TRequest& q) { return q.Fn <= 4; }), "nothing is written to the device");
    symx_reach("done");
}
// C49: lists of released versions
HARNESS h_releases()
{
    std::map<std::string, std::map<std::string, std::string>> expected;
    std::string text;
    static const char* eols[] = {"\n", "\r\n", "  \n"};
    std::string eol = eols[Pick("eol", 0, 2)];
    if (Pick("head", 0, 1))
        text += "# comment" + eol + "version: 1" + eol + eol;
    bool in = Pick("releases", 0, 1);
    if (in)
        text += "releases:" + eol;
    int n = (int)symx_param("n", 2);
    static const char* sigs[] = {"a", "b"};
    static const char* suites[] = {"stable", "testing"};
    for (int i = 0; i < n; ++i) {
        std::string s = sigs[Pick("sig", 0, 1)];
        text += "  " + s + ":" + eol;
        if (in)
            expected[s];
        int m = (int)Pick("count", 0, 2);
        for (int k = 0; k < m; ++k) {
            std::string u = suites[k], path = "fw/" + std::to_string(i) + std::to_string(k) + "/1.2.wbfw";
            if (Pick("comment", 0, 1))
                text += "    # c: d" + eol;
            text += "    " + u + ": " + path + eol;
            if (in)
                expected[s][u] = path;
        }
    }
    if (Pick("tail", 0, 1))
        text += "other:" + eol + "  c:" + eol + "    stable: x" + eol;
    auto res = ParseReleaseVersionsYaml(text);
    symx_assert(res == expected, "the list of released versions is read exactly");
    symx_reach("done");
}
// C49: any text is read without an error; nothing appears that is not in it
HARNESS h_releases_any()
{
    int n = (int)Pick("n", 0, symx_param("hi", 3));
    static const char* heads[] = {"releases:\n", "releases:\n  a:\n", "releases:\n  a:\n    s: p\n"};
    int h = (int)Pick("head", 0, 2);
    std::string text = heads[h] + SymStr("c", n);
    auto res = ParseReleaseVersionsYaml(text);
    symx_assert(res.size() <= 2u + n && (h < 1 || res.count("a")) && (h < 2 || res["a"].count("s")), "what was read stays");
    symx_reach("done");
}
// C49: release lists and firmware are loaded again after their time only
HARNESS h_cache()
{
    auto http = std::make_shared<THttp>();
    TFwDownloader d(http);
    std::string fwIndex = Base + "/fw/by-signature/release-versions.yaml", bootIndex = Base + "/boot/by-signature/release-versions.yaml";
    int64_t expires[3] = {-1, -1, -1}; // firmware list, bootloader list, file
    int version[3] = {};
    int steps = (int)symx_param("steps", 3);
    for (int s = 1; s <= steps; ++s) {
        symx_clock_ns += (int64_t)SymRange("pause", 0, 3 * 3600) * 1000000000;
        int64_t now = symx_clock_ns;
        int what = (int)Pick("what", 0, 2);
        bool up = Pick("up", 0, 1);
        http->Asked.clear();
        http->Texts.clear();
        http->Files.clear();
        if (up) {
            http->Texts[fwIndex] = "releases:\n  a:\n    stable: fw/" + std::to_string(s) + ".wbfw\n";
            http->Texts[bootIndex] = "releases:\n  a:\n    stable: boot/" + std::to_string(s) + ".wbfw\n";
            http->Files["u"] = std::vector<uint8_t>(34, (uint8_t)s);
        }
        int got = -1;
        bool bad = Throws([&] {
            if (what == 2) {
                auto f = d.DownloadAndParseWBFW("u");
                got = f.Data.at(0);
                symx_assert(f.Info.size() == 32 && f.Data.size() == 2 && f.Info[0] == got, "a file is a description of 32 bytes and data");
            } else {
                auto r = what ? d.GetReleasedBootloader("a", "stable") : d.GetReleasedFirmware("a", "stable");
                symx_assert(r.Endpoint == Base + (what ? "/boot/" : "/fw/") + r.Version + ".wbfw", "address of the file");
                got = atoi(r.Version.c_str());
            }
        });
        bool fresh = expires[what] > now; // forks
        if (fresh) {
            symx_assert(!bad && got == version[what] && http->Asked.empty(), "what was loaded recently is used again");
            symx_reach("cached");
        } else {
            symx_assert(bad == !up && http->Asked.size() == 1, "everything else is loaded");
            if (up) {
                symx_assert(got == s, "the present contents");
                static const int64_t minutes[] = {10, 30, 120};
                expires[what] = now + minutes[what] * 60 * 1000000000;
                version[what] = s;
                symx_reach("loaded");
            } else
                symx_reach("unavailable");
        }
    }
}
