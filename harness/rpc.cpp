// C50 requests to ports: raw and Modbus exchanges, setup of communication parameters, probing, scanning
#include "rpcbench.h"
#include "devices/modbus_device.h"
#include "modbus_ext_common.h"
#include "wb_registers.h"
#include "rpc_device_handler.h"
#include "rpc_device_probe_task.h"
#include "rpc_port_handler.h"
#include "rpc_port_load_modbus_serial_client_task.h"
#include "rpc_port_load_raw_serial_client_task.h"
#include "rpc_port_load_request.h"
#include "rpc_port_setup_serial_client_task.h"
#include "rpc_port_scan_serial_client_task.h"
#include <algorithm>
static const char* HexDigits = "0123456789abcdefABCDEF";
static int HexValue(char c)
{
    if (c >= '0' && c <= '9')
        return c - '0';
    if (c >= 'a' && c <= 'f')
        return c - 'a' + 10;
    if (c >= 'A' && c <= 'F')
        return c - 'A' + 10;
    return -1;
}
static std::string ToHex(const std::vector<uint8_t>& v)
{
    std::string s;
    for (auto b: v) {
        s += HexDigits[b >> 4];
        s += HexDigits[b & 15];
    }
    return s;
}
static bool IsText(const std::string& s, const std::vector<uint8_t>& v, bool hex)
{
    if (s.size() != v.size() * (hex ? 2 : 1))
        return false;
    bool ok = true;
    for (size_t i = 0; i < v.size(); ++i) {
        if (!hex) {
            ok &= (uint8_t)s[i] == v[i];
            continue;
        }
        for (int k = 0; k < 2; ++k) {
            uint8_t n = k ? v[i] & 15 : v[i] >> 4;
            ok &= (uint8_t)s[2 * i + k] == (n < 10 ? '0' + n : 'a' + n - 10);
        }
    }
    return ok;
}
// C50: hexadecimal messages
HARNESS h_hex()
{
    size_t n = Pick("len", 0, symx_param("hi", 4));
    auto text = SymStr("msg", n);
    bool good = n % 2 == 0;
    if (good)
        for (char c: text) {
            bool digit = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
            if (!symx_choose(digit))
                good = false;
        }
    std::vector<uint8_t> bytes;
    bool thrown = Throws([&] { bytes = HexStringToByteVector(text); });
    symx_assert(thrown == !good, "a hexadecimal message is an even number of hexadecimal digits, anything else is refused");
    if (thrown) {
        symx_reach("refused");
        return;
    }
    symx_assert(bytes.size() == n / 2, "two digits are one byte");
    for (size_t i = 0; i < bytes.size(); ++i)
        symx_assert(bytes[i] == (HexValue(text[2 * i]) * 16 + HexValue(text[2 * i + 1])), "value of the digits");
    symx_reach("accepted");
}
HARNESS h_format()
{
    auto bytes = SymBytes("byte", Pick("len", 0, symx_param("hi", 3)));
    symx_assert(IsText(FormatResponse(bytes, TRPCMessageFormat::RPC_MESSAGE_FORMAT_HEX), bytes, true), "every byte is two hexadecimal digits");
    symx_assert(IsText(FormatResponse(bytes, TRPCMessageFormat::RPC_MESSAGE_FORMAT_STR), bytes, false), "text is passed as is");
    symx_reach("done");
}
struct TBench
{
    WBMQTT::PMqttRpcServer Server = std::make_shared<WBMQTT::TMqttRpcServer>();
    TSerialClientTaskRunner Runner{nullptr};
    TRPCDeviceParametersCache Cache;
    TRPCPortHandler Handler{"", "", "", nullptr, Runner, Cache, Server};
    std::shared_ptr<TLoggingPort> Base = std::make_shared<TLoggingPort>();
    TReply Reply;
    bool Refused = false;
    TBench()
    {
        Tasks.clear();
        RequestedDevice.reset();
    }
    // true if a task was made
    bool Start(const std::string& method, const Json::Value& request)
    {
        Refused = Throws([&] { Server->AsyncMethods.at(method)(request, Reply.OnResult(), Reply.OnError()); });
        Refused |= Reply.Errors > 0;
        symx_assert(Reply.Results == 0 && Reply.Errors <= 1 && Tasks.size() == (Refused ? 0 : 1), "a request is refused or becomes a task");
        return !Refused;
    }
    bool Run(bool modbusTcp = false, const std::list<PSerialDevice>& polled = {})
    {
        auto port = std::make_shared<TFeaturePort>(Base, modbusTcp);
        TSerialClientDeviceAccessHandler access(nullptr);
        ISerialClientTask::TRunResult r = ISerialClientTask::TRunResult::RETRY;
        bool thrown = Throws([&] { r = Tasks[0]->Run(port, access, polled); });
        symx_assert(!thrown && r == ISerialClientTask::TRunResult::OK, "the task is over");
        Reply.One();
        Tasks.clear();
        return Reply.Results;
    }
};
// C50: bytes are sent as given, the answer is returned as it came
HARNESS h_raw()
{
    TBench b;
    Json::Value req;
    AddSettings(req, (int)Pick("settings", 0, 1));
    bool hex = Pick("hex", 0, 1);
    auto message = hex && !symx_param("sym", 0) ? std::vector<uint8_t>{0x0a, 0xf3, 0x00} : SymBytes("msg", 3);
    message.resize(Pick("len", 1, 3));
    auto answer = SymBytes("answer", Pick("alen", 0, 3));
    size_t size = Pick("size", 0, 3);
    if (hex) {
        req["format"] = "HEX";
        req["msg"] = ToHex(message);
    } else {
        if (Pick("fmt", 0, 1))
            req["format"] = "STR";
        req["msg"] = std::string(message.begin(), message.end());
    }
    req["response_size"] = (int)size;
    int64_t total = 10000;
    if (Pick("timeouts", 0, 1)) {
        req["total_timeout"] = (int)(total = 300);
        req["response_timeout"] = 77;
        req["frame_timeout"] = 33;
    }
    symx_assert(b.Start("port/Load", req), "a good request is accepted");
    int64_t delay = (int64_t)SymRange("delay", 0, 12000) * MS;
    symx_clock_ns += delay;
    int fault = (int)Pick("fault", 0, 4);
    b.Base->FailOpen = fault == 1;
    b.Base->FailApply = fault == 2;
    b.Base->FailWrite = fault == 3;
    b.Base->FailRead = fault == 4;
    bool open = b.Base->IsOpenFlag = Pick("open", 0, 1);
    b.Base->Answers.push_back(answer);
    bool late = symx_choose(delay > total * MS);
    bool ok = b.Run();
    if (late) {
        symx_assert(!ok && b.Reply.Code == WBMQTT::E_RPC_REQUEST_TIMEOUT && b.Base->Sent.empty() && b.Base->Applied.empty(), "a request that waited too long is not executed");
        symx_reach("expired");
        return;
    }
    bool opened = open || fault != 1;
    if (!opened) {
        symx_assert(!ok && b.Base->Applied.empty(), "a port that can't be opened is an error");
        symx_reach("not opened");
        return;
    }
    b.Base->CheckSettings(req, 0, 0, b.Base->Sent.size());
    symx_assert(b.Base->Applied.size() <= 2, "settings are changed once");
    symx_assert(b.Base->Sent.size() == (fault == 2 || fault == 3 ? 0 : 1), "the message is sent once");
    bool good = fault < 2 && (answer.size() || !size);
    symx_assert(ok == good, "the request succeeds if the exchange was possible");
    if (!b.Base->Sent.empty()) {
        symx_assert(b.Base->Sent[0] == message, "the message is sent as given");
        if (b.Base->Requested.size())
            symx_assert(b.Base->Requested[0] == size && b.Base->ResponseTimeouts[0] == milliseconds(total == 300 ? 77 : 500) && b.Base->FrameTimeouts[0] == milliseconds(total == 300 ? 33 : 20), "the requested number of bytes is awaited for the requested time");
    }
    if (!ok) {
        symx_assert(b.Reply.Code == WBMQTT::E_RPC_SERVER_ERROR, "an i/o error");
        symx_reach("failed");
        return;
    }
    answer.resize(std::min(answer.size(), size));
    symx_assert(b.Reply.Result.size() == 1 && IsText(b.Reply.Result["response"].asString(), answer, hex), "the answer is returned as it came");
    symx_reach("done");
}
// C50: what is not in the range of Modbus is refused
HARNESS h_modbus_params()
{
    TBench b;
    Json::Value req;
    AddSettings(req);
    req["protocol"] = "modbus";
    static const char* names[] = {"slave_id", "address", "count", "write_address", "write_count", "function"};
    uint64_t v[] = {1, 2, 1, 4, 1, 3};
    int which = (int)Pick("which", 0, 5);
    v[which] = Sym64("value");
    for (int i = 0; i < 6; ++i)
        req[names[i]] = (Json::UInt64)v[i];
    bool good = which == 0 ? v[0] <= 0xFF : which < 5 ? v[which] <= 0xFFFF : (v[5] >= 1 && v[5] <= 6) || v[5] == 15 || v[5] == 16 || v[5] == 23;
    bool ok = b.Start("port/Load", req);
    symx_assert(ok == good, "a slave id, an address, a count or a function that Modbus does not have is refused");
    symx_reach(ok ? "accepted" : "refused");
}
// C50: one Modbus exchange
HARNESS h_modbus()
{
    TBench b;
    static const int functions[] = {1, 2, 3, 4, 5, 6, 15, 16, 23};
    int fn = functions[Pick("fn", 0, 8)];
    bool tcp = symx_param("tcp", 0);
    bool hex = Pick("hex", 0, 1);
    int slave = Pick("slave", 0, 1) ? 247 : 1;
    uint16_t addr = Sym16("addr"), waddr = Sym16("waddr");
    unsigned count = fn == 5 || fn == 6 ? 1 : (unsigned)Pick("count", 1, 2), wcount = 1;
    bool bits = fn == 1 || fn == 2 || fn == 15;
    bool write = fn == 5 || fn == 6 || fn == 15 || fn == 16, rw = fn == 23;
    std::vector<uint8_t> data;
    if (write || rw)
        data = hex ? std::vector<uint8_t>{0xff, 0x00, 0x5a, 0x01} : SymBytes("data", 4);
    data.resize(fn == 5 || fn == 6 || fn == 23 ? 2 : fn == 15 ? 1 : fn == 16 ? 2 * count : 0);
    Json::Value req;
    bool byId = symx_param("by_id", 0);
    if (byId) {
        req["device_id"] = "dev";
        // the configured device
        static std::vector<std::pair<std::string, int>> ids{{"1", 1}, {"247", 247}, {"0x1f", 31}, {"0x01", 1}};
        auto id = ids[Pick("id", 0, 3)];
        slave = id.second;
        class TProtocol: public IProtocol
        {
        public:
            TProtocol(bool tcp): IProtocol(tcp ? "modbus-tcp" : "modbus", {{0, "holding", "value"}})
            {}
            bool IsSameSlaveId(const std::string& a, const std::string& b) const override
            {
                return a == b;
            }
            bool IsModbus() const override
            {
                return true;
            }
        };
        auto config = std::make_shared<TDeviceConfig>("dev", id.first, "modbus");
        class TAnyDevice: public TSerialDevice
        {
        public:
            TAnyDevice(PDeviceConfig c, PProtocol p): TSerialDevice(c, p)
            {}
            PRegisterRange CreateRegisterRange() const override
            {
                return nullptr;
            }
        };
        RequestedDevice = std::make_shared<TAnyDevice>(config, new TProtocol(tcp));
    } else {
        AddSettings(req, 1);
        req["protocol"] = tcp ? "modbus-tcp" : "modbus";
        req["slave_id"] = slave;
    }
    req["function"] = fn;
    req["address"] = (Json::UInt64)addr;
    if (count != 1 || Pick("count1", 0, 1))
        req["count"] = count;
    if (rw)
        req["write_address"] = (Json::UInt64)waddr;
    req["format"] = hex ? "HEX" : "STR";
    if (!data.empty())
        req["msg"] = hex ? ToHex(data) : std::string(data.begin(), data.end());
    auto id = b.Cache.GetId(*b.Base, byId ? RequestedDevice->DeviceConfig()->SlaveId : std::to_string(slave)); // as LoadConfig does
    auto other = b.Cache.GetId(*b.Base, "77");
    b.Cache.Add(id, Json::Value(1));
    b.Cache.Add(other, Json::Value(2));
    symx_assert(b.Start("port/Load", req), "a good request is accepted");
    // request
    std::vector<uint8_t> pdu{(uint8_t)fn, (uint8_t)(addr >> 8), (uint8_t)addr};
    if (fn != 5 && fn != 6) {
        pdu.push_back(0);
        pdu.push_back((uint8_t)count);
    }
    if (rw) {
        pdu.push_back((uint8_t)(waddr >> 8));
        pdu.push_back((uint8_t)waddr);
        pdu.push_back(0);
        pdu.push_back((uint8_t)wcount);
    }
    if (fn == 15 || fn == 16 || rw)
        pdu.push_back((uint8_t)data.size());
    pdu.insert(pdu.end(), data.begin(), data.end());
    // answer
    enum
    {
        OK,
        EXCEPTION,
        TIMEOUT,
        BAD,
        FAIL
    };
    int kind = (int)Pick("answer", 0, 4);
    bool closed = b.Base->IsOpenFlag = Pick("open", 0, 1);
    std::vector<uint8_t> payload, answer;
    uint8_t code = 0;
    if (write) {
        answer.assign(pdu.begin(), pdu.begin() + 5);
    } else {
        payload = SymBytes("value", bits ? 1 : 2 * count);
        answer = {(uint8_t)fn, (uint8_t)payload.size()};
        answer.insert(answer.end(), payload.begin(), payload.end());
    }
    if (kind == EXCEPTION) {
        code = (uint8_t)SymRange("code", 1, 255);
        answer = {(uint8_t)(fn | 0x80), code};
    }
    b.Base->FailWrite = kind == FAIL;
    size_t sentSize = 0;
    b.Base->Answer = [&](const std::vector<uint8_t>& sent) {
        std::vector<uint8_t> r;
        if (tcp) {
            symx_assert(sent.size() == 7 + pdu.size() && sent[2] == 0 && sent[3] == 0 && sent[4] == 0 && sent[5] == pdu.size() + 1 && sent[6] == slave && std::equal(pdu.begin(), pdu.end(), sent.begin() + 7), "the frame is the request of this function to this device");
            r = {sent[0], sent[1], 0, 0, 0, (uint8_t)(answer.size() + 1), (uint8_t)slave};
            if (kind == BAD)
                r[6] ^= 1;
            r.insert(r.end(), answer.begin(), answer.end());
        } else {
            std::vector<uint8_t> expected{(uint8_t)slave};
            expected.insert(expected.end(), pdu.begin(), pdu.end());
            AppendModbusCrc(expected);
            symx_assert(sent == expected, "the frame is the request of this function to this device");
            r = {(uint8_t)slave};
            r.insert(r.end(), answer.begin(), answer.end());
            AppendModbusCrc(r);
            if (kind == BAD)
                r.back() ^= 0x10;
        }
        return kind == TIMEOUT ? std::vector<uint8_t>() : r;
    };
    bool ok = b.Run(tcp);
    symx_assert(b.Base->Sent.size() == (kind == FAIL ? 0 : 1), "the request is sent once");
    if (byId)
        symx_assert(b.Base->Applied.empty(), "a configured device is accessed with the settings of its port");
    else {
        b.Base->CheckSettings(req, 0, 0, b.Base->Sent.size());
        symx_assert(b.Base->Applied.size() == 2, "settings are changed once");
    }
    switch (kind) {
        case OK:
            symx_assert(ok && b.Reply.Result.size() == 1 && IsText(b.Reply.Result["response"].asString(), payload, hex), "the data of the answer is returned");
            symx_reach("done");
            break;
        case EXCEPTION:
            symx_assert(ok && b.Reply.Result.size() == 1 && b.Reply.Result["exception"]["code"].asInt() == code && b.Reply.Result["exception"].isMember("msg"), "the exception of the device is told");
            symx_reach("exception");
            break;
        case TIMEOUT:
            symx_assert(!ok && b.Reply.Code == WBMQTT::E_RPC_REQUEST_TIMEOUT, "silence is a timeout");
            symx_reach("silence");
            break;
        default:
            symx_assert(!ok && (b.Reply.Code == WBMQTT::E_RPC_SERVER_ERROR || (kind == BAD && b.Reply.Code == WBMQTT::E_RPC_REQUEST_TIMEOUT)), "an error is told");
            symx_reach("error");
    }
    symx_assert(b.Cache.Contains(other), "remembered parameters of other devices stay");
    if (!write && !rw)
        symx_assert(b.Cache.Contains(id), "reading does not change remembered parameters");
    else if (kind != EXCEPTION && kind != FAIL)
        symx_assert(!b.Cache.Contains(id), "parameters of a device that may have been written are not remembered any more");
}
// C50: setup of communication parameters
HARNESS h_setup()
{
    TBench b;
    int n = (int)Pick("items", 0, symx_param("items", 2));
    static const char* names[] = {"baud_rate", "parity", "stop_bits", "slave_id"};
    static const unsigned addrs[] = {110, 111, 112, 128};
    struct TItem
    {
        int Slave, Settings;
        bool BySn;
        uint32_t Sn;
        std::vector<std::pair<unsigned, unsigned>> Regs; // address, value
    };
    std::vector<TItem> items;
    Json::Value req;
    req["path"] = "/dev/ttyRS485-1";
    req["items"] = Json::Value(Json::arrayValue);
    for (int i = 0; i < n; ++i) {
        TItem it;
        it.Slave = i ? 5 : 3;
        it.Settings = i ? 0 : (int)Pick("settings", 0, 1);
        it.BySn = Pick("by sn", 0, 1);
        it.Sn = it.BySn ? (i ? 0xFEFFFFFEu : 0x12345678u) : 0;
        int which = (int)Pick("regs", 0, i ? 1 : symx_param("regs", 6));
        Json::Value v;
        AddSettings(v, it.Settings);
        v.removeMember("path");
        v["slave_id"] = it.Slave;
        if (it.BySn)
            v["sn"] = (Json::UInt)it.Sn;
        static const int masks[] = {1, 15, 0, 2, 4, 8, 9};
        unsigned mask = masks[which];
        static const int baud[] = {9600, 115200};
        unsigned bv = (unsigned)baud[i ? 0 : Pick("baud", 0, 1)];
        unsigned value[] = {bv, 2, 1, 247};
        if (mask || Pick("cfg", 0, 1))
            v["cfg"] = Json::Value(Json::objectValue);
        for (int r = 0; r < 4; ++r)
            if (mask & (1 << r)) {
                v["cfg"][names[r]] = value[r];
                it.Regs.push_back({addrs[r], r ? value[r] : value[r] / 100});
            }
        items.push_back(it);
        req["items"].append(v);
    }
    symx_assert(b.Start("port/Setup", req), "a good request is accepted");
    enum
    {
        OK,
        TIMEOUT,
        REFUSED,
        BUSY,
        BAD
    };
    size_t item = 0;
    bool failed = false;
    std::vector<size_t> sentOfItem(n, 0);
    auto finished = [&] { return items[item].Regs.empty(); };
    b.Base->Answer = [&](const std::vector<uint8_t>& sent) {
        symx_assert(!failed, "after a failure nothing more is sent");
        while (item < items.size() && finished())
            ++item;
        symx_assert(item < items.size(), "nothing but the requested registers is written");
        auto& it = items[item];
        ++sentOfItem[item];
        std::vector<uint8_t> head, answer;
        if (it.BySn)
            head = {0xFD, 0x46, 0x08, (uint8_t)(it.Sn >> 24), (uint8_t)(it.Sn >> 16), (uint8_t)(it.Sn >> 8), (uint8_t)it.Sn};
        else
            head = {(uint8_t)it.Slave};
        symx_assert(sent.size() > head.size() + 6 && std::equal(head.begin(), head.end(), sent.begin()), "the request is for the device with this serial number or slave id");
        std::vector<uint8_t> body(sent.begin(), sent.end() - 2), pdu(sent.begin() + head.size(), sent.end() - 2);
        AppendModbusCrc(body);
        symx_assert(body == sent, "checksum");
        unsigned at = pdu[1] * 256u + pdu[2], count = 1, pos = 3;
        if (pdu[0] == 16) {
            count = pdu[3] * 256u + pdu[4];
            pos = 6;
            symx_assert(pdu[5] == 2 * count && pdu.size() == 6 + 2 * count, "size of the request");
        } else
            symx_assert(pdu[0] == 6 && pdu.size() == 5, "registers are written");
        for (unsigned i = 0; i < count; ++i) {
            std::pair<unsigned, unsigned> w{at + i, pdu[pos + 2 * i] * 256u + pdu[pos + 2 * i + 1]};
            auto f = std::find(it.Regs.begin(), it.Regs.end(), w);
            symx_assert(f != it.Regs.end(), "only requested parameters are written, each once");
            it.Regs.erase(f);
        }
        int kind = (int)Pick("answer", 0, 4);
        failed = kind != OK && kind != REFUSED;
        answer = head;
        if (it.BySn)
            answer[2] = 9;
        if (kind == REFUSED || kind == BUSY)
            pdu = {(uint8_t)(pdu[0] | 0x80), (uint8_t)(kind == BUSY ? 6 : n > 1 ? 2 : Pick("code", 1, 3))};
        pdu.resize(std::min<size_t>(pdu.size(), 5));
        answer.insert(answer.end(), pdu.begin(), pdu.end());
        AppendModbusCrc(answer);
        if (kind == BAD)
            answer.back() ^= 1;
        if (kind == TIMEOUT)
            answer.clear();
        return answer;
    };
    b.Base->IsOpenFlag = Pick("open", 0, 1);
    bool ok = b.Run();
    while (!failed && item < items.size() && finished())
        ++item;
    symx_assert(failed || item == items.size(), "all parameters are written");
    symx_assert(ok == !failed, "success is told if every device answered every request");
    size_t at = 0, before = 0;
    for (int i = 0; i < n; ++i) {
        if (failed && i > (int)item)
            break;
        b.Base->CheckSettings(req["items"][i], at, before, before + sentOfItem[i]);
        at += 2;
        before += sentOfItem[i];
    }
    symx_assert(b.Base->Applied.size() == at, "the settings of the port are changed for every item");
    symx_reach(ok ? "done" : "failed");
}
HARNESS h_setup_params()
{
    TBench b;
    Json::Value req, v;
    AddSettings(v);
    uint64_t slave = Sym64("slave");
    v["slave_id"] = (Json::UInt64)slave;
    req["items"] = Json::Value(Json::arrayValue);
    req["items"].append(v);
    bool ok = b.Start("port/Setup", req);
    symx_assert(ok == (slave <= 0xFF), "a slave id that Modbus does not have is refused");
    symx_reach(ok ? "accepted" : "refused");
}
// C50: what is told about a device that answers, probed by slave id or found by a scan
struct TTold
{
    std::map<unsigned, std::vector<uint16_t>> Regs; // answers by first register
    std::map<unsigned, int> Fault;                  // how a read of a register goes
    std::map<unsigned, int> Tries;
    enum
    {
        OK,
        SILENT,
        REFUSED,
        FLAKY, // the first request is not answered
        DAMAGED
    };
    uint64_t Sn;
    std::string Model, FwSignature, FwVersion;
    uint16_t Baud, Stop, Parity;
    static std::vector<uint16_t> Words(const std::string& s, size_t n)
    {
        std::vector<uint16_t> v(n, 0);
        for (size_t i = 0; i < s.size() && i < n; ++i)
            v[i] = (uint8_t)s[i];
        return v;
    }
    TTold(const char* model, uint64_t sn, uint16_t baud, uint16_t parity, uint16_t stop): Sn(sn), Model(model), FwSignature("mr6cG"), FwVersion("1.2.3"), Baud(baud), Stop(stop), Parity(parity)
    {
        Regs[110] = {baud};
        Regs[111] = {parity};
        Regs[112] = {stop};
        Regs[200] = Words(Model, 20);
        Regs[290] = Words(FwSignature, 12);
        Regs[250] = Words(FwVersion, 16);
        Regs[270] = {(uint16_t)(sn >> 16), (uint16_t)sn};
    }
    // answer to a request; empty if there is none
    std::vector<uint8_t> Do(const std::vector<uint8_t>& pdu, bool& damage)
    {
        symx_assert(pdu.size() == 5 && pdu[0] == 3, "the device is only read");
        unsigned addr = pdu[1] * 256u + pdu[2], count = pdu[3] * 256u + pdu[4];
        auto it = Regs.find(addr);
        symx_assert(it != Regs.end() && count <= it->second.size(), "only known registers are read");
        unsigned key = addr == 200 && count == 20 ? 201 : addr; // the long model is a register of its own
        int fault = Fault.count(key) ? Fault[key] : (int)OK;
        bool first = !Tries[key]++;
        damage = fault == DAMAGED || (fault == FLAKY && first && Tries[key] < 0);
        if (fault == SILENT || (fault == FLAKY && first))
            return {};
        if (fault == REFUSED)
            return {0x83, 2};
        std::vector<uint8_t> r{3, (uint8_t)(2 * count)};
        for (unsigned i = 0; i < count; ++i) {
            r.push_back((uint8_t)(it->second[i] >> 8));
            r.push_back((uint8_t)it->second[i]);
        }
        return r;
    }
    bool Bad(unsigned key) const
    {
        auto it = Fault.find(key);
        return it != Fault.end() && it->second != OK && it->second != FLAKY;
    }
    void Check(const Json::Value& d, int slave, bool polled) const
    {
        bool noModel = Bad(201) && Bad(200);
        auto model = Bad(201) ? Model.substr(0, 6) : Model;
        bool map = !noModel && model.size() > 4 && model.compare(0, 5, "WBMAP") == 0;
        symx_assert(d["sn"].asString() == std::to_string(map ? Sn & 0x1FFFFFF : Sn), "serial number");
        symx_assert(d["device_signature"].isNull() == noModel && (noModel || d["device_signature"].asString() == model), "model");
        symx_assert(d["fw_signature"].isNull() == Bad(290) && (Bad(290) || d["fw_signature"].asString() == FwSignature), "firmware signature");
        symx_assert(d["fw"].isNull() == Bad(250) && (Bad(250) || d["fw"]["version"].asString() == FwVersion), "firmware version");
        const auto& c = d["cfg"];
        symx_assert(c["slave_id"].asInt() == slave && c["data_bits"].asInt() == 8, "slave id");
        symx_assert(c["baud_rate"].isNull() == Bad(110) && (Bad(110) || c["baud_rate"].asInt64() == Baud * 100), "baud rate");
        symx_assert(c["stop_bits"].isNull() == Bad(112) && (Bad(112) || c["stop_bits"].asInt64() == Stop), "stop bits");
        symx_assert(c["parity"].isNull() == Bad(111) && (Bad(111) || c["parity"].asString() == (Parity == 0 ? "N" : Parity == 1 ? "O" : Parity == 2 ? "E" : "U")), "parity");
        symx_assert(polled ? d["configured_device_type"].asString() == "Type" : d["configured_device_type"].isNull(), "the type of the device in the configuration");
        std::vector<std::string> errors;
        if (noModel)
            errors.push_back("read_device_signature_error");
        if (Bad(290))
            errors.push_back("read_fw_signature_error");
        if (Bad(110) || Bad(111) || Bad(112))
            errors.push_back("read_serial_params_error");
        if (Bad(250))
            errors.push_back("read_fw_version_error");
        symx_assert(d["errors"].size() == errors.size(), "what could not be read is told");
        for (auto& e: d["errors"])
            symx_assert(std::find(errors.begin(), errors.end(), e["id"].asString().substr(std::string("com.wb.serial_driver.device.").size())) != errors.end(), "what could not be read is told");
        symx_reach(errors.empty() ? "complete" : "incomplete");
    }
};
class TModbusProto: public IProtocol
{
public:
    TModbusProto(): IProtocol("modbus", {{Modbus::REG_HOLDING, "holding", "value", U16}})
    {}
    bool IsSameSlaveId(const std::string& a, const std::string& b) const override
    {
        return a == b;
    }
    bool IsModbus() const override
    {
        return true;
    }
};
static PSerialDevice MakePolled(const std::string& slave, int snState, uint64_t sn, bool tcp = false)
{
    static TModbusProto protocol;
    TModbusDeviceConfig c;
    c.CommonConfig = std::make_shared<TDeviceConfig>("dev", slave, "modbus");
    c.CommonConfig->DeviceType = "Type";
    c.EnableWbContinuousRead = false;
    std::unique_ptr<Modbus::IModbusTraits> traits = std::make_unique<Modbus::TModbusRTUTraits>();
    if (tcp)
        traits = std::make_unique<Modbus::TModbusTCPTraits>();
    auto d = std::make_shared<TModbusDevice>(std::move(traits), c, &protocol);
    if (snState) {
        d->SetSnRegister(WbRegisters::GetRegisterConfig(WbRegisters::SN_REGISTER_NAME));
        if (snState == 2)
            d->GetSnRegister()->SetValue(TRegisterValue(sn));
    }
    return d;
}
static TTold AnyTold(int faults)
{
    static const char* models[] = {"WBMR6C", "WBMAP3EV2", "M"};
    TTold t(models[Pick("model", 0, faults ? 1 : 2)], Pick("sn", 0, 1) ? 0xFE123456u : 77, (uint16_t)SymRange("baud", 1, 1152), (uint16_t)(faults ? 2 : Pick("parity", 0, 3)), (uint16_t)SymRange("stop", 1, 2));
    static const unsigned keys[] = {110, 111, 112, 200, 201, 250, 290};
    for (int i = 0; i < faults; ++i)
        t.Fault[keys[Pick("where", 0, 6)]] = (int)Pick("fault", 1, 4);
    return t;
}
HARNESS h_probe()
{
    TBench b;
    TSerialDeviceFactory factory;
    TRPCDeviceHandler device("", "", "", "", "", "", factory, nullptr, b.Runner, b.Cache, b.Server);
    bool tcp = symx_param("tcp", 0);
    int slave = Pick("slave", 0, 1) ? 247 : 12;
    int faults = (int)symx_param("faults", 0);
    TTold t = AnyTold(faults);
    if (!faults)
        t.Fault[270] = (int)Pick("sn fault", 0, 4);
    Json::Value req;
    AddSettings(req);
    req["slave_id"] = slave;
    req["protocol"] = tcp ? "modbus-tcp" : "modbus";
    // devices that are polled: the same, another slave id, another serial number, unknown serial number
    std::list<PSerialDevice> polled;
    int kind = faults ? 0 : (int)Pick("polled", 0, 4);
    if (kind)
        polled.push_back(MakePolled(std::to_string(kind == 2 ? 13 : slave), kind == 4 ? 1 : 2, kind == 3 ? 78 : t.Sn, tcp));
    b.Base->Answer = [&](const std::vector<uint8_t>& sent) {
        bool damage = false;
        if (tcp) {
            symx_assert(sent.size() == 12 && sent[6] == slave, "the request is for the device with this slave id");
            auto pdu = t.Do({sent.begin() + 7, sent.end()}, damage);
            if (pdu.empty())
                return pdu;
            std::vector<uint8_t> r{sent[0], sent[1], 0, 0, 0, (uint8_t)(pdu.size() + 1), (uint8_t)(slave ^ (damage ? 1 : 0))};
            r.insert(r.end(), pdu.begin(), pdu.end());
            return r;
        }
        std::vector<uint8_t> check(sent.begin(), sent.end() - 2);
        AppendModbusCrc(check);
        symx_assert(sent.size() == 8 && check == sent && sent[0] == slave, "the request is for the device with this slave id");
        auto pdu = t.Do({sent.begin() + 1, sent.end() - 2}, damage);
        if (pdu.empty())
            return pdu;
        pdu.insert(pdu.begin(), (uint8_t)slave);
        AppendModbusCrc(pdu);
        if (damage)
            pdu.back() ^= 1;
        return pdu;
    };
    symx_assert(b.Start("device/Probe", req), "a good request is accepted");
    bool ok = b.Run(tcp, polled);
    symx_assert(ok, "a probe has a result");
    b.Base->CheckSettings(req, 0, 0, b.Base->Sent.size());
    int f = t.Fault.count(270) ? t.Fault[270] : 0;
    if (f == TTold::SILENT || f == TTold::FLAKY) {
        symx_assert(b.Reply.Result.isObject() && b.Reply.Result.empty(), "nothing is told about a silent device");
        symx_reach("silent");
    } else if (f) {
        symx_assert(b.Reply.Result.size() == 1 && b.Reply.Result["errors"].size() == 1 && b.Reply.Result["errors"][0]["id"].asString() == "com.wb.serial_driver.device.read_sn_error", "the serial number can't be read");
        symx_reach("no serial number");
    } else
        t.Check(b.Reply.Result, slave, kind == 1 || (kind == 4));
}
HARNESS h_scan()
{
    TBench b;
    static const char* modes[] = {"start", "next", "all", nullptr};
    int mode = (int)Pick("mode", 0, 3);
    bool old = Pick("old", 0, 1);
    int n = (int)Pick("devices", 0, symx_param("devices", 2));
    int end = (int)Pick("end", 0, 2); // how the search ends: end of scan, silence, damaged answer
    Json::Value req;
    AddSettings(req);
    if (modes[mode])
        req["mode"] = modes[mode];
    if (old)
        req["command"] = 0x60;
    else if (Pick("command", 0, 1))
        req["command"] = 0x46;
    std::vector<TTold> t;
    for (int i = 0; i < n; ++i)
        t.emplace_back(i ? "WBMAP3EV2" : "WBMR6C", i ? 0xFE123456u + i : 0x00000102u, 96, (uint16_t)i, 2);
    int bad = n ? (int)Pick("bad", 0, n) : 0; // one of the devices answers nothing
    static const unsigned keys[] = {110, 111, 112, 200, 201, 250, 290};
    if (bad)
        for (auto k: keys)
            t[bad - 1].Fault[k] = TTold::REFUSED;
    std::list<PSerialDevice> polled;
    if (Pick("polled", 0, 1))
        polled.push_back(MakePolled("5", 2, 0x00000102u));
    size_t found = 0;
    bool started = false, ended = false;
    uint8_t cmd = old ? 0x60 : 0x46;
    b.Base->Answer = [&](const std::vector<uint8_t>& sent) {
        std::vector<uint8_t> check(sent.begin(), sent.end() - 2), r;
        AppendModbusCrc(check);
        symx_assert(sent.size() >= 5 && check == sent && sent[0] == 0xFD && sent[1] == cmd, "requests of this version of Fast Modbus");
        if (sent[2] == 1 || sent[2] == 2) {
            symx_assert(sent.size() == 5 && !ended, "the search goes on until it ends");
            symx_assert((sent[2] == 1) == (!started && mode != 1) && (mode > 1 || !started), "the search is started and continued as requested");
            started = true;
            if (found < t.size()) {
                uint32_t sn = (uint32_t)t[found].Sn;
                r = {0xFF, 0xFF, 0xFF, 0xFD, cmd, 3, (uint8_t)(sn >> 24), (uint8_t)(sn >> 16), (uint8_t)(sn >> 8), (uint8_t)sn, (uint8_t)(found + 5)};
                ++found;
            } else {
                ended = true;
                if (end == 1)
                    return r;
                r = {0xFF, 0xFF, 0xFF, 0xFD, cmd, 4};
            }
            auto p = std::vector<uint8_t>(r.begin() + 3, r.end());
            AppendModbusCrc(p);
            if (ended && end == 2)
                p.back() ^= 1;
            r.resize(3);
            r.insert(r.end(), p.begin(), p.end());
            return r;
        }
        symx_assert(sent[2] == 8 && sent.size() == 14, "devices are read by serial number");
        uint32_t sn = (uint32_t)sent[3] << 24 | sent[4] << 16 | sent[5] << 8 | sent[6];
        for (size_t i = 0; i < found; ++i)
            if (t[i].Sn == sn) {
                bool damage = false;
                auto pdu = t[i].Do({sent.begin() + 7, sent.end() - 2}, damage);
                r.assign(sent.begin(), sent.begin() + 7);
                r[2] = 9;
                r.insert(r.end(), pdu.begin(), pdu.end());
                AppendModbusCrc(r);
                return r;
            }
        symx_assert(false, "only devices that were found are read");
        return r;
    };
    symx_assert(b.Start("port/Scan", req), "a good request is accepted");
    bool ok = b.Run(false, polled);
    symx_assert(ok, "a scan has a result");
    b.Base->CheckSettings(req, 0, 0, b.Base->Sent.size());
    size_t expected = mode < 2 ? std::min(n, 1) : n;
    const auto& d = b.Reply.Result["devices"];
    symx_assert(d.isArray() && d.size() == expected && found == expected, "every device that answered is told");
    for (size_t i = 0; i < expected; ++i)
        t[i].Check(d[(Json::ArrayIndex)i], (int)i + 5, !polled.empty() && i == 0);
    bool silent = ended && end == 1, damaged = ended && end == 2;
    bool error = damaged || (silent && (mode == 1 || found));
    symx_assert(b.Reply.Result["error"].isNull() == !error, "an interrupted search is told");
    symx_reach(error ? "interrupted" : "done");
}
