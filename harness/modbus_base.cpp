// C11-C14: Modbus PDU construction, response checks, RTU and TCP transactions
#include "fakeport.h"
#include "modbus_base.h"
#include <chrono>

using namespace std;
using namespace std::chrono;
using namespace Modbus;

static const EFunction Functions[] = {FN_READ_COILS,
                                      FN_READ_DISCRETE,
                                      FN_READ_HOLDING,
                                      FN_READ_INPUT,
                                      FN_WRITE_SINGLE_COIL,
                                      FN_WRITE_SINGLE_REGISTER,
                                      FN_WRITE_MULTIPLE_COILS,
                                      FN_WRITE_MULTIPLE_REGISTERS,
                                      FN_READ_WRITE_MULTIPLE_REGISTERS};

static bool Eq(const vector<uint8_t>& a, const vector<uint8_t>& b)
{
    if (a.size() != b.size())
        return false;
    uint8_t d = 0;
    for (size_t i = 0; i < a.size(); ++i)
        d |= a[i] ^ b[i];
    return d == 0;
}
static void Put16(vector<uint8_t>& v, uint16_t x)
{
    v.push_back((uint8_t)(x >> 8));
    v.push_back((uint8_t)x);
}

// ---------------------------------------------------------------- C11
HARNESS h_make_pdu()
{
    auto fn = Functions[Pick("fn", 0, 8)];
    uint16_t addr = Sym16("addr");
    uint16_t count = Sym16("count");
    uint16_t waddr = Sym16("waddr");
    uint16_t wcount = Sym16("wcount");
    size_t lo = symx_param("lo", 0), n = Pick("n", lo, symx_param("hi", 8));
    auto data = SymBytes("d", n);
    bool six = fn == FN_READ_WRITE_MULTIPLE_REGISTERS || symx_choose(SymBool("long_form"));
    // what the specification requires
    vector<uint8_t> ref;
    bool ok = true;
    ref.push_back((uint8_t)fn);
    Put16(ref, addr);
    switch (fn) {
        case FN_READ_COILS:
        case FN_READ_DISCRETE:
        case FN_READ_HOLDING:
        case FN_READ_INPUT:
            Put16(ref, count);
            break;
        case FN_WRITE_SINGLE_COIL:
        case FN_WRITE_SINGLE_REGISTER:
            ok = n == 2;
            if (ok) {
                ref.push_back(data[0]);
                ref.push_back(data[1]);
            }
            break;
        case FN_WRITE_MULTIPLE_COILS:
            ok = n == (size_t)(count / 8) + ((count % 8) ? 1 : 0) && n <= 255;
            Put16(ref, count);
            ref.push_back((uint8_t)n);
            ref.insert(ref.end(), data.begin(), data.end());
            break;
        case FN_WRITE_MULTIPLE_REGISTERS:
            ok = n == (size_t)count * 2 && n <= 255;
            Put16(ref, count);
            ref.push_back((uint8_t)n);
            ref.insert(ref.end(), data.begin(), data.end());
            break;
        default:
            ok = n == (size_t)wcount * 2 && n <= 255;
            Put16(ref, count);
            Put16(ref, waddr);
            Put16(ref, wcount);
            ref.push_back((uint8_t)n);
            ref.insert(ref.end(), data.begin(), data.end());
    }
    try {
        auto pdu = six ? MakePDU(fn, addr, count, waddr, wcount, data) : MakePDU(fn, addr, count, data);
        symx_assert(ok, "a request whose data does not match the count is refused");
        symx_assert(Eq(pdu, ref), "the request is what the Modbus specification requires");
        symx_reach("built");
        for (auto b: pdu)
            symx_observe("b", b);
    } catch (const TErrorBase&) {
        symx_assert(!ok, "an expressible request is not refused");
        symx_reach("refused");
    }
}

HARNESS h_response_size()
{
    auto fn = Functions[Pick("fn", 0, 8)];
    uint64_t n = SymRange("n", 0, 2000);
    size_t sz = CalcResponsePDUSize(fn, n);
    size_t ref;
    switch (fn) {
        case FN_READ_COILS:
        case FN_READ_DISCRETE:
            ref = 2 + (n + 7) / 8;
            break;
        case FN_READ_HOLDING:
        case FN_READ_INPUT:
        case FN_READ_WRITE_MULTIPLE_REGISTERS:
            ref = 2 + 2 * n;
            break;
        default:
            ref = 5;
    }
    symx_assert(sz == ref, "the expected response size is the specified one");
    symx_observe("sz", sz);
    symx_reach("done");
}

HARNESS h_function_codes()
{
    uint8_t f = Sym8("f");
    bool sup = (f >= 1 && f <= 6) || f == 15 || f == 16 || f == 23;
    symx_assert(IsSupportedFunction(f) == sup, "exactly the implemented functions are supported");
    symx_assert(IsException(f) == (f >= 128), "the exception flag is the top bit");
    symx_reach("done");
}

// ---------------------------------------------------------------- C12
HARNESS h_extract()
{
    auto fn = Functions[Pick("fn", 0, 8)];
    size_t n = Pick("n", symx_param("lo", 0), symx_param("hi", 8));
    auto pdu = SymBytes("p", n);
    bool isWrite = fn == FN_WRITE_SINGLE_COIL || fn == FN_WRITE_SINGLE_REGISTER || fn == FN_WRITE_MULTIPLE_COILS ||
                   fn == FN_WRITE_MULTIPLE_REGISTERS;
    try {
        auto data = ExtractResponseData(fn, pdu);
        symx_assert(n >= 2, "a response without data is refused");
        symx_assert(pdu[0] == (uint8_t)fn, "only a response with the requested function code is accepted");
        if (isWrite) {
            symx_assert(n == 5, "a write response has exactly five bytes");
        } else {
            symx_assert(pdu[1] == n - 2, "the byte count matches the data received");
            symx_assert(Eq(data, vector<uint8_t>(pdu.begin() + 2, pdu.end())), "the data is exactly the bytes received");
        }
        for (auto b: data)
            symx_observe("b", b);
        symx_reach("accepted");
    } catch (const TModbusExceptionError& e) {
        symx_assert(n >= 2 && pdu[0] == ((uint8_t)fn | 0x80), "an exception is reported only for an exception response");
        symx_assert(e.GetExceptionCode() == pdu[1], "the exception code is the one received");
        symx_observe("code", e.GetExceptionCode());
        string w = e.what();
        symx_observe("len", w.size());
        symx_reach("exception");
    } catch (const TErrorBase& e) {
        bool good = n >= 2 && pdu[0] == (uint8_t)fn && (isWrite ? n == 5 : pdu[1] == n - 2);
        symx_assert(!good, "a correct response is accepted");
        bool exc = n >= 2 && pdu[0] == ((uint8_t)fn | 0x80);
        symx_assert(!exc, "an exception response is reported as that exception");
        symx_reach("refused");
    }
}

// ---------------------------------------------------------------- C13
HARNESS h_rtu()
{
    size_t n = Pick("n", symx_param("lo", 0), symx_param("hi", 9)); // bytes the device sends
    size_t exp = Pick("exp", symx_param("elo", 1), symx_param("ehi", 6));
    bool match = symx_choose(SymBool("match"));
    bool force = symx_choose(SymBool("force"));
    uint8_t slave = Sym8("slave");
    auto req = SymBytes("r", Pick("rn", symx_param("rlo", 1), symx_param("rhi", 3)));
    auto ans = SymBytes("a", n);
    auto port = make_shared<TFakePort>();
    port->Chunk = Pick("chunk", 0, 1);
    port->KeepRest = false;
    port->ReadTimeUs = 1234;
    port->Answers.push_back(ans);
    if (force)
        port->Answers.push_back(SymBytes("extra", Pick("en", 0, 1)));
    TModbusRTUTraits traits(force);
    bool returned = false;
    int kind = 0;
    TReadResult r;
    try {
        r = traits.Transaction(*port, slave, req, exp, milliseconds(300), milliseconds(20), match);
        returned = true;
    } catch (const TMalformedResponseError&) {
        kind = 1;
    } catch (const TUnexpectedResponseError&) {
        kind = 2;
    } catch (const TResponseTimeoutException&) {
        kind = 3;
    }
    // the request
    vector<uint8_t> wire;
    wire.push_back(slave);
    wire.insert(wire.end(), req.begin(), req.end());
    AppendModbusCrc(wire);
    symx_assert(port->Sent.size() == 1, "exactly one request is sent");
    symx_assert(Eq(port->Sent[0], wire), "the request on the wire is address, PDU and CRC");
    symx_assert(port->Delivered.size() >= 1, "the answer is read");
    symx_assert(port->Requested[0] >= exp + 3, "there is room for the expected answer");
    symx_assert(port->ResponseTimeouts[0] == milliseconds(300) && port->FrameTimeouts[0] == milliseconds(20),
                "the answer is awaited for the requested timeouts");
    auto got = port->Delivered[0];
    size_t m = got.size();
    if (returned) {
        symx_assert(m >= 3, "a reply shorter than the minimal frame is not accepted");
        uint16_t crc = RefModbusCrc(got.data(), m - 2);
        symx_assert(got[m - 2] == (uint8_t)(crc >> 8) && got[m - 1] == (uint8_t)crc, "the checksum of an accepted reply is valid");
        symx_assert(!match || got[0] == slave, "an accepted reply comes from the addressed slave");
        symx_assert(Eq(r.Pdu, vector<uint8_t>(got.begin() + 1, got.end() - 2)), "the reply is the frame without address and checksum");
        symx_assert(r.SlaveId == got[0], "the reported slave address is the one in the reply");
        symx_assert(r.ResponseTime == microseconds(1234), "the response time is the one measured by the port");
        for (auto b: r.Pdu)
            symx_observe("pdu", b);
        symx_reach("accepted");
    } else {
        symx_observe("kind", kind);
        if (m == 0) {
            symx_assert(kind == 3, "silence is reported as a timeout");
            symx_reach("timeout");
        } else if (m < 3) {
            symx_assert(kind == 1, "a short reply is reported as malformed");
        } else {
            uint16_t crc = RefModbusCrc(got.data(), m - 2);
            bool valid = got[m - 2] == (uint8_t)(crc >> 8) && got[m - 1] == (uint8_t)crc;
            if (valid) {
                symx_assert(match && got[0] != slave, "an intact reply of the addressed slave is accepted");
                symx_assert(kind == 2, "another slave's reply is reported as unexpected");
                symx_reach("foreign");
            } else {
                symx_assert(kind == 1, "a corrupted reply is reported as malformed");
                symx_reach("corrupted");
            }
        }
    }
    // a complete intact answer is never cut: if the bytes sent are one intact frame that fits, they are all read
    if (n >= 5 && n <= exp + 3 && !(ans[1] & 0x80))
        symx_assert(m == n, "a reply is read up to the expected size or silence");
    if (n == 5 && (ans[1] & 0x80))
        symx_assert(m == (exp + 3 < n ? exp + 3 : n), "an exception reply is read completely");
}

// long frames, concrete sizes
HARNESS h_rtu_long()
{
    size_t exp = Pick("exp", symx_param("elo", 250), symx_param("ehi", 253));
    uint8_t slave = Sym8("slave");
    vector<uint8_t> ans;
    ans.push_back(Sym8("from"));
    auto pdu = SymBytes("a", exp);
    ans.insert(ans.end(), pdu.begin(), pdu.end());
    AppendModbusCrc(ans);
    size_t flip = Pick("flip", 0, 3); // 1: corrupt one byte, 2: one byte missing, 3: one byte too much
    size_t at = Pick("at", 0, 1) ? exp : 2;
    uint8_t x = Sym8("x");
    symx_assume(x != 0);
    if (flip == 1)
        ans[at] ^= x;
    if (flip == 2)
        ans.pop_back();
    if (flip == 3)
        ans.push_back(x);
    auto port = make_shared<TFakePort>();
    port->KeepRest = false;
    port->Answers.push_back(ans);
    symx_assume(!(ans[1] & 0x80));
    TModbusRTUTraits traits;
    try {
        auto r = traits.Transaction(*port, slave, {3, 0, 0, 0, 1}, exp, milliseconds(300), milliseconds(20));
        symx_assert(flip != 1, "a frame with a damaged byte is not accepted");
        symx_assert(ans[0] == slave, "another slave's reply is not accepted");
        if (flip == 0)
            symx_assert(Eq(r.Pdu, pdu), "the whole PDU is returned");
        symx_reach("accepted");
    } catch (const TMalformedResponseError&) {
        symx_assert(flip != 0 && flip != 3, "an intact frame is accepted");
        symx_reach("corrupted");
    } catch (const TUnexpectedResponseError&) {
        symx_assert(ans[0] != slave, "the addressed slave's reply is accepted");
    }
}

// ---------------------------------------------------------------- C14
struct TTcpFrame
{
    uint8_t hdr[7];
    size_t hdrLen, bodyLen;
    vector<uint8_t> body;
};

HARNESS h_tcp()
{
    size_t frames = Pick("frames", symx_param("flo", 0), symx_param("fhi", 2));
    size_t exp = Pick("exp", 1, symx_param("ehi", 3));
    bool match = symx_choose(SymBool("match"));
    uint8_t slave = Sym8("slave");
    auto req = SymBytes("r", Pick("rn", 1, 2));
    auto port = make_shared<TFakePort>();
    port->ReadTimeUs = 1000 * Pick("ms", 0, 1) * symx_param("slow", 100);
    TModbusTCPTraits traits;
    TModbusTCPTraits::ResetTransactionId(*port);
    // earlier transactions without an answer
    size_t before = Pick("before", 0, symx_param("before", 1));
    for (size_t i = 0; i < before; ++i) {
        try {
            traits.Transaction(*port, slave, req, 1, milliseconds(50), milliseconds(10));
            symx_fail("no reply without an answer");
        } catch (const TResponseTimeoutException&) {
        }
    }
    port->Sent.clear();
    port->Delivered.clear();
    port->ResponseTimeouts.clear();
    port->FrameTimeouts.clear();
    vector<TTcpFrame> fs(frames);
    size_t hi = symx_param("len", 3);
    for (auto& f: fs) {
        for (auto& b: f.hdr)
            b = Sym8("h");
        // length field: 0..hi or a large value
        size_t len = Pick("len", 0, hi + 1);
        if (len == hi + 1)
            len = symx_param("big", 300);
        f.hdr[4] = (uint8_t)(len >> 8);
        f.hdr[5] = (uint8_t)len;
        size_t cut = Pick("cut", 0, 2); // 0: whole, 1: header cut, 2: body cut or absent
        f.hdrLen = cut == 1 ? 6 : 7;
        size_t body = len ? len - 1 : 0;
        if (cut == 2) {
            if (body == 0)
                symx_prune();
            body -= 1;
        }
        f.body = SymBytes("body", body);
        f.bodyLen = body;
        vector<uint8_t> bytes(f.hdr, f.hdr + f.hdrLen);
        if (f.hdrLen == 7)
            bytes.insert(bytes.end(), f.body.begin(), f.body.end());
        port->Answers.push_back(bytes);
        if (f.hdrLen == 7 && len > 1 && body == 0)
            port->Answers.push_back({}); // silence instead of the body
    }
    int kind = 0;
    TReadResult r;
    auto t0 = symx_clock_ns;
    try {
        r = traits.Transaction(*port, slave, req, exp, milliseconds(50), milliseconds(10), match);
        kind = 10;
    } catch (const TMalformedResponseError&) {
        kind = 1;
    } catch (const TUnexpectedResponseError&) {
        kind = 2;
    } catch (const TResponseTimeoutException&) {
        kind = 3;
    }
    symx_observe("kind", kind);
    symx_assert(port->Sent.size() == 1, "exactly one request is sent");
    auto& w = port->Sent[0];
    uint16_t tid = (uint16_t)(w[0] << 8 | w[1]);
    symx_assert(w.size() == 7 + req.size() && w[2] == 0 && w[3] == 0 && w[4] == 0 && w[5] == req.size() + 1 && w[6] == slave &&
                    Eq(vector<uint8_t>(w.begin() + 7, w.end()), req),
                "the request is a correct MBAP header and the PDU");
    // walk the received frames as the protocol prescribes
    int want = 3;
    bool lateFree = port->ReadTimeUs == 0;
    for (auto& f: fs) {
        size_t len = f.hdr[4] << 8 | f.hdr[5];
        if (f.hdrLen < 7 || len == 0) {
            want = 1;
            break;
        }
        if (f.body.size() != len - 1) {
            want = f.body.empty() ? 3 : 1;
            break;
        }
        if ((uint16_t)(f.hdr[0] << 8 | f.hdr[1]) != tid) {
            symx_reach("skipped");
            continue;
        }
        if (match && f.hdr[6] != slave) {
            want = 2;
            break;
        }
        want = 10;
        if (kind == 10) {
            symx_assert(Eq(r.Pdu, f.body), "the reply is exactly the PDU of the frame with the request's transaction id");
            symx_assert(r.SlaveId == f.hdr[6], "the reported unit id is the one received");
            symx_reach("accepted");
        }
        break;
    }
    if (lateFree || kind == 10)
        symx_assert(kind == want, "the outcome is the one the received frames prescribe");
    else
        symx_assert(kind == want || kind == 3, "the outcome is the one the received frames prescribe or a timeout");
    if (kind == 3)
        symx_reach("timeout");
    // reading does not go on for ever: at most one read starts after the timeout
    symx_assert(symx_clock_ns - t0 <= (60 + 2 * 100) * 1000000ll, "a transaction ends soon after its timeout");
    for (auto b: r.Pdu)
        symx_observe("pdu", b);
}

HARNESS h_tcp_ids()
{
    auto a = make_shared<TFakePort>(), b = make_shared<TFakePort>();
    b->Description = "other";
    TModbusTCPTraits ta, tb;
    uint16_t last[2];
    bool have[2] = {false, false};
    size_t n = symx_param("n", 4);
    for (size_t i = 0; i < n; ++i) {
        int k = (int)Pick("port", 0, 1);
        auto p = k ? b : a;
        try {
            (Pick("traits", 0, 1) ? ta : tb).Transaction(*p, 1, {3, 0, 0, 0, 1}, 4, milliseconds(5), milliseconds(1));
        } catch (const TResponseTimeoutException&) {
        }
        uint16_t id = (uint16_t)(p->Sent.back()[0] << 8 | p->Sent.back()[1]);
        symx_observe("id", id);
        if (have[k])
            symx_assert(id != last[k], "consecutive requests on a connection use different transaction ids");
        last[k] = id;
        have[k] = true;
    }
    symx_reach("done");
}
