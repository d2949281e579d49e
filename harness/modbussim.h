// A Modbus server behind IModbusTraits: requests are decoded independently of the code under test, registers live in
// maps whose cells become symbolic when first read. Outcomes of transactions can be scripted.
#pragma once
#include "fakeport.h"
#include "modbus_base.h"
#include <map>
struct TMemory
{
    std::map<unsigned, uint16_t> Holding, Input;
    std::map<unsigned, uint8_t> Coil, Discrete;
    uint16_t& H(unsigned a)
    {
        return Cell(Holding, a);
    }
    uint16_t& I(unsigned a)
    {
        return Cell(Input, a);
    }
    uint8_t& C(unsigned a)
    {
        return Bit(Coil, a);
    }
    uint8_t& D(unsigned a)
    {
        return Bit(Discrete, a);
    }
    static uint16_t& Cell(std::map<unsigned, uint16_t>& m, unsigned a)
    {
        auto it = m.find(a);
        if (it == m.end())
            it = m.emplace(a, Sym16("mem")).first;
        return it->second;
    }
    static uint8_t& Bit(std::map<unsigned, uint8_t>& m, unsigned a)
    {
        auto it = m.find(a);
        if (it == m.end())
            it = m.emplace(a, (uint8_t)symx_var("bit", 1)).first;
        return it->second;
    }
};
enum TSimOutcome
{
    SIM_OK,
    SIM_TIMEOUT,
    SIM_MALFORMED,
    SIM_EXCEPTION, // ExceptionCode
    SIM_RAW,       // RawAnswer
    SIM_IO_ERROR,
};
struct TSimRequest
{
    uint8_t Slave;
    int Fn;
    unsigned Addr, Count;
    std::vector<uint8_t> Data;
    int Outcome;
};
class TSimServer
{
public:
    TMemory Mem;
    std::vector<TSimRequest> Log;
    std::vector<int> Script;
    uint8_t ExceptionCode = 2;
    std::vector<uint8_t> RawAnswer;
    int64_t TransactionUs = 0;
    std::function<int(const TSimRequest&)> Decide;
    Modbus::TReadResult Do(uint8_t slave, const std::vector<uint8_t>& pdu, size_t expected)
    {
        symx_clock_ns += TransactionUs * 1000;
        symx_assert(pdu.size() >= 5, "a request has a function, an address and a count or value");
        TSimRequest r;
        r.Slave = slave;
        r.Fn = pdu[0];
        r.Addr = pdu[1] * 256u + pdu[2];
        r.Count = 1;
        bool read = r.Fn >= 1 && r.Fn <= 4;
        if (read || r.Fn == 15 || r.Fn == 16)
            r.Count = pdu[3] * 256u + pdu[4];
        if (read)
            symx_assert(pdu.size() == 5 && r.Count >= 1 && r.Count <= (r.Fn <= 2 ? 2000u : 125u), "a read request is within the protocol limits");
        else if (r.Fn == 5 || r.Fn == 6) {
            symx_assert(pdu.size() == 5, "a write request has the right size");
            r.Data.assign(pdu.begin() + 3, pdu.end());
            if (r.Fn == 5)
                symx_assert((r.Data[0] == 0 || r.Data[0] == 0xff) && r.Data[1] == 0, "a coil is written with 0000 or FF00");
        } else {
            symx_assert(r.Fn == 16 || r.Fn == 15, "the function is supported");
            symx_assert(r.Count >= 1 && r.Count <= 123 && pdu.size() == 6 + 2 * r.Count && pdu[5] == 2 * r.Count, "a multiple write request is within the protocol limits and has the right size");
            r.Data.assign(pdu.begin() + 6, pdu.end());
        }
        r.Outcome = Log.size() < Script.size() ? Script[Log.size()] : (int)SIM_OK;
        if (Decide)
            r.Outcome = Decide(r);
        Log.push_back(r);
        Modbus::TReadResult res;
        res.SlaveId = slave;
        switch (r.Outcome) {
            case SIM_TIMEOUT: throw TResponseTimeoutException();
            case SIM_IO_ERROR: throw TSerialDeviceException("i/o error");
            case SIM_MALFORMED: throw Modbus::TMalformedResponseError("invalid crc");
            case SIM_EXCEPTION: res.Pdu = {(uint8_t)(r.Fn | 0x80), ExceptionCode}; return res;
            case SIM_RAW: res.Pdu = RawAnswer; return res;
            default: break;
        }
        if (r.Fn == 1 || r.Fn == 2) {
            res.Pdu = {(uint8_t)r.Fn, (uint8_t)((r.Count + 7) / 8)};
            for (unsigned i = 0; i < r.Count; i += 8) {
                uint8_t b = 0;
                for (unsigned k = 0; k < 8 && i + k < r.Count; ++k)
                    b |= (uint8_t)((r.Fn == 1 ? Mem.C(r.Addr + i + k) : Mem.D(r.Addr + i + k)) << k);
                res.Pdu.push_back(b);
            }
        } else if (read) {
            res.Pdu = {(uint8_t)r.Fn, (uint8_t)(2 * r.Count)};
            for (unsigned i = 0; i < r.Count; ++i) {
                uint16_t v = r.Fn == 3 ? Mem.H(r.Addr + i) : Mem.I(r.Addr + i);
                res.Pdu.push_back((uint8_t)(v >> 8));
                res.Pdu.push_back((uint8_t)v);
            }
        } else {
            if (r.Fn == 5)
                Mem.C(r.Addr) = r.Data[0] ? 1 : 0;
            else
                for (unsigned i = 0; i < r.Count; ++i)
                    Mem.H(r.Addr + i) = (uint16_t)(r.Data[2 * i] << 8 | r.Data[2 * i + 1]);
            res.Pdu.assign(pdu.begin(), pdu.begin() + 5);
        }
        symx_assert(expected == res.Pdu.size(), "the size of the expected answer is the size of the regular answer");
        return res;
    }
};
class TSimTraits: public Modbus::IModbusTraits
{
public:
    std::shared_ptr<TSimServer> Server;
    TSimTraits(std::shared_ptr<TSimServer> s, bool forceFrameTimeout = false): IModbusTraits(forceFrameTimeout), Server(s)
    {}
    Modbus::TReadResult Transaction(TPort& port,
                                    uint8_t slaveId,
                                    const std::vector<uint8_t>& requestPdu,
                                    size_t expectedResponsePduSize,
                                    const std::chrono::milliseconds& responseTimeout,
                                    const std::chrono::milliseconds& frameTimeout,
                                    bool matchSlaveId = true) override
    {
        return Server->Do(slaveId, requestPdu, expectedResponsePduSize);
    }
};
