// A port whose answers are scripted by the harness. Bytes of one answer are offered one by one (Chunk = 1) or all that fit at
// once (Chunk = 0), as a real port may; the predicate given by the caller decides when the frame is complete.
#pragma once
#include "port/port.h"
#include "serial_exc.h"
#include "symx.h"
#include <deque>
#include <memory>
extern "C" int64_t symx_clock_ns;
class TFakePort: public TPort
{
public:
    std::vector<std::vector<uint8_t>> Sent;     // every WriteBytes call
    std::deque<std::vector<uint8_t>> Answers;   // one entry per burst; an empty entry is silence
    std::vector<std::vector<uint8_t>> Delivered; // what each ReadFrame call returned
    std::vector<std::chrono::microseconds> ResponseTimeouts, FrameTimeouts;
    std::vector<size_t> Requested;
    std::function<std::vector<uint8_t>(const std::vector<uint8_t>&)> Answer; // if set: called on write, result is queued
    size_t Chunk = 0;
    bool KeepRest = true;  // bytes of a burst that were not taken stay for the next read
    bool IsOpenFlag = true;
    int OpenCount = 0, CloseCount = 0;
    std::string Description = "fake";
    int64_t ReadTimeUs = 0; // virtual time taken by every read
    size_t BitTimeUs = 100;

    using TPort::WriteBytes;
    void Open() override
    {
        IsOpenFlag = true;
        ++OpenCount;
    }
    void Close() override
    {
        IsOpenFlag = false;
        ++CloseCount;
    }
    bool IsOpen() const override
    {
        return IsOpenFlag;
    }
    void CheckPortOpen() const override
    {
        if (!IsOpenFlag)
            throw TSerialDeviceException("Port is not open");
    }
    void WriteBytes(const uint8_t* buf, int count) override
    {
        Sent.emplace_back(buf, buf + count);
        if (Answer) {
            Answers.push_back(Answer(Sent.back()));
        }
    }
    uint8_t ReadByte(const std::chrono::microseconds& timeout) override
    {
        symx_clock_ns += ReadTimeUs * 1000;
        while (!Answers.empty() && Answers.front().empty()) {
            Answers.pop_front();
            throw TSerialDeviceTransientErrorException("timeout");
        }
        if (Answers.empty())
            throw TSerialDeviceTransientErrorException("timeout");
        uint8_t b = Answers.front().front();
        Answers.front().erase(Answers.front().begin());
        Delivered.push_back({b});
        if (Answers.front().empty())
            Answers.pop_front();
        return b;
    }
    TReadFrameResult ReadFrame(uint8_t* buf,
                               size_t count,
                               const std::chrono::microseconds& responseTimeout,
                               const std::chrono::microseconds& frameTimeout,
                               TFrameCompletePred frame_complete = 0) override
    {
        ResponseTimeouts.push_back(responseTimeout);
        FrameTimeouts.push_back(frameTimeout);
        Requested.push_back(count);
        TReadFrameResult res;
        if (!count) {
            Delivered.push_back({});
            return res;
        }
        symx_clock_ns += ReadTimeUs * 1000;
        std::vector<uint8_t> burst;
        if (!Answers.empty()) {
            burst = Answers.front();
            Answers.pop_front();
        }
        while (res.Count < count) {
            if (frame_complete && frame_complete(buf, res.Count))
                break;
            if (res.Count == burst.size())
                break;
            size_t n = Chunk ? Chunk : burst.size();
            n = std::min(n, std::min(burst.size() - res.Count, count - res.Count));
            for (size_t i = 0; i < n; ++i)
                buf[res.Count + i] = burst[res.Count + i];
            res.Count += n;
        }
        if (!res.Count) {
            Delivered.push_back({});
            throw TResponseTimeoutException();
        }
        res.ResponseTime = std::chrono::microseconds(ReadTimeUs);
        Delivered.emplace_back(buf, buf + res.Count);
        if (KeepRest && res.Count < burst.size())
            Answers.push_front(std::vector<uint8_t>(burst.begin() + res.Count, burst.end()));
        return res;
    }
    void SkipNoise() override
    {}
    void SleepSinceLastInteraction(const std::chrono::microseconds& us) override
    {}
    std::chrono::microseconds GetSendTimeBytes(double bytesNumber) const override
    {
        return std::chrono::microseconds((int64_t)(bytesNumber * 10 * BitTimeUs));
    }
    std::chrono::microseconds GetSendTimeBits(size_t bitsNumber) const override
    {
        return std::chrono::microseconds((int64_t)(bitsNumber * BitTimeUs));
    }
    std::string GetDescription(bool verbose = true) const override
    {
        return Description;
    }
};
// bitwise CRC-16/MODBUS, as transmitted (first byte in the high half)
inline uint16_t RefModbusCrc(const uint8_t* p, size_t n)
{
    uint16_t c = 0xFFFF;
    for (size_t i = 0; i < n; ++i) {
        c ^= p[i];
        for (int k = 0; k < 8; ++k)
            c = (c >> 1) ^ ((uint16_t)(-(c & 1)) & 0xA001);
    }
    return (uint16_t)((c >> 8) | (c << 8));
}
inline void AppendModbusCrc(std::vector<uint8_t>& v)
{
    uint16_t c = RefModbusCrc(v.data(), v.size());
    v.push_back((uint8_t)(c >> 8));
    v.push_back((uint8_t)c);
}
