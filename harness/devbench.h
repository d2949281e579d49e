// A driver of one device behind a scripted port. Every reading goes through TSerialDevice::ReadRegisterRange, as the polling does.
#pragma once
#include "fakeport.h"
#include "serial_device.h"
#include "symx.h"
#include <memory>
#include <optional>
inline PProtocol BenchProtocol()
{
    static TRegisterTypes types = {{0, "t0", "value", U16}, {1, "t1", "value", U16}, {2, "t2", "value", U16}, {3, "t3", "value", U16}, {4, "t4", "value", U16}, {5, "t5", "value", U16}, {6, "t6", "value", U16}};
    static TUint32SlaveIdProtocol p("proto", types);
    return &p;
}
template<class D> struct TDevBench
{
    PDeviceConfig Config;
    std::shared_ptr<D> Device;
    TFakePort Port;
    explicit TDevBench(const std::string& slave)
    {
        Config = std::make_shared<TDeviceConfig>("dev", slave, "proto");
        Config->FrameTimeout = std::chrono::milliseconds(0);
        Config->MaxRegHole = 0;
        Device = std::make_shared<D>(Config, BenchProtocol());
    }
    PRegister Add(int type, uint32_t addr, RegisterFormat format, uint32_t dataOffset = 0)
    {
        TRegisterDesc d;
        d.Address = std::make_shared<TUint32RegisterAddress>(addr);
        d.WriteAddress = d.Address;
        d.DataOffset = dataOffset;
        return Device->AddRegister(TRegisterConfig::Create(type, d, format, 1, 0, 0, TRegisterConfig::TSporadicMode::DISABLED, false, "t" + std::to_string(type)));
    }
    // true: every register got a value. Exceptions of other types than those the polling handles are violations by themselves.
    void Read(std::initializer_list<PRegister> regs)
    {
        for (auto& r: regs) {
            auto range = Device->CreateRegisterRange();
            range->Add(Port, r, std::chrono::milliseconds::max());
            Device->ReadRegisterRange(Port, range, false);
        }
    }
    static bool Good(const PRegister& r)
    {
        return !r->GetErrorState().test(TRegister::ReadError) && r->GetValue().GetType() != TRegisterValue::ValueType::Undefined;
    }
    // the outcome is a value v of the given width exactly if `good`, else a read error
    static void Expect(const PRegister& r, bool good, uint64_t v, unsigned bits)
    {
        symx_assert(Good(r) == good, "a value is delivered exactly from an intact answer");
        symx_assert(good || r->GetErrorState().test(TRegister::ReadError), "a failed reading is an error");
        if (good) {
            uint64_t mask = bits >= 64 ? ~0ull : (1ull << bits) - 1;
            symx_assert((r->GetValue().template Get<uint64_t>() & mask) == (v & mask), "the value is the one in the answer");
            symx_reach("good");
        } else
            symx_reach("bad");
    }
};
inline bool SameBytes(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b)
{
    if (a.size() != b.size())
        return false;
    uint8_t d = 0;
    for (size_t i = 0; i < a.size(); ++i)
        d |= (uint8_t)(a[i] ^ b[i]);
    return d == 0;
}
// the last two bytes are the CRC-16/MODBUS of the others
inline bool CrcOk(const std::vector<uint8_t>& f)
{
    size_t n = f.size();
    return n >= 2 && RefModbusCrc(f.data(), n - 2) == (uint16_t)(f[n - 2] << 8 | f[n - 1]);
}
inline uint64_t BigEndian(const uint8_t* p, size_t n)
{
    uint64_t v = 0;
    for (size_t i = 0; i < n; ++i)
        v = v << 8 | p[i];
    return v;
}
inline uint64_t LittleEndian(const uint8_t* p, size_t n)
{
    uint64_t v = 0;
    for (size_t i = n; i-- > 0;)
        v = v << 8 | p[i];
    return v;
}
