# Planted bugs above the level of the library that the tests link: the demos carry stand-ins for wblib and jsoncpp.
import os, glob
V = '/verif'
FILES = {}
for f in glob.glob(V + '/stubs/**/*', recursive=True):
    if os.path.isfile(f): FILES[os.path.relpath(f, V + '/stubs')] = open(f).read()
for f in ['fakeport.h', 'devbench.h', 'modbussim.h']: FILES[f] = open(V + '/harness/' + f).read()
FILES['symx.h'] = '''#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
inline void symx_assert(bool c, const char* m) { if (!c) { printf("failed: %s\\n", m); fflush(stdout); _Exit(1); } }
inline void symx_reach(const char*) {}
inline uint64_t symx_var(const char*, unsigned) { return 0; }
inline uint8_t Sym8(const char*) { return 0; }
inline uint16_t Sym16(const char*) { return 0; }
'''
FILES['clock.cpp'] = '#include <cstdint>\nextern "C" { int64_t symx_clock_ns = 0; }\n'
H = '#include <cstdio>\n#include <cstdlib>\n#include <vector>\n#include <string>\n#include <cstdint>\n#include <stdexcept>\n#include "devbench.h"\n#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); fflush(stdout); _Exit(1); } } while (0)\nusing namespace std; using namespace std::chrono;\ntypedef vector<uint8_t> V;\n'
FL = '-w -DNDEBUG -I"$D/." "$D/json.cpp" "$D/clock.cpp" -Wl,--unresolved-symbols=ignore-all -no-pie'
BASE = ['bcd_utils.cpp', 'bin_utils.cpp', 'common_utils.cpp', 'crc16.cpp', 'port/port.cpp', 'serial_device.cpp', 'register.cpp', 'register_value.cpp', 'serial_exc.cpp', 'log.cpp', 'serial_config.cpp']
MB = BASE + ['modbus_base.cpp', 'modbus_common.cpp', 'wb_registers.cpp', 'devices/modbus_device.cpp']
MBH = H + '''#include "modbussim.h"
#include "devices/modbus_device.h"
#include "modbus_common.h"
static TRegisterTypes Types = {{0, "holding", "value", U16}, {1, "input", "value", U16}, {2, "coil", "switch", U8}, {3, "discrete", "switch", U8}, {4, "holding_single", "value", U16}, {5, "holding_multi", "value", U16}};
static const char* TypeNames[] = {"holding", "input", "coil", "discrete", "holding_single", "holding_multi"};
struct Bench {
    shared_ptr<TSimServer> Server = make_shared<TSimServer>(); PDeviceConfig Config; shared_ptr<TModbusDevice> Device; TFakePort Port;
    Bench() { static TUint32SlaveIdProtocol p("modbus", Types); Config = make_shared<TDeviceConfig>("dev", "17", "modbus"); Config->MaxReadRegisters = 0; Config->FrameTimeout = milliseconds(0);
        TModbusDeviceConfig c; c.CommonConfig = Config; Device = make_shared<TModbusDevice>(make_unique<TSimTraits>(Server), c, &p); }
    PRegister Add(int type, unsigned addr, RegisterFormat f = U16, unsigned off = 0, unsigned width = 0) {
        return Device->AddRegister(TRegisterConfig::Create(type, addr, f, 1, 0, 0, TRegisterConfig::TSporadicMode::DISABLED, false, TypeNames[type], EWordOrder::BigEndian, EByteOrder::BigEndian, off, width)); }
    bool Read(vector<PRegister> regs) { auto r = Device->CreateRegisterRange(); for (auto& x: regs) if (!r->Add(Port, x, milliseconds::max())) return false; Device->ReadRegisterRange(Port, r, false); return true; }
};
'''
def S(id, prop, needs, what, f, a, b, demo, src=BASE, head=H, files=FILES):
    return dict(id=id, property=prop, needs=needs, what=what, edits=[('src/' + f, a, b)], src=src, demo=head + demo, files=files, flags=FL)
SEEDS = [
S('s18-mb-holes', 'C19', 'a device refuses a request over three registers with a gap between the first two and none before the last one', 'a refused request with a gap counts as one without: its registers are given up',
  'modbus_common.cpp', 'HasHolesFlg = HasHolesFlg || hasHoles;', 'HasHolesFlg = hasHoles;',
  '''int main() { Bench b; b.Config->MaxRegHole = 5; auto x = b.Add(0, 1), y = b.Add(0, 4), z = b.Add(0, 5); for (auto r: {x, y, z}) r->SetAvailable(TRegisterAvailability::AVAILABLE);
 b.Server->Script = {SIM_OK, SIM_EXCEPTION}; CHECK(b.Read({z})); CHECK(b.Read({x, y, z})); b.Server->Log.erase(b.Server->Log.begin()); CHECK(b.Server->Log.size() == 1 && b.Server->Log[0].Count == 5); CHECK(!b.Device->GetSupportsHoles()); for (auto r: {x, y, z}) CHECK(r->GetAvailable() != TRegisterAvailability::UNAVAILABLE); }
''', MB, MBH),
S('s19-mb-cache', 'C16', 'a bit field written twice to a register of several words between two readings', 'words written before are not remembered, so the second write puts back the earlier state of the first field',
  'modbus_common.cpp', '        for (const auto& item: tmpCache) {\n            cache.insert_or_assign(item.first, item.second);\n        }\n    }\n\n    void ProcessRange', '        for (const auto& item: tmpCache) {\n            cache.emplace(item.first, item.second);\n        }\n    }\n\n    void ProcessRange',
  '''int main() { Bench b; b.Server->Mem.H(40) = 0; b.Server->Mem.H(41) = 0; auto x = b.Add(5, 40, U32, 0, 8), y = b.Add(5, 40, U32, 8, 8); x->SetAvailable(TRegisterAvailability::AVAILABLE); y->SetAvailable(TRegisterAvailability::AVAILABLE); CHECK(b.Read({x, y}));
 b.Device->WriteRegister(b.Port, x, TRegisterValue(uint64_t(0x5a))); b.Device->WriteRegister(b.Port, y, TRegisterValue(uint64_t(0xc3))); CHECK(b.Server->Mem.H(41) == 0xc35a); }
''', MB, MBH),
S('s20-reg-negative', 'C10', 'an unsigned register set to "-1.0", a negative number written with a fraction', 'a small negative number becomes the largest positive one instead of being refused', 'register.cpp',
  'if (std::is_unsigned<T>::value && (res < 0))', 'if (std::is_unsigned<T>::value && (res < -1))',
  '''int main() { auto c = TRegisterConfig::Create(0, 1, U16); for (string t: {"-1.0", "-2.0", "-100.0"}) { bool thrown = false; try { ConvertToRawValue(*c, t); } catch (const exception&) { thrown = true; } CHECK(thrown); } CHECK(ConvertToRawValue(*c, "2.0").Get<uint64_t>() == 2); }
'''),
S('s21-s24-sign', 'C09', 'a three byte signed register that holds the most negative number', 'the sign of one value is lost', 'register.cpp', 'if (v & 0x800000)', 'if (v > 0x800000)',
  '''int main() { auto c = TRegisterConfig::Create(0, 1, S24); CHECK(ConvertFromRawValue(*c, TRegisterValue(uint64_t(0x800000))) == "-8388608"); CHECK(ConvertFromRawValue(*c, TRegisterValue(uint64_t(0xffffff))) == "-1"); CHECK(ConvertFromRawValue(*c, TRegisterValue(uint64_t(5))) == "5"); }
'''),
S('s22-dooya-and', 'C34', 'a motor that answers another command, whose answer differs in one of two bytes', 'an answer to another request is taken for the confirmation', 'devices/curtains/dooya_device.cpp', '(bytes[3] != fn) || (bytes[4] != dataAddress)', '(bytes[3] != fn) && (bytes[4] != dataAddress)',
  '''#include "devices/curtains/dooya_device.h"
V F(V v) { uint16_t c = RefModbusCrc(v.data(), v.size()); v.push_back(c >> 8); v.push_back(c & 255); return v; }
int main() { for (int k = 0; k < 3; ++k) { TDevBench<Dooya::TDevice> b("0x1234"); auto r = b.Add(1, 0x17, U8); b.Port.Answers.push_back(F({0x55, 0x34, 0x12, uint8_t(k == 1 ? 2 : 1), uint8_t(k == 2 ? 4 : 1), 7})); b.Read({r}); CHECK(b.Good(r) == (k == 0)); } }
''', BASE + ['devices/curtains/dooya_device.cpp']),
S('s23-uniel-param', 'C27', 'a reply for another parameter of the same device', 'a reading takes the value of another parameter', 'devices/uniel_device.cpp', 'if (response[1] != uint8_t(addr))', 'if (response[1] < uint8_t(addr))',
  '''#include "devices/uniel_device.h"
int main() { for (int k: {6, 7, 8}) { TDevBench<TUnielDevice> b("0x0a"); auto r = b.Add(1, 7, U8); V a = {0xff, 0xff, 5, 0, 0x33, (uint8_t)k, 0}; uint8_t s = 0; for (int i = 2; i < 7; ++i) s += a[i]; a.push_back(s); b.Port.Answers.push_back(a); b.Read({r}); CHECK(b.Good(r) == (k == 7)); } }
''', BASE + ['devices/uniel_device.cpp']),
S('s24-lls-cache', 'C29', 'two reading cycles with a change between them', 'the first answer of a command is repeated for ever', 'devices/lls_device.cpp', 'CmdResultCache.clear();', 'if (CmdResultCache.size() > 1) {\n        CmdResultCache.clear();\n    }',
  '''#include "devices/lls_device.h"
uint8_t C(const V& p) { uint8_t c = 0; for (auto x: p) { c ^= x; for (int k = 0; k < 8; ++k) c = (c & 1) ? (c >> 1) ^ 0x8c : c >> 1; } return c; }
int main() { TDevBench<TLLSDevice> b("1"); auto r = b.Add(0, 0xf0, U8); for (int v: {5, 9}) { V a = {0x3e, 1, 0xf0, (uint8_t)v}; a.push_back(C(a)); b.Port.Answers.push_back(a); b.Read({r}); CHECK(b.Good(r) && r->GetValue().Get<uint64_t>() == (uint64_t)v); } }
''', BASE + ['devices/lls_device.cpp']),
S('s25-ivtm-size', 'C30', 'an intact answer with more data than asked for', 'an answer of the wrong size is accepted', 'devices/ivtm_device.cpp', 'if (len * 2 != actualPayloadSize) {', 'if (len * 2 > actualPayloadSize) {',
  '''#include "devices/ivtm_device.h"
V Hex(V v) { V r; for (auto x: v) for (int s = 4; s >= 0; s -= 4) r.push_back("0123456789ABCDEF"[x >> s & 15]); return r; }
int main() { for (int n: {1, 2, 3}) { TDevBench<TIVTMDevice> b("0x1234"); auto r = b.Add(0, 0x104, U16); V a = {'!', '1', '2', '3', '4', 'R', 'R'}; V d(n, 0x21); for (auto x: Hex(d)) a.push_back(x); uint8_t s = 0; for (auto x: a) s += x; for (auto x: Hex({s})) a.push_back(x); a.push_back('\\r'); b.Port.Answers.push_back(a); b.Read({r}); CHECK(b.Good(r) == (n == 2)); } }
''', BASE + ['devices/ivtm_device.cpp']),
S('s27-mercury-cache', 'C24', 'two reading cycles of a multi-value parameter with a change between them', 'values of an earlier cycle are published as current', 'devices/mercury230_device.cpp', 'CachedValues.clear();', 'if (CachedValues.size() > 1) {\n        CachedValues.clear();\n    }',
  '''#include "devices/mercury230_device.h"
V F(V v) { uint16_t c = RefModbusCrc(v.data(), v.size()); v.push_back(c >> 8); v.push_back(c & 255); return v; }
int main() { TDevBench<TMercury230Device> b("1"); auto r = b.Add(0, 0x0000, U32); uint8_t v = 5; b.Port.Answer = [&](const V& q) { if (q[1] != 5) return F({1, 0}); V a = {1}; for (int i = 0; i < 4; ++i) { a.push_back(0); a.push_back(0); a.push_back(v); a.push_back(0); } return F(a); };
 for (int x: {5, 9}) { v = x; b.Read({r}); CHECK(b.Good(r) && r->GetValue().Get<uint64_t>() == (uint64_t)x); } }
''', BASE + ['devices/em_device.cpp', 'devices/mercury230_device.cpp']),
S('s26-poll-low', 'C36', 'high priority reads that take so long that a low priority read is due, while a low priority item is waiting and a high priority one is ready', 'a low priority read that has waited too long is put off once more', 'poll_plan.h', 'TotalTime = std::max(TotalTime - delta, -MaxTotalTime);', 'TotalTime = std::max(TotalTime - delta, std::chrono::milliseconds::zero());',
  '''#include "poll_plan.h"
int main() { TTotalTimeBalancer b(milliseconds(100), milliseconds(200)); b.DecrementTotalTime(milliseconds(150)); CHECK(b.GetTotalTime() == milliseconds(-150)); b.IncrementTotalTime(milliseconds(200)); CHECK(!b.ShouldDecrement()); }
''', []),
S('s28-write-race', 'C41', 'a second value that arrives while the first one is being written to the device', 'the second value is never written', 'register_handler.cpp',
  'Reg->Device()->WriteRegister(port, Reg, tempValue);\n        {\n            std::lock_guard<std::mutex> lock(SetValueMutex);\n            Dirty = (tempValue != ValueToSet);', 'Reg->Device()->WriteRegister(port, Reg, tempValue);\n        {\n            std::lock_guard<std::mutex> lock(SetValueMutex);\n            Dirty = false;',
  '''#include "register_handler.h"
#include <functional>
struct D: TSerialDevice { function<void()> F; vector<uint64_t> Written; D(PDeviceConfig c, PProtocol p): TSerialDevice(c, p) {} void WriteRegisterImpl(TPort&, const TRegisterConfig&, const TRegisterValue& v) override { Written.push_back(v.Get<uint64_t>()); if (F) F(); } };
int main() { auto c = make_shared<TDeviceConfig>("dev", "1", "proto"); auto d = make_shared<D>(c, BenchProtocol()); auto r = d->AddRegister(TRegisterConfig::Create(0, 1)); TRegisterHandler h(r); TFakePort p;
 h.SetTextValue("5"); d->F = [&] { d->F = nullptr; h.SetTextValue("6"); }; h.Flush(p); CHECK(h.NeedToFlush()); h.Flush(p); CHECK(!h.NeedToFlush()); CHECK(d->Written == (vector<uint64_t>{5, 6})); }
''', BASE + ['register_handler.cpp']),
S('s29-conf-default', 'C47', 'a channel whose condition depends on a parameter that is not set and has a default value', 'the default value does not count, so a channel that should be there is missing', 'config_merge_template.cpp', 'RemoveDisabledChannels(res, mergedConfig, expressionsCache);', 'RemoveDisabledChannels(res, deviceConfigJson, expressionsCache);',
  '''#include "config_merge_template.h"
int main() { for (int v: {-1, 0, 1}) { Json::Value t(Json::objectValue), u(Json::objectValue), c(Json::objectValue), p(Json::objectValue); t["name"] = "D"; p["title"] = "m"; p["address"] = 1; p["default"] = 1; t["parameters"]["m"] = p; c["name"] = "c"; c["address"] = 2; c["condition"] = "m==1"; t["channels"].append(c); u["slave_id"] = "1"; if (v >= 0) u["m"] = v;
 auto r = MergeDeviceConfigWithTemplate(u, "D", t); CHECK(r["channels"].size() == (v == 0 ? 0u : 1u)); } }
''', BASE + ['config_merge_template.cpp', 'expression_evaluator.cpp', 'json_common.cpp', 'file_utils.cpp', 'templates_map.cpp', 'register_handler.cpp', 'port/feature_port.cpp']),
S('s30-open-cycles', 'C40', 'a port that fails, is closed and opened again and whose first cycle after that fails', 'the number of failures allowed before closing is not renewed when the port opens', 'port/port.cpp', '    LastSuccessfulCycle = NowFn();\n    RemainingFailCycles = Settings.ConnectionMaxFailCycles;\n}', '    LastSuccessfulCycle = NowFn();\n    RemainingFailCycles = std::min<int>(RemainingFailCycles + 1, Settings.ConnectionMaxFailCycles);\n}',
  '''#include "port/port.h"
int main() { steady_clock::time_point now(seconds(100)); TPortOpenCloseLogic::TSettings s; s.MaxFailTime = milliseconds(0); s.ConnectionMaxFailCycles = 3; s.ReopenTimeout = milliseconds(10); auto p = make_shared<TFakePort>(); p->IsOpenFlag = false; TPortOpenCloseLogic l(s, [&] { return now; });
 for (int round = 0; round < 3; ++round) { now += seconds(1); l.OpenIfAllowed(p); CHECK(p->IsOpen()); for (int i = 0; i < 3; ++i) { CHECK(p->IsOpen()); now += seconds(1); l.CloseIfNeeded(p, true); } CHECK(!p->IsOpen()); } }
'''),
S('s31-events-type', 'C22', 'registers of two types with the same address', 'the second of them is not enabled', 'modbus_ext_common.cpp', 'return a.Type == b.Type && a.Addr == b.Addr;', 'return a.Addr == b.Addr;',
  '''#include "modbus_ext_common.h"
struct T: Modbus::IModbusTraits { vector<V> Q; Modbus::TReadResult Transaction(TPort&, uint8_t id, const V& q, size_t, const milliseconds&, const milliseconds&, bool) override { Q.push_back(q); Modbus::TReadResult r; r.SlaveId = id; r.Pdu = {0x46, 0x18, 8, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}; return r; } };
int main() { TFakePort p; T t; vector<pair<int,int>> seen; ModbusExt::TEventsEnabler e(7, p, t, [&](uint8_t type, uint16_t a, bool) { seen.emplace_back(type, a); });
 e.AddRegister(5, ModbusExt::TEventType::COIL, ModbusExt::TEventPriority::LOW); e.AddRegister(5, ModbusExt::TEventType::HOLDING, ModbusExt::TEventPriority::LOW); e.SendRequests(); CHECK(seen.size() == 2 && seen[0] != seen[1]); }
''', BASE + ['modbus_base.cpp', 'modbus_ext_common.cpp']),
S('s32-fd-timeout', 'C44', 'a frame that comes in parts, with pauses longer than the frame timeout and shorter than the response timeout', 'the pause that ends a frame is not noticed, so the next frame is glued to it', 'port/file_descriptor_port.cpp', 'selectTimeout = frameTimeout;', 'selectTimeout = std::max(selectTimeout, frameTimeout);',
  '''#include "port/file_descriptor_port.h"
#include <unistd.h>
#include <thread>
struct P: TFileDescriptorPort { P(int fd) { Fd = fd; } void Open() override {} string GetDescription(bool) const override { return "p"; } microseconds GetSendTimeBytes(double) const override { return microseconds(0); } microseconds GetSendTimeBits(size_t) const override { return microseconds(0); } };
int main() { int f[2]; CHECK(!pipe(f)); P p(f[0]); CHECK(write(f[1], "abc", 3) == 3); thread t([&] { this_thread::sleep_for(milliseconds(700)); if (write(f[1], "de", 2) != 2) _Exit(9); });
 uint8_t b[16]; auto r = p.ReadFrame(b, 16, milliseconds(5000), milliseconds(50)); CHECK(r.Count == 3); t.join(); r = p.ReadFrame(b, 16, milliseconds(5000), milliseconds(50)); CHECK(r.Count == 2); }
''', BASE + ['port/file_descriptor_port.cpp']),
S('s33-decode-mask', 'C15', 'a bit field narrower than eight bits', 'bits of the neighbouring field appear in the value', 'modbus_common.cpp', 'value &= GetLSBMask(reg.GetDataWidth());\n        return value;', 'value &= GetLSBMask(std::max<uint32_t>(reg.GetDataWidth(), 4));\n        return value;',
  '''int main() { for (int w = 1; w <= 8; ++w) { Bench b; b.Server->Mem.H(40) = 0xffff; auto x = b.Add(0, 40, U16, 3, w); CHECK(b.Read({x})); CHECK(x->GetValue().Get<uint64_t>() == (1u << w) - 1); } }
''', MB, MBH),
S('s34-setup-gap', 'C18', 'setup registers with a gap between them', 'registers in the gap are overwritten', 'modbus_common.cpp', 'address != lastAddress + lastWidth', 'address < lastAddress + lastWidth',
  '''int main() { Bench b; b.Config->MaxWriteRegisters = 10; for (int i = 0; i < 60; ++i) b.Server->Mem.H(i) = 100 + i; for (int a: {10, 12, 13}) b.Device->AddSetupItem(make_shared<TDeviceSetupItemConfig>("s", TRegisterConfig::Create(0, a, U16, 1, 0, 0, TRegisterConfig::TSporadicMode::DISABLED, false, "holding"), "9"));
 b.Device->WriteSetupRegisters(b.Port, b.Device->GetSetupItems(), true); for (int i = 0; i < 60; ++i) CHECK(b.Server->Mem.H(i) == (i == 10 || i == 12 || i == 13 ? 9 : 100 + i)); }
''', MB, MBH),
]
