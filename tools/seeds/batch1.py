H = '#include <cstdio>\n#include <cstdlib>\n#include <vector>\n#include <string>\n#include <cstdint>\n#include <stdexcept>\n#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); exit(1); } } while (0)\nusing namespace std;\n'
PORT = H + '''#include "modbus_base.h"
#include "serial_exc.h"
#include <deque>
#include <chrono>
using namespace std::chrono;
void TPort::Reopen() {}
void TPort::WriteBytes(const vector<uint8_t>& b) { WriteBytes(b.data(), b.size()); }
void TPort::WriteBytes(const string& b) { WriteBytes((const uint8_t*)b.data(), b.size()); }
void TPort::ApplySerialPortSettings(const TSerialPortConnectionSettings&) {}
void TPort::ResetSerialPortSettings() {}
microseconds TPort::CalcResponseTimeout(const microseconds& t) const { return t; }
struct FakePort: TPort {
    using TPort::WriteBytes;
    vector<vector<uint8_t>> Sent; deque<vector<uint8_t>> In; string Desc = "p"; bool Bytewise = false;
    void Open() override {} void Close() override {} bool IsOpen() const override { return true; } void CheckPortOpen() const override {}
    void WriteBytes(const uint8_t* b, int n) override { Sent.emplace_back(b, b + n); }
    uint8_t ReadByte(const microseconds&) override { throw TResponseTimeoutException(); }
    TReadFrameResult ReadFrame(uint8_t* buf, size_t n, const microseconds&, const microseconds&, TFrameCompletePred p = 0) override {
        TReadFrameResult r;
        if (!n) return r;
        if (In.empty()) throw TResponseTimeoutException();
        auto f = In.front(); In.pop_front();
        while (r.Count < n && r.Count < f.size()) { buf[r.Count] = f[r.Count]; r.Count++; if (p && p(buf, r.Count)) break; }
        if (r.Count < f.size()) In.push_front(vector<uint8_t>(f.begin() + r.Count, f.end()));
        return r; }
    void SkipNoise() override {} void SleepSinceLastInteraction(const microseconds&) override {}
    microseconds GetSendTimeBytes(double) const override { return microseconds(0); }
    microseconds GetSendTimeBits(size_t) const override { return microseconds(0); }
    string GetDescription(bool) const override { return Desc; }
};
uint16_t Crc(const vector<uint8_t>& v) { uint16_t c = 0xFFFF; for (auto b: v) { c ^= b; for (int k = 0; k < 8; ++k) c = (c & 1) ? (c >> 1) ^ 0xA001 : c >> 1; } return (c >> 8) | (c << 8); }
vector<uint8_t> Frame(vector<uint8_t> v) { auto c = Crc(v); v.push_back(c >> 8); v.push_back(c & 255); return v; }
'''
MB = ['modbus_base.cpp', 'crc16.cpp', 'bin_utils.cpp', 'serial_exc.cpp']
SEEDS = [
dict(id='s01-crc-entry', property='C01', needs='a frame in which one particular table index is used', what='one entry of the CRC table is wrong',
  edits=[('src/crc16.cpp', None, None)], src=['crc16.cpp'],
  demo=H + '#include "crc16.h"\nint main(){ for (int a=0;a<256;++a) for (int b=0;b<256;++b) { uint8_t d[2]={(uint8_t)a,(uint8_t)b}; uint16_t c=0xFFFF; for (auto x: d) { c^=x; for(int k=0;k<8;++k) c=(c&1)?(c>>1)^0xA001:c>>1; } CHECK(CRC16::CalculateCRC16(d,2)==(uint16_t)((c>>8)|(c<<8))); } }\n'),
dict(id='s02-bigendian-trunc', property='C02', needs='a value of more than four bytes with bits set above bit 31', what='AppendBigEndian drops the upper half of 64-bit values',
  edits=[('src/bin_utils.h', '*it = (value >> (i * 8)) & 0xFF;', '*it = (value >> ((i * 8) & 0x1F)) & 0xFF;')], src=['bin_utils.cpp'],
  demo=H + '#include "bin_utils.h"\n#include <iterator>\nint main(){ vector<uint8_t> v; BinUtils::AppendBigEndian(back_inserter(v), (uint64_t)0x0102030405060708ull); CHECK(v.size()==8); for (int i=0;i<8;++i) CHECK(v[i]==i+1); }\n'),
dict(id='s03-bcd-exp', property='C04', needs='a 4-byte value whose most significant decimal digits are not zero', what='the upper digit pair of a 4-byte BCD value has a wrong weight',
  edits=[('src/bcd_utils.cpp', '        result += ((tmp >> 4) * exp);\n        exp *= 10;', '        result += ((tmp >> 4) * exp);\n        exp = (exp > 10000) ? exp : exp * 10;')], src=['bcd_utils.cpp'],
  demo=H + '#include "bcd_utils.h"\nint main(){ CHECK(PackedBCD2Int(0x12345678, WordSizes::W32_SZ)==12345678); CHECK(PackedBCD2Int(0x99, WordSizes::W8_SZ)==99); }\n'),
dict(id='s04-mqtt-quote', property='C05', needs='a name whose last character is # with nothing before it that gets longer', what='a reserved character passes into the topic',
  edits=[('src/common_utils.cpp', '        if (const auto it = ConvertToMqttStringMap.find(ch); it != ConvertToMqttStringMap.end()) {', '        if (const auto it = ConvertToMqttStringMap.find(ch); it != ConvertToMqttStringMap.end() && (ch != \'#\' || validStr.size() < src.size() - 1)) {')], src=['common_utils.cpp'],
  demo=H + '#include "common_utils.h"\nint main(){ CHECK(util::IsValidMqttTopicString(util::ConvertToValidMqttTopicString("a$b#c/d+e#"))); }\n'),
dict(id='s05-version-trailing', property='C06', needs='versions of different numbers of components where the longer one has a prerelease component', what='missing components are compared as equal',
  edits=[('src/common_utils.cpp', 'int n2 = i < l2.size() ? l2[i] : 0;', 'int n2 = i < l2.size() ? l2[i] : (l1[i] < 0 ? l1[i] : 0);')], src=['common_utils.cpp'],
  demo=H + '#include "common_utils.h"\nint main(){ CHECK(util::CompareVersionStrings("1.2-rc3", "1.2")<0); CHECK(util::CompareVersionStrings("1.2", "1.2-rc3")>0); }\n'),
dict(id='s06-cond-priority', property='C07', needs='a condition mixing || and && with the || first', what='&& and || get the same priority',
  edits=[('src/expression_evaluator.cpp', 'return 15;', 'return 14;')], src=['expression_evaluator.cpp'],
  demo=H + '''#include "expression_evaluator.h"
#include <map>
struct P: Expressions::IParams { map<string,int> m; optional<int32_t> Get(const string& n) const override { auto i = m.find(n); return i==m.end()?nullopt:optional<int32_t>(i->second); } };
int main(){ Expressions::TParser p; auto t = p.Parse("a||b&&c"); P q; q.m={{"a",1},{"b",0},{"c",0}}; CHECK(Expressions::Eval(t.get(), q)); }
'''),
dict(id='s07-cond-eol', property='C08', needs='a truncated isDefined( at the end of the condition', what='the parser runs past the end of the token list',
  edits=[('src/expression_evaluator.cpp', '''    ++nextToken;
    if (nextToken->Type != TTokenType::RightBr) {
        ThrowMissingRightBracketError(nextToken->Pos);
    }
    Token = ++nextToken;''', '''    ++nextToken;
    if (nextToken->Type != TTokenType::RightBr && nextToken->Type != TTokenType::EOL) {
        ThrowMissingRightBracketError(nextToken->Pos);
    }
    Token = ++nextToken;''')], src=['expression_evaluator.cpp'], flags='-fsanitize=address -g',
  demo=H + '#include "expression_evaluator.h"\nint main(){ for (string s: {"isDefined(a", "isDefined(a==1", "isDefined(a)"}) { Expressions::TParser p; bool thrown=false; try { p.Parse(s); } catch (const runtime_error&) { thrown=true; } CHECK(thrown == (s.back()!=\')\')); } }\n'),
dict(id='s08-pdu-coils', property='C11', needs='writing a number of coils that is a multiple of eight', what='the expected byte size of coils is one too big for multiples of eight',
  edits=[('src/modbus_base.cpp', 'return count / 8 + (count % 8 != 0 ? 1 : 0);', 'return count / 8 + (count % 16 != 0 ? 1 : 0);')], src=MB,
  demo=PORT + 'int main(){ CHECK(Modbus::CalcResponsePDUSize(Modbus::FN_READ_COILS, 8)==3); CHECK(Modbus::CalcResponsePDUSize(Modbus::FN_READ_COILS, 16)==4); CHECK(Modbus::MakePDU(Modbus::FN_WRITE_MULTIPLE_COILS, 1, 8, {0xFF}).size()==7); }\n'),
dict(id='s09-extract-short', property='C12', needs='a read response with fewer data bytes than its byte count says', what='a truncated read response is accepted',
  edits=[('src/modbus_base.cpp', 'if (pdu.size() != byteCount + 2) {', 'if (pdu.size() > byteCount + 2) {')], src=MB,
  demo=PORT + 'int main(){ bool thrown=false; try { Modbus::ExtractResponseData(Modbus::FN_READ_HOLDING, {3, 4, 1, 2}); } catch (const Modbus::TMalformedResponseError&) { thrown=true; } CHECK(thrown); }\n'),
dict(id='s10-rtu-broadcast', property='C13', needs='a reply whose address byte is 0 with a valid checksum', what='a frame from address 0 is accepted as the reply of any slave',
  edits=[('src/modbus_base.cpp', 'if (matchSlaveId && slaveId != response[0]) {', 'if (matchSlaveId && slaveId != response[0] && response[0] != 0) {')], src=MB,
  demo=PORT + 'int main(){ for (int a: {0, 1, 2}) { FakePort p; p.In={Frame({(uint8_t)a,3,2,1,2})}; Modbus::TModbusRTUTraits t(false); bool ok=true; try { t.Transaction(p, 1, {3,0,0,0,1}, 4, milliseconds(10), milliseconds(10)); } catch (const exception&) { ok=false; } CHECK(ok==(a==1)); } }\n'),
dict(id='s11-tcp-id', property='C14', needs='a late answer whose transaction id differs only in the upper byte (256 requests later)', what='only the low byte of the transaction id is compared',
  edits=[('src/modbus_base.cpp', 'if (((transactionId >> 8) & 0xFF) == response[0] && (transactionId & 0xFF) == response[1]) {', 'if ((transactionId & 0xFF) == response[1]) {')], src=MB,
  demo=PORT + 'int main(){ FakePort p; p.In={{1,1,0,0,0,5,1},{3,2,9,9},{0,1,0,0,0,5,1},{3,2,1,2}}; Modbus::TModbusTCPTraits t; auto r=t.Transaction(p, 1, {3,0,0,0,1}, 4, milliseconds(500), milliseconds(500)); CHECK(r.Pdu==(vector<uint8_t>{3,2,1,2})); }\n'),
dict(id='s12-queue-remove', property='C35', needs='removing an item from the middle of a queue of several items and then taking the rest', what='the heap order is lost after removing an item',
  edits=[('src/poll_plan.h', '            std::make_heap(this->c.begin(), this->c.end(), this->comp);', '            std::push_heap(this->c.begin(), this->c.end(), this->comp);')], src=[],
  demo=H + '''#include "poll_plan.h"
using namespace std::chrono;
int main(){ for (int seed=0; seed<2000; ++seed) { srand(seed); TPriorityQueueSchedule<int, std::less<int>> q; vector<int> d; int n=3+seed%5; for (int i=0;i<n;++i) { d.push_back(rand()%100); q.AddEntry(i, steady_clock::time_point(milliseconds(d[i]))); }
 int k=rand()%n; q.Remove(k); int last=-1; while(!q.IsEmpty()) { int x=q.GetTop().Data; CHECK(d[x]>=last); last=d[x]; q.Pop(); } } }
'''),
dict(id='s13-balancer-min', property='C36', needs='low priority reads that take longer than twice the allowed lag', what='the time budget of low priority items may fall without limit, so that they starve afterwards',
  edits=[('src/poll_plan.h', 'TotalTime = std::max(TotalTime - delta, -MaxTotalTime);', 'TotalTime = std::max(TotalTime - delta, -8 * MaxTotalTime);')], src=[],
  demo=H + '#include "poll_plan.h"\nusing namespace std::chrono;\nint main(){ TTotalTimeBalancer b(milliseconds(100), milliseconds(200)); b.DecrementTotalTime(milliseconds(5000)); CHECK(b.GetTotalTime()>=milliseconds(-200)); b.IncrementTotalTime(milliseconds(300)); CHECK(b.ShouldDecrement()); }\n'),
dict(id='s14-rate-second', property='C37', needs='more reads than the limit exactly around the border of the accounting second', what='the counter is not restarted in a new accounting second',
  edits=[('src/poll_plan.h', '        Count = 1;\n        StartTime', '        Count = std::min<size_t>(Count, RateLimit - 1) + 1;\n        StartTime')], src=[],
  demo=H + '#include "poll_plan.h"\nusing namespace std::chrono;\nint main(){ TRateLimiter r(2); steady_clock::time_point t(seconds(10)); for (int i=0;i<2;++i) r.NewItem(t+milliseconds(i)); t+=milliseconds(1500); r.NewItem(t); r.NewItem(t+milliseconds(1)); CHECK(!r.IsOverLimit(t+milliseconds(2))); }\n'),
dict(id='s15-average-width', property='C53', needs='averages above 2^32/9', what='the running average overflows',
  edits=[('src/running_average.h', 'Average = ((WindowSize - 1) * Average + value) / WindowSize;', 'Average = Average - Average / WindowSize + value / WindowSize;')], src=[],
  demo=H + '#include "running_average.h"\nint main(){ for (uint64_t v: {1ull,5ull,9ull,11ull,15ull,19ull,99ull}) { TRunningAverage<uint64_t,10> a(v); a.AddValue(v+9); CHECK(a.GetValue()==(9*v+v+9)/10); } }\n'),
dict(id='s16-iterate-sorted', property='C54', needs='a sorted walk whose visitor accepts an entry that is not the last', what='a sorted walk goes on after the entry was accepted',
  edits=[('src/file_utils.cpp', '        for (const auto& fileName: files) {\n            if (fn(fileName)) {\n                return fileName;\n            }\n        }\n        return std::string();', '        std::string found;\n        for (const auto& fileName: files) {\n            if (fn(fileName)) {\n                found = fileName;\n            }\n        }\n        return found;')], src=['file_utils.cpp'],
  demo=H + '#include "file_utils.h"\n#include <fstream>\n#include <filesystem>\nint main(){ std::filesystem::create_directory("d"); for (string n: {"a","b","c"}) ofstream("d/"+n) << "x"; auto r=IterateDirByPattern("d","",[](const string& s){ return s!="d/a"; }, true); CHECK(r=="d/b"); }\n'),
dict(id='s17-stuffing-order', property='C03', needs='a payload with an escaped byte followed by the bytes of an escape sequence', what='decoded bytes are looked at again',
  edits=[('src/bin_utils.cpp', 'readIt += rule.second.size() - 1;', 'readIt += rule.second.size() - 1;\n                if (readIt + 1 != data.end() && *(readIt + 1) == rule.first && rule.first == rule.second.front()) {\n                    ++readIt;\n                }')], src=['bin_utils.cpp'],
  demo=H + '#include "bin_utils.h"\nint main(){ unordered_map<uint8_t, vector<uint8_t>> r={{0xC0,{0xDB,0xDC}},{0xDB,{0xDB,0xDD}}}; vector<uint8_t> d={0xDB,0xDD,0xDB,0xDC,0x01}; BinUtils::DecodeByteStuffing(d, r); CHECK(d==(vector<uint8_t>{0xDB,0xC0,0x01})); }\n'),
]
import re
_t = open('/repo/src/crc16.cpp').read()
_i = _t.index('{')
_l = [l for l in _t.split('\n') if l.count('0x') >= 6]
_line = _l[len(_l) // 3]
_parts = re.findall(r'0x[0-9A-Fa-f]+', _line)
_n = _line.replace(_parts[3], '0x%02X' % (int(_parts[3], 16) ^ 0x40), 1)
_k = [i for i, l in enumerate(_l) if l == _line]
if len(_k) > 1:   # the table repeats lines: take a unique line
    _line = [l for l in _l if _t.count(l) == 1][0]
    _parts = re.findall(r'0x[0-9A-Fa-f]+', _line)
    _p = _line.rindex(_parts[-1]); _n = _line[:_p] + '0x%02X' % (int(_parts[-1], 16) ^ 0x40) + _line[_p + 4:]
SEEDS[0]['edits'] = [('src/crc16.cpp', _line, _n)]
