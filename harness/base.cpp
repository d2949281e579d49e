// C01-C06, C53: CRC, integer packing, byte stuffing, BCD, topic names, version order, running average
#include "symx.h"
#include "bcd_utils.h"
#include "bin_utils.h"
#include "common_utils.h"
#include "crc16.h"
#include "running_average.h"
#include <algorithm>
#include <iterator>
#include <stdexcept>
#include <unordered_map>

using namespace std;

// ---------------------------------------------------------------- C01
static uint16_t RefCrc(const uint8_t* p, size_t n)
{
    uint16_t c = 0xFFFF;
    for (size_t i = 0; i < n; ++i) {
        c ^= p[i];
        for (int k = 0; k < 8; ++k)
            c = (c >> 1) ^ ((uint16_t)(-(c & 1)) & 0xA001);
    }
    return (uint16_t)((c >> 8) | (c << 8));
}

HARNESS h_crc_ref()
{
    size_t n = Pick("n", symx_param("lo", 0), symx_param("hi", 16));
    auto b = SymBytes("b", n + 1);
    uint16_t r = CRC16::CalculateCRC16(b.data(), (uint16_t)n);
    symx_assert(r == RefCrc(b.data(), n), "CRC equals the bitwise CRC-16/MODBUS, high byte = first transmitted byte");
    symx_observe("crc", r);
    symx_reach("checked");
}

HARNESS h_crc_residue()
{
    size_t n = Pick("n", symx_param("lo", 0), symx_param("hi", 12));
    auto b = SymBytes("b", n);
    uint16_t r = CRC16::CalculateCRC16(b.data(), (uint16_t)n);
    b.push_back((uint8_t)(r >> 8));
    b.push_back((uint8_t)r);
    symx_assert(CRC16::CalculateCRC16(b.data(), (uint16_t)b.size()) == 0, "a frame followed by its checksum has no residue");
    symx_reach("checked");
}

HARNESS h_crc_burst()
{
    size_t n = Pick("n", 3, symx_param("hi", 8));
    size_t at = Pick("at", 0, n - 3);
    auto b = SymBytes("b", n);
    auto d = b;
    uint16_t err = Sym16("err");
    unsigned sh = (unsigned)Pick("shift", 0, 7);
    symx_assume(err != 0);
    uint32_t e = (uint32_t)err << sh;
    d[at] ^= (uint8_t)e;
    d[at + 1] ^= (uint8_t)(e >> 8);
    d[at + 2] ^= (uint8_t)(e >> 16);
    symx_assert(CRC16::CalculateCRC16(b.data(), (uint16_t)n) != CRC16::CalculateCRC16(d.data(), (uint16_t)n),
                "a burst of at most 16 changed bits changes the checksum");
    symx_reach("checked");
}

// ---------------------------------------------------------------- C02
template<class T> static void GetCase(const char*)
{
    size_t n = Pick("n", 0, sizeof(T));
    size_t off = Pick("off", 0, 2);
    auto b = SymBytes("b", n + off);
    uint64_t le = 0, be = 0;
    for (size_t i = 0; i < n; ++i) {
        le |= (uint64_t)b[off + i] << (8 * i);
        be |= (uint64_t)b[off + i] << (8 * (n - 1 - i));
    }
    symx_assert(BinUtils::Get<T>(b.begin() + off, b.end()) == (T)le, "little endian value");
    symx_assert(BinUtils::GetBigEndian<T>(b.begin() + off, b.end()) == (T)be, "big endian value");
    if (n == sizeof(T)) {
        symx_assert(BinUtils::GetFrom<T>(b.begin() + off) == (T)le, "little endian value of the type's size");
        symx_assert(BinUtils::GetFromBigEndian<T>(b.begin() + off) == (T)be, "big endian value of the type's size");
        // raw pointers are iterators too
        const uint8_t* p = b.data() + off;
        symx_assert(BinUtils::GetFrom<T>(p) == (T)le && BinUtils::GetFromBigEndian<T>(p) == (T)be, "value from a pointer");
        symx_reach("full");
    }
    symx_observe("le", (uint64_t)BinUtils::Get<T>(b.begin() + off, b.end()));
}
HARNESS h_bin_get()
{
    switch (Pick("type", 0, 7)) {
        case 0:
            return GetCase<uint8_t>("u8");
        case 1:
            return GetCase<uint16_t>("u16");
        case 2:
            return GetCase<uint32_t>("u32");
        case 3:
            return GetCase<uint64_t>("u64");
        case 4:
            return GetCase<int64_t>("s64");
        case 5:
            return GetCase<int32_t>("s32");
        case 6:
            return GetCase<int16_t>("s16");
        case 7:
            return GetCase<size_t>("size");
    }
}
template<class T> static void AppendCase()
{
    T v = (T)Sym64("v");
    size_t n = Pick("n", 1, sizeof(T));
    size_t pre = Pick("pre", 0, 2);
    auto head = SymBytes("head", pre);
    auto a = head, b = head, c = head, d = head;
    BinUtils::Append(back_inserter(a), v, n);
    BinUtils::AppendBigEndian(back_inserter(b), v, n);
    BinUtils::Append(back_inserter(c), v);
    BinUtils::AppendBigEndian(back_inserter(d), v);
    symx_assert(a.size() == pre + n && b.size() == pre + n, "exactly the requested number of bytes is appended");
    symx_assert(c.size() == pre + sizeof(T) && d.size() == pre + sizeof(T), "by default the size of the value is appended");
    for (size_t i = 0; i < pre; ++i)
        symx_assert(a[i] == head[i] && b[i] == head[i], "earlier bytes are untouched");
    for (size_t i = 0; i < n; ++i) {
        symx_assert(a[pre + i] == (uint8_t)((uint64_t)v >> (8 * i)), "little endian byte order");
        symx_assert(b[pre + i] == (uint8_t)((uint64_t)v >> (8 * (n - 1 - i))), "big endian byte order");
    }
    symx_assert(BinUtils::GetFrom<T>(c.begin() + pre) == v, "little endian round trip");
    symx_assert(BinUtils::GetFromBigEndian<T>(d.begin() + pre) == v, "big endian round trip");
    symx_observe("last", a.back());
    symx_reach("append");
}
HARNESS h_bin_append()
{
    switch (Pick("type", 0, 6)) {
        case 0:
            return AppendCase<uint8_t>();
        case 1:
            return AppendCase<uint16_t>();
        case 2:
            return AppendCase<uint32_t>();
        case 3:
            return AppendCase<uint64_t>();
        case 4:
            return AppendCase<int32_t>();
        case 5:
            return AppendCase<int64_t>();
        case 6:
            return AppendCase<int16_t>();
    }
}
HARNESS h_bin_misc()
{
    uint8_t bits = Sym8("bits");
    uint64_t m = BinUtils::GetLSBMask(bits);
    // the mask has bit i set exactly when i < bits
    uint8_t i = Sym8("i");
    symx_assume(i < 64);
    symx_assert(((m >> i) & 1) == (i < bits ? 1u : 0u), "mask has exactly the requested number of low bits set");
    uint8_t buf[4] = {Sym8("x"), 0, 0, Sym8("y")};
    uint8_t x = buf[0], y = buf[3];
    uint16_t v = Sym16("v");
    BinUtils::WriteAs2Bytes(buf + 1, v);
    symx_assert(buf[0] == x && buf[3] == y && buf[1] == (uint8_t)(v >> 8) && buf[2] == (uint8_t)v, "two bytes, high byte first");
    vector<uint8_t> out;
    uint8_t p = Sym8("p"), q = Sym8("q"), r = Sym8("r");
    BinUtils::Append(back_inserter(out), {p, q, r});
    symx_assert(out.size() == 3 && out[0] == p && out[1] == q && out[2] == r, "list is appended in order");
    symx_observe("mask", m);
    symx_reach("done");
}

// ---------------------------------------------------------------- C03
typedef unordered_map<uint8_t, vector<uint8_t>> TRules;
static void Rules(TRules& r, vector<uint8_t>& keys)
{
    switch (Pick("rules", 0, 2)) {
        case 0: // the rules of the Energomera CE protocol
            r = {{0xC0, {0xDB, 0xDC}}, {0xDB, {0xDB, 0xDD}}};
            break;
        case 1: // three reserved bytes
            r = {{0x7E, {0x7D, 0x5E}}, {0x7D, {0x7D, 0x5D}}, {0x11, {0x7D, 0x31}}};
            break;
        case 2: // three byte escapes
            r = {{0x02, {0x10, 0x10, 0x42}}, {0x10, {0x10, 0x11, 0x50}}};
            break;
    }
    for (auto& p: r)
        keys.push_back(p.first);
}
static vector<uint8_t> RefStuff(const vector<uint8_t>& d, const TRules& r)
{
    vector<uint8_t> out;
    for (auto b: d) {
        const vector<uint8_t>* rep = nullptr;
        for (auto& p: r)
            if (p.first == b)
                rep = &p.second;
        if (rep)
            out.insert(out.end(), rep->begin(), rep->end());
        else
            out.push_back(b);
    }
    return out;
}
HARNESS h_stuffing()
{
    TRules r;
    vector<uint8_t> keys;
    Rules(r, keys);
    size_t n = Pick("n", symx_param("lo", 0), symx_param("hi", 5));
    auto d = SymBytes("d", n);
    vector<uint8_t> st;
    BinUtils::ApplyByteStuffing(d, r, back_inserter(st));
    auto ref = RefStuff(d, r);
    symx_assert(st.size() == ref.size(), "stuffed size");
    for (size_t i = 0; i < ref.size(); ++i)
        symx_assert(st[i] == ref[i], "every reserved byte is replaced by its escape, every other byte is kept");
    bool tail = SymBool("tail"); // the frame end marker that follows the content in the protocols
    auto f = st;
    if (tail)
        f.push_back(keys[0]);
    BinUtils::DecodeByteStuffing(f, r);
    symx_assert(f.size() == d.size() + (tail ? 1 : 0), "decoding restores the size");
    for (size_t i = 0; i < d.size(); ++i)
        symx_assert(f[i] == d[i], "decoding the stuffed form gives the payload back");
    if (tail) {
        symx_assert(f.back() == keys[0], "trailing marker is kept");
        symx_reach("tail");
    }
    if (st.size() >= n + 2)
        symx_reach("escaped");
    symx_observe("size", st.size());
}
HARNESS h_unstuff_any()
{
    TRules r;
    vector<uint8_t> keys;
    Rules(r, keys);
    size_t n = Pick("n", 0, symx_param("hi", 4));
    auto d = SymBytes("d", n);
    vector<uint8_t> ref;
    for (size_t i = 0; i < n;) {
        bool hit = false;
        for (auto& p: r) {
            bool eq = i + p.second.size() <= n;
            for (size_t k = 0; eq && k < p.second.size(); ++k)
                eq = d[i + k] == p.second[k];
            if (eq) {
                ref.push_back(p.first);
                i += p.second.size();
                hit = true;
                break;
            }
        }
        if (!hit)
            ref.push_back(d[i++]);
    }
    auto f = d;
    BinUtils::DecodeByteStuffing(f, r);
    symx_assert(f.size() == ref.size(), "size after decoding arbitrary bytes");
    for (size_t i = 0; i < ref.size(); ++i)
        symx_assert(f[i] == ref[i], "decoding arbitrary bytes replaces exactly the complete escapes");
    symx_reach("done");
}

// ---------------------------------------------------------------- C04
static const uint64_t Pow10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000};
HARNESS h_bcd()
{
    unsigned w = (unsigned)Pick("w", 1, 4);
    auto b = SymBytes("b", w);
    uint32_t packed = PackBytes(b.data(), (WordSizes)w);
    uint32_t ref = 0;
    for (unsigned i = 0; i < w; ++i)
        ref = (ref << 8) | b[i];
    symx_assert(packed == ref, "bytes are packed most significant first, zero padded");
    uint64_t v = PackedBCD2Int(packed, (WordSizes)w);
    uint64_t dec = 0;
    bool valid = true;
    for (unsigned i = 0; i < w; ++i) {
        dec += Pow10[2 * (w - 1 - i) + 1] * (b[i] >> 4) + Pow10[2 * (w - 1 - i)] * (b[i] & 15);
        valid = valid & ((b[i] >> 4) < 10) & ((b[i] & 15) < 10);
    }
    symx_assert(v == dec, "integer is the decimal number spelled by the nibbles");
    if (valid) {
        symx_reach("valid");
        auto back = IntToBCDArray(v, (WordSizes)w);
        symx_assert(back.size() == w, "array size");
        for (unsigned i = 0; i < w; ++i)
            symx_assert(back[i] == b[i], "BCD -> integer -> BCD array is the identity");
        symx_assert(IntToPackedBCD((uint32_t)v, (WordSizes)w) == packed, "BCD -> integer -> packed BCD is the identity");
    }
    symx_observe("v", v);
}
HARNESS h_bcd_any_upper()
{
    // bytes above the declared width are ignored
    unsigned w = (unsigned)Pick("w", 1, 4);
    uint64_t p = Sym64("p");
    uint64_t v = PackedBCD2Int(p, (WordSizes)w);
    uint64_t dec = 0;
    for (unsigned i = w; i-- > 0;)
        dec += Pow10[2 * i + 1] * ((p >> (8 * i + 4)) & 15) + Pow10[2 * i] * ((p >> (8 * i)) & 15);
    symx_assert(v == dec, "only the declared bytes take part");
    symx_reach("done");
}
HARNESS h_int2bcd()
{
    unsigned w = (unsigned)Pick("w", 1, symx_param("w", 2));
    uint64_t mod = 1;
    for (unsigned i = 0; i < w; ++i)
        mod *= 100;
    uint64_t v = symx_var("v", 30);
    symx_assume(v < mod);
    auto a = IntToBCDArray(v, (WordSizes)w);
    uint64_t back = 0;
    for (unsigned i = 0; i < w; ++i) {
        symx_assert((a[i] >> 4) < 10 && (a[i] & 15) < 10, "only decimal digits");
        back = back * 100 + (a[i] >> 4) * 10 + (a[i] & 15);
    }
    symx_assert(back == v, "integer -> BCD spells the integer");
    symx_assert(PackedBCD2Int(IntToPackedBCD((uint32_t)v, (WordSizes)w), (WordSizes)w) == v, "integer -> BCD -> integer is the identity");
    symx_reach("done");
}

// ---------------------------------------------------------------- C05
static bool Forbidden(char c)
{
    return c == '\'' || c == '"' || c == '/' || c == '+' || c == '$' || c == '#';
}
HARNESS h_mqtt_name()
{
    size_t n = Pick("n", 0, symx_param("hi", 3));
    string s = SymStr("s", n);
    bool bad = false;
    string ref;
    for (char c: s) {
        if (Forbidden(c)) {
            bad = true;
            ref += c == '+' ? "_plus_" : (c == '$' || c == '#') ? "_" : "|";
        } else
            ref += c;
    }
    bool valid = util::IsValidMqttTopicString(s);
    symx_assert(valid == !bad, "a name is valid exactly when it has no forbidden character");
    string r = util::ConvertToValidMqttTopicString(s);
    symx_assert(util::IsValidMqttTopicString(r), "converted name is valid");
    symx_assert(r == ref, "forbidden characters are replaced, all other characters keep value and order");
    symx_assert(util::ConvertToValidMqttTopicString(r) == r, "conversion is idempotent");
    if (valid) {
        symx_reach("valid");
        symx_assert(r == s, "valid name is unchanged");
    } else
        symx_reach("invalid");
    symx_observe("len", r.size());
}

// ---------------------------------------------------------------- C06
// A version as the documentation writes it: numbers, optionally followed by -rcN or +wbN.
struct TVer
{
    string Text;
    vector<uint64_t> Num;
    int Kind = 0; // -1 release candidate, 0 release, 1 wb build
    uint64_t Ext = 0;
};
static uint64_t Digits(const char* n, size_t len, string& text)
{
    uint64_t v = 0;
    for (size_t i = 0; i < len; ++i) {
        unsigned d = (unsigned)symx_var(n, 4);
        symx_assume(d < 10);
        text += (char)('0' + d);
        v = v * 10 + d;
    }
    return v;
}
static TVer MakeVer(const char* n, size_t comps, size_t digits)
{
    TVer v;
    string nm(n);
    size_t k = Pick((nm + "c").c_str(), 1, comps);
    for (size_t i = 0; i < k; ++i) {
        if (i)
            v.Text += '.';
        v.Num.push_back(Digits((nm + "d").c_str(), Pick((nm + "l").c_str(), 1, digits), v.Text));
    }
    uint64_t kind = Pick((nm + "k").c_str(), 0, 2);
    if (kind) {
        v.Kind = kind == 1 ? -1 : 1;
        v.Text += kind == 1 ? "-rc" : "+wb";
        v.Ext = Digits((nm + "e").c_str(), Pick((nm + "el").c_str(), 1, digits), v.Text);
        if (v.Kind == -1)
            symx_assume(v.Ext < (uint64_t)symx_param("maxrc", 1000000));
    }
    return v;
}
static int RefCmp(const TVer& a, const TVer& b)
{
    for (size_t i = 0; i < max(a.Num.size(), b.Num.size()); ++i) {
        uint64_t x = i < a.Num.size() ? a.Num[i] : 0, y = i < b.Num.size() ? b.Num[i] : 0;
        if (x != y)
            return x < y ? -1 : 1;
    }
    if (a.Kind != b.Kind)
        return a.Kind < b.Kind ? -1 : 1;
    if (a.Kind && a.Ext != b.Ext)
        return a.Ext < b.Ext ? -1 : 1;
    return 0;
}
// versions with the same number of components, as devices report them
HARNESS h_version_order()
{
    size_t comps = (size_t)symx_param("comps", 2), digits = (size_t)symx_param("digits", 1);
    auto a = MakeVer("a", comps, digits), b = MakeVer("b", comps, digits);
    symx_assume(a.Num.size() == b.Num.size());
    int r = util::CompareVersionStrings(a.Text, b.Text);
    symx_assert(r == RefCmp(a, b), "component-wise numeric order, release candidates before and wb builds after the release");
    symx_assert(util::CompareVersionStrings(b.Text, a.Text) == -r, "antisymmetry");
    if (r < 0)
        symx_reach("less");
    else if (r == 0)
        symx_reach("equal");
    else
        symx_reach("greater");
    symx_assert(util::CompareVersionStrings("", a.Text) == -1 && util::CompareVersionStrings(a.Text, "") == 1, "empty is oldest");
    symx_observe("r", (uint64_t)r);
}
// plain versions with different numbers of components: an absent component counts as zero
HARNESS h_version_missing()
{
    string ta, tb;
    vector<uint64_t> a, b;
    size_t na = Pick("na", 1, 3), nb = Pick("nb", 1, 3);
    for (size_t i = 0; i < na; ++i) {
        if (i)
            ta += '.';
        a.push_back(Digits("a", 1, ta));
    }
    for (size_t i = 0; i < nb; ++i) {
        if (i)
            tb += '.';
        b.push_back(Digits("b", 1, tb));
    }
    int ref = 0;
    for (size_t i = 0; i < max(na, nb) && !ref; ++i) {
        uint64_t x = i < na ? a[i] : 0, y = i < nb ? b[i] : 0;
        ref = x < y ? -1 : x > y ? 1 : 0;
    }
    symx_assert(util::CompareVersionStrings(ta, tb) == ref, "an absent component counts as zero");
    symx_reach("done");
}
// arbitrary bytes: never fails, antisymmetric
HARNESS h_version_any()
{
    string a = SymStr("a", Pick("na", 0, symx_param("na", 2))), b = SymStr("b", Pick("nb", 0, symx_param("nb", 2)));
    int r = util::CompareVersionStrings(a, b);
    symx_assert(r >= -1 && r <= 1, "result is -1, 0 or 1");
    symx_assert(util::CompareVersionStrings(b, a) == -r, "antisymmetry on arbitrary strings");
    symx_assert(util::CompareVersionStrings(a, a) == 0, "reflexivity on arbitrary strings");
    symx_observe("r", (uint64_t)r);
    symx_reach("done");
}
// transitivity on three arbitrary strings from a small alphabet
HARNESS h_version_trans()
{
    string s[3];
    size_t n = (size_t)symx_param("n", 2);
    static const char abc[] = "019.";
    for (auto& x: s) {
        size_t l = Pick("len", 1, n);
        for (size_t i = 0; i < l; ++i)
            x += abc[Pick("ch", 0, 3)];
        uint64_t k = Pick("k", 0, 2);
        if (k)
            x += k == 1 ? "-rc1" : "+wb1";
    }
    int ab = util::CompareVersionStrings(s[0], s[1]), bc = util::CompareVersionStrings(s[1], s[2]),
        ac = util::CompareVersionStrings(s[0], s[2]);
    if (ab <= 0 && bc <= 0) {
        symx_assert(ac <= 0, "transitivity");
        if (ab < 0 || bc < 0)
            symx_assert(ac < 0, "strict transitivity");
        symx_reach("chain");
    }
}
// very long numbers must not make the comparison fail
HARNESS h_version_long()
{
    string t;
    Digits("d", Pick("n", 9, symx_param("hi", 12)), t);
    uint64_t k = Pick("k", 0, 3);
    string a = k == 0 ? t : k == 1 ? "1." + t : k == 2 ? "1-rc" + t : "1+wb" + t;
    int r = util::CompareVersionStrings(a, "1.2.3");
    symx_assert(util::CompareVersionStrings("1.2.3", a) == -r, "antisymmetry with long numbers");
    if (k == 2)
        symx_assert(util::CompareVersionStrings(a, "1") == -1, "release candidate with a long number is before the release");
    if (k == 3)
        symx_assert(util::CompareVersionStrings(a, "1") == 1, "wb build with a long number is after the release");
    symx_reach("done");
}

// ---------------------------------------------------------------- C53
HARNESS h_running_average()
{
    typedef chrono::microseconds us;
    uint64_t lim = 1ull << symx_param("bits", 36);
    uint64_t a0 = Sym64("a0"), v = Sym64("v");
    symx_assume(a0 < lim && v < lim);
    TRunningAverage<us, 10> avg(us((int64_t)a0));
    symx_assert(avg.GetValue().count() == (int64_t)a0, "initial value");
    avg.AddValue(us((int64_t)v));
    uint64_t r = (uint64_t)avg.GetValue().count();
    symx_assert(r == (9 * a0 + v) / 10, "new value has weight 1/10");
    symx_observe("r", r);
    symx_reach("done");
}
HARNESS h_running_average_bounds()
{
    typedef chrono::microseconds us;
    uint32_t a0 = Sym32("a0"), v = Sym32("v");
    TRunningAverage<us, 10> avg(us((int64_t)a0));
    avg.AddValue(us((int64_t)v));
    uint64_t r = (uint64_t)avg.GetValue().count();
    symx_assert(r <= (a0 > v ? a0 : v), "average does not exceed the maximum");
    symx_assert(r >= (a0 > v ? v : a0), "average is not below the minimum");
    symx_reach("done");
}
