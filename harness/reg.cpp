// C09 raw -> text, C10 text -> raw, C43 register state
#include "register.h"
#include "bcd_utils.h"
#include "log.h"
#include "symx.h"
#include <cmath>
#include <cstring>
static double FmtValue;
static const char* FmtSpec;
static int FmtCount;
// Scaled values are handed to "%.7g"/"%.15g"; the harness checks the number that is formatted (printf itself is libc).
extern "C" bool symx_format_hook(const char* fmt, double v, std::string* out)
{
    FmtValue = v;
    FmtSpec = fmt;
    ++FmtCount;
    *out = "<number>";
    return true;
}
static const RegisterFormat Formats[] = {U8, S8, U16, S16, S24, U24, U32, S32, S64, U64, BCD8, BCD16, BCD24, BCD32, Float, Double, Char8, String, String8};
static unsigned Width(RegisterFormat f)
{
    switch (f) {
        case U8: case S8: case BCD8: case Char8: return 8;
        case U16: case S16: case BCD16: return 16;
        case U24: case S24: case BCD24: return 24;
        case U32: case S32: case BCD32: case Float: return 32;
        default: return 64;
    }
}
static bool Signed(RegisterFormat f)
{
    return f == S8 || f == S16 || f == S24 || f == S32 || f == S64;
}
static bool Bcd(RegisterFormat f)
{
    return f == BCD8 || f == BCD16 || f == BCD24 || f == BCD32;
}
static int64_t SignExtend(uint64_t v, unsigned w)
{
    return (int64_t)(v << (64 - w)) >> (64 - w);
}
static uint64_t Mask(unsigned w)
{
    return w == 64 ? ~0ull : (1ull << w) - 1;
}
static PRegisterConfig MakeReg(RegisterFormat f, double scale, double offset, double roundTo)
{
    return TRegisterConfig::Create(0, 0, f, scale, offset, roundTo);
}
static const double Scales[] = {1, 0.1, 0.01, 10, -2.5, 0.001};
static const double Offsets[] = {0, 32, -0.5};
static const double Rounds[] = {0, 1, 0.5, 0.01};
static uint64_t BcdValue(uint64_t raw, unsigned w)
{
    uint64_t r = 0;
    for (int i = (int)w - 4; i >= 0; i -= 4)
        r = r * 10 + ((raw >> i) & 15);
    return r;
}
static bool BcdValid(uint64_t raw, unsigned w)
{
    bool ok = true;
    for (unsigned i = 0; i < w; i += 4)
        ok &= ((raw >> i) & 15) <= 9;
    return ok;
}
// Integer formats without scaling: the text is the decimal notation of the encoded number. With "window" the raw
// value is symbolic in its low 8 bits only (around 20 base values) and the text is parsed back digit by digit; without
// it every bit is symbolic and the text is compared with that of the reference number.
HARNESS h_raw_int()
{
    RegisterFormat f = Formats[Pick("format", symx_param("flo", 0), symx_param("fhi", 13))];
    unsigned w = Width(f);
    uint64_t raw;
    bool window = symx_param("window", 0) != 0;
    if (window) {
        static const uint64_t Base[] = {0, 0x100, 0x2700, 0x7f00, 0x8000, 0xff00, 0x10000, 0x7fff00, 0x800000, 0xffff00, 0x1000000, 0x7fffff00, 0x80000000, 0xffffff00,
                                        0x100000000, 0x7fffffffffffff00, 0x8000000000000000, 0xffffffff00000000, 0xffffffffffffff00, 0x1234567812345678};
        uint64_t b = Base[Pick("base", 0, 19)];
        if (Bcd(f))
            b = 0x99887700 & Mask(w);
        if (b & ~Mask(w))
            return;
        raw = (b & ~0xffull) | Sym8("raw");
    } else
        raw = symx_var("raw", w);
    if (Bcd(f))
        symx_assume(BcdValid(raw, w));
    auto reg = MakeReg(f, 1, 0, 0);
    std::string t = ConvertFromRawValue(*reg, TRegisterValue(raw));
    symx_assert(FmtCount == 0, "unscaled integers are not formatted as floating point numbers");
    bool neg = Signed(f) && (raw >> (w - 1) & 1);
    if (!window) {
        std::string want;
        switch (f) {
            case U8: want = std::to_string((uint8_t)raw); break;
            case S8: want = std::to_string((int8_t)raw); break;
            case S16: want = std::to_string((int16_t)raw); break;
            case S24: want = std::to_string((int32_t)SignExtend(raw, 24)); break;
            case S32: want = std::to_string((int32_t)raw); break;
            case S64: want = std::to_string((int64_t)raw); break;
            case BCD8: case BCD16: case BCD24: case BCD32: want = std::to_string((uint32_t)BcdValue(raw, w)); break;
            default: want = std::to_string((uint64_t)raw);
        }
        symx_assert(t == want, "the text is the decimal notation of the encoded number");
        symx_reach(neg ? "negative" : "positive");
        return;
    }
    uint64_t mag = Bcd(f) ? BcdValue(raw, w) : Signed(f) ? (neg ? 0 - (uint64_t)SignExtend(raw, w) : raw) : raw;
    size_t i = 0;
    symx_assert(!t.empty(), "the text of a number is not empty");
    symx_assert((t[0] == '-') == neg, "the text has a sign exactly if the number is negative");
    if (neg)
        i = 1;
    symx_assert(t.size() > i && t.size() - i <= 20, "the text has 1..20 digits");
    symx_assert(t.size() == i + 1 || t[i] != '0', "the text has no leading zero");
    uint64_t v = 0;
    for (; i < t.size(); ++i) {
        symx_assert(t[i] >= '0' && t[i] <= '9', "the text consists of digits");
        v = v * 10 + (uint64_t)(t[i] - '0');
    }
    symx_assert(v == mag, "the text spells the number encoded by the raw value");
    symx_reach(neg ? "negative" : "positive");
    symx_observe("len", t.size());
}
// scaled formats and floating point formats: the number handed to the formatter is round(scale * value + offset)
HARNESS h_raw_scaled()
{
    RegisterFormat f = Formats[Pick("format", symx_param("flo", 0), symx_param("fhi", 15))];
    unsigned w = Width(f);
    uint64_t raw;
    if (symx_param("concrete", 0)) {
        static const uint64_t R[] = {0, 1, 7, 42, 0x80, 0x99, 0x1234, 0x8000, 0x9999, 0x800000, 0x42280000, 0x80000000, 0xc1200000, 0x4045000000000000, 0xbff8000000000000};
        raw = R[Pick("raw", 0, 14)] & Mask(w);
        if (Bcd(f) && !BcdValid(raw, w))
            return;
    } else {
        raw = symx_var("raw", w);
        if (Bcd(f))
            symx_assume(BcdValid(raw, w));
    }
    double scale = Scales[Pick("scale", 0, 5)], offset = Offsets[Pick("offset", 0, 2)], roundTo = Rounds[Pick("round", 0, symx_param("rounds", 3))];
    if (f != Float && f != Double && scale == 1 && offset == 0 && roundTo == 0)
        return;
    auto reg = MakeReg(f, scale, offset, roundTo);
    std::string t = ConvertFromRawValue(*reg, TRegisterValue(raw));
    double x;
    if (f == Float) {
        float y;
        uint32_t r32 = (uint32_t)raw;
        memcpy(&y, &r32, 4);
        x = y;
    } else if (f == Double) {
        memcpy(&x, &raw, 8);
    } else {
        // same conversions as a plain implementation would use, so that equal terms are recognised as such
        switch (f) {
            case U8: x = (double)(uint8_t)raw; break;
            case S8: x = (double)(int8_t)raw; break;
            case S16: x = (double)(int16_t)raw; break;
            case S24: {
                uint32_t v = raw & 0xffffff;
                if (v & 0x800000)
                    v |= 0xff000000;
                x = (double)(int32_t)v;
            } break;
            case S32: x = (double)(int32_t)raw; break;
            case S64: x = (double)(int64_t)raw; break;
            case BCD8: case BCD16: case BCD24: case BCD32: x = (double)PackedBCD2Int(raw, (WordSizes)(w / 8)); break; // C04 decides PackedBCD2Int
            default: x = (double)raw;
        }
    }
    double want = scale * x + offset;
    if (roundTo > 0)
        want = std::round(want / roundTo) * roundTo;
    symx_assert(FmtCount == 1 && t == "<number>", "a scaled value is formatted once");
    symx_assert(FmtSpec[2] == (f == Float ? '7' : '1'), "floats are printed with 7, other numbers with 15 significant digits");
    uint64_t a, b;
    memcpy(&a, &want, 8);
    memcpy(&b, &FmtValue, 8);
    symx_assert(a == b || (want != want && FmtValue != FmtValue), "the published number is value * scale + offset, rounded to round_to");
    symx_reach("scaled");
}
HARNESS h_raw_text()
{
    int k = (int)Pick("kind", 0, 2);
    if (k == 0) {
        uint64_t raw = Sym64("raw");
        std::string t = ConvertFromRawValue(*MakeReg(Char8, 1, 0, 0), TRegisterValue(raw));
        symx_assert(t.size() == 1 && (uint8_t)t[0] == (uint8_t)raw, "a character register is published as that character");
    } else {
        std::string s = SymStr("s", Pick("n", 0, 4));
        std::string t = ConvertFromRawValue(*MakeReg(k == 1 ? String : String8, 1, 0, 0), TRegisterValue(s));
        symx_assert(t == s, "a string register is published as the string");
        std::string u = ConvertToRawValue(*MakeReg(k == 1 ? String : String8, 1, 0, 0), s).Get<std::string>();
        symx_assert(u == s, "a string is written unchanged");
        bool thrown = false;
        try {
            ConvertFromRawValue(*MakeReg(U16, 1, 0, 0), TRegisterValue(s));
        } catch (const TRegisterValueException&) {
            thrown = true;
        }
        symx_assert(thrown, "a string is never published as a number");
    }
    for (auto f: {U8, String, Float}) {
        bool thrown = false;
        try {
            ConvertFromRawValue(*MakeReg(f, 1, 0, 0), TRegisterValue());
        } catch (const TRegisterValueException&) {
            thrown = true;
        }
        symx_assert(thrown, "an undefined value is never published");
    }
    symx_reach("done");
}
// ---------------------------------------------------------------- C10
static bool IsSpace(char c)
{
    return c == ' ' || (c >= 9 && c <= 13);
}
static int Digit(char c, int base)
{
    int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
    return d < base ? d : -1;
}
// decimal or 0x integer over the whole text, optional leading blanks and sign
static bool RefInt(const std::string& s, bool& neg, uint64_t& mag, bool& over)
{
    size_t i = 0;
    neg = over = false;
    mag = 0;
    bool hexPrefix = s.size() >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X');
    int base = hexPrefix ? 16 : 10;
    while (i < s.size() && IsSpace(s[i]))
        ++i;
    if (i < s.size() && (s[i] == '-' || s[i] == '+'))
        neg = s[i++] == '-';
    if (hexPrefix)
        i += 2;
    if (i >= s.size())
        return false;
    for (; i < s.size(); ++i) {
        int d = Digit(s[i], base);
        if (d < 0)
            return false;
        if (mag > (~0ull - (uint64_t)d) / base)
            over = true;
        mag = mag * base + d;
    }
    return true;
}
// plain decimal fraction with optional exponent over the whole text; the value is m * 10^e
static bool RefReal(const std::string& s, bool& neg, uint64_t& m, int& e)
{
    size_t i = 0;
    neg = false;
    m = 0;
    e = 0;
    bool any = false;
    while (i < s.size() && IsSpace(s[i]))
        ++i;
    if (i < s.size() && (s[i] == '-' || s[i] == '+'))
        neg = s[i++] == '-';
    for (; i < s.size() && Digit(s[i], 10) >= 0; ++i) {
        any = true;
        m = m * 10 + Digit(s[i], 10);
    }
    if (i < s.size() && s[i] == '.') {
        for (++i; i < s.size() && Digit(s[i], 10) >= 0; ++i) {
            any = true;
            m = m * 10 + Digit(s[i], 10);
            --e;
        }
    }
    if (!any)
        return false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        ++i;
        bool en = false;
        if (i < s.size() && (s[i] == '-' || s[i] == '+'))
            en = s[i++] == '-';
        int x = 0;
        bool ed = false;
        for (; i < s.size() && Digit(s[i], 10) >= 0; ++i) {
            ed = true;
            x = x * 10 + Digit(s[i], 10);
        }
        if (!ed)
            return false;
        e += en ? -x : x;
    }
    return i == s.size();
}
// round half away from zero of m * 10^e; false if it does not fit 63 bits
static bool RefRound(uint64_t m, int e, uint64_t& r)
{
    r = m;
    for (; e > 0; --e) {
        if (r > 922337203685477580ull)
            return false;
        r *= 10;
    }
    if (e < -18) {
        r = 0;
        return true;
    }
    uint64_t p = 1;
    for (int i = 0; i < -e; ++i)
        p *= 10;
    r = r / p + (r % p * 2 >= p ? 1 : 0);
    return true;
}
static bool Convert(const TRegisterConfig& reg, const std::string& s, TRegisterValue& v)
{
    try {
        v = ConvertToRawValue(reg, s);
        return true;
    } catch (const std::invalid_argument&) {
    } catch (const std::out_of_range&) {
    }
    return false;
}
static void CheckInt(RegisterFormat f, const std::string& s)
{
    auto reg = MakeReg(f, 1, 0, 0);
    TRegisterValue v;
    bool ok = Convert(*reg, s, v);
    bool neg, over;
    uint64_t mag;
    unsigned w = Width(f);
    if (RefInt(s, neg, mag, over)) {
        bool fits = !over && (!Signed(f) || mag <= (1ull << 63) - (neg ? 0 : 1));
        symx_assert(ok == fits, "an integer text is accepted exactly if it fits 64 bits");
        if (!ok) {
            symx_reach("overflow");
            return;
        }
        uint64_t n = neg ? 0 - mag : mag;
        uint64_t raw = v.Get<uint64_t>();
        if (Bcd(f)) {
            if (!neg && n < (w == 8 ? 100u : w == 16 ? 10000u : w == 24 ? 1000000u : 100000000u))
                symx_assert(raw <= Mask(w) && BcdValid(raw, w) && BcdValue(raw, w) == n, "a number is written as its BCD digits");
        } else
            symx_assert(raw == (n & Mask(w)), "the raw value is the number written, in two's complement of the register width");
        symx_reach(s[0] == '0' && s.size() > 1 ? "hex" : "integer");
        return;
    }
    int e;
    if (RefReal(s, neg, mag, e)) {
        uint64_t r;
        bool fits = RefRound(mag, e, r) && r < (1ull << 63);
        if (!Signed(f) && neg && r)
            fits = false;
        symx_assert(ok == fits, "a decimal fraction is accepted exactly if it can be rounded to an integer of the register's kind");
        if (ok && !Bcd(f))
            symx_assert(v.Get<uint64_t>() == ((neg ? 0 - r : r) & Mask(w)), "a decimal fraction is rounded to the nearest integer");
        symx_reach("fraction");
        return;
    }
    // what remains is not a number (hexadecimal floats of the C library are outside the reference)
    for (char c: s)
        if (c == 'x' || c == 'X')
            return;
    symx_assert(!ok, "text that is not a number is rejected");
    symx_reach("rejected");
}
HARNESS h_text_bytes()
{
    RegisterFormat f = Formats[Pick("format", symx_param("flo", 0), symx_param("fhi", 13))];
    CheckInt(f, SymStr("s", Pick("n", 0, symx_param("hi", 2))));
}
// texts over the alphabet of numbers
HARNESS h_text_chars()
{
    static const char A[] = "0179.-+exX aFnif";
    static const RegisterFormat F[] = {U8, S16, U64, S64, BCD16};
    RegisterFormat f = F[Pick("format", 0, 4)];
    size_t n = Pick("n", 1, symx_param("hi", 3));
    std::string s(n, ' ');
    for (auto& c: s)
        c = A[Pick("c", 0, sizeof(A) - 2)];
    CheckInt(f, s);
}
// all digit strings
HARNESS h_text_digits()
{
    RegisterFormat f = Formats[Pick("format", symx_param("flo", 0), symx_param("fhi", 13))];
    size_t n = Pick("n", 1, symx_param("hi", 5));
    std::string s(n, '0');
    for (auto& c: s) {
        uint8_t d = Sym8("d");
        symx_assume(d <= 9);
        c = (char)('0' + d);
    }
    if (SymBool("neg"))
        s = "-" + s;
    CheckInt(f, s);
}
// digits around the 64-bit limits
HARNESS h_text_edge()
{
    static const char* P[] = {"18446744073709551", "9223372036854775", "0xFFFFFFFFFFFFF", "0x8000000000000", "4294967", "-9223372036854775"};
    RegisterFormat f = Formats[Pick("format", 0, 13)];
    int k = (int)Pick("prefix", 0, 5);
    std::string s = P[k];
    for (int i = 0; i < 3; ++i) {
        uint8_t d = Sym8("d");
        symx_assume(d <= 9);
        s += (char)('0' + d);
    }
    CheckInt(f, s);
}
// words the C library takes for numbers and numbers beyond every integer
HARNESS h_text_not_int()
{
    static const char* W[] = {"nan", "inf", "-inf", "infinity", "nan(1)", "1e19", "-1e19", "1e30", "1e308", "9223372036854775808.0", "-1e300", "1e400"};
    RegisterFormat f = Formats[Pick("format", 0, 13)];
    int k = (int)Pick("word", 0, 11);
    double scale = Scales[Pick("scale", 0, 1)];
    auto reg = MakeReg(f, scale, 0, 0);
    TRegisterValue v;
    symx_assert(!Convert(*reg, W[k], v), "text that spells no integer of 64 bits is rejected by integer registers");
    symx_reach("rejected");
}
// scaling: text "m / 10^k" for a register with scale 10^-k gives the raw value m
HARNESS h_text_scaled()
{
    static const RegisterFormat F[] = {S16, U16, S32, U32, S64, U64};
    RegisterFormat f = F[Pick("format", 0, 5)];
    int k = (int)Pick("decimals", 0, 3);
    static const double S[] = {1, 0.1, 0.01, 0.001};
    size_t n = Pick("n", 0, symx_param("hi", 2));
    std::string s;
    uint64_t m = 0;
    for (size_t i = 0; i < n + (size_t)k; ++i) {
        uint8_t d = (uint8_t)symx_var("d", 4);
        symx_assume(d <= 9);
        if (i == n)
            s += '.';
        s += (char)('0' + d);
        m = m * 10 + d;
    }
    if (s.empty() || s == ".")
        return;
    // the offset is a multiple of the scale: raw = m - offset / scale
    bool off = SymBool("offset");
    static const double O[] = {-2000, -200, -20, -2};
    bool neg = (Signed(f) || off) && SymBool("neg");
    if (neg)
        s = "-" + s;
    int64_t want = (neg ? -(int64_t)m : (int64_t)m) + (off ? 2000 : 0);
    TRegisterValue v;
    bool ok = Convert(*MakeReg(f, S[k], off ? O[k] : 0, 0), s, v);
    symx_assert(ok == (Signed(f) || want >= 0), "a number is accepted exactly if the register can hold its sign");
    if (ok)
        symx_assert(v.Get<uint64_t>() == ((uint64_t)want & Mask(Width(f))), "the scaled number is turned into the raw value it stands for");
    symx_reach("scaled");
}
// publishing a raw value and writing the published text back gives the same raw value
HARNESS h_text_roundtrip()
{
    RegisterFormat f = Formats[Pick("format", symx_param("flo", 0), symx_param("fhi", 13))];
    unsigned w = Width(f);
    uint64_t raw;
    if (w > 8) {
        static const uint64_t Base[] = {0, 0x2700, 0x7f00, 0x8000, 0xff00, 0x800000, 0xffff00, 0x7fffff00, 0x80000000, 0xffffff00, 0x7fffffffffffff00, 0x8000000000000000, 0xffffffffffffff00};
        uint64_t b = Base[Pick("base", 0, 12)];
        if (Bcd(f))
            b = 0x99887700 & Mask(w);
        if (b & ~Mask(w))
            return;
        raw = b | Sym8("raw");
    } else
        raw = symx_var("raw", w);
    if (Bcd(f))
        symx_assume(BcdValid(raw, w));
    auto reg = MakeReg(f, 1, 0, 0);
    std::string t = ConvertFromRawValue(*reg, TRegisterValue(raw));
    TRegisterValue v;
    bool ok = Convert(*reg, t, v);
    symx_assert(ok && v.Get<uint64_t>() == raw, "writing the published text back gives the raw value");
    symx_reach("done");
}
HARNESS h_text_float()
{
    // digits.digits for float registers: the IEEE bits of the nearest number
    bool dbl = SymBool("double");
    std::string s;
    uint64_t m = 0;
    int n = (int)Pick("n", 1, 3), k = (int)Pick("k", 0, 2);
    for (int i = 0; i < n + k; ++i) {
        uint8_t d = (uint8_t)symx_var("d", 4);
        symx_assume(d <= 9);
        if (i == n)
            s += '.';
        s += (char)('0' + d);
        m = m * 10 + d;
    }
    static const double P[] = {1, 10, 100};
    double scale = Scales[Pick("scale", 0, 2)], offset = Offsets[Pick("offset", 0, 2)];
    static const double R[] = {0, 0.5, 2, 7};
    double roundTo = R[Pick("round to", symx_param("rlo", 0), symx_param("rhi", 0))], x = (double)m / P[k];
    if (roundTo > 0)
        x = std::round(x / roundTo) * roundTo;
    double want = (x - offset) / scale;
    TRegisterValue v;
    bool ok = Convert(*MakeReg(dbl ? Double : Float, scale, offset, roundTo), s, v);
    symx_assert(ok, "a decimal number is accepted by a float register");
    uint64_t bits = 0;
    if (dbl)
        memcpy(&bits, &want, 8);
    else {
        float y = (float)want;
        memcpy(&bits, &y, 4);
    }
    symx_assert(v.Get<uint64_t>() == bits, "a float register gets the IEEE bits of (number, rounded to round_to, - offset) / scale");
    symx_reach("done");
}
HARNESS h_text_float_bad()
{
    std::string s = SymStr("s", Pick("n", 0, 2));
    TRegisterValue v;
    RegisterFormat f = SymBool("double") ? Double : Float;
    bool ok = Convert(*MakeReg(f, 1, 0, 0), s, v);
    bool neg;
    uint64_t m;
    int e;
    bool ref = RefReal(s, neg, m, e);
    symx_assert(ok == ref, "a float register accepts exactly the texts that are numbers");
    symx_reach(ok ? "accepted" : "rejected");
}
HARNESS h_text_char8()
{
    std::string s = SymStr("s", Pick("n", 0, 3));
    TRegisterValue v = ConvertToRawValue(*MakeReg(Char8, 1, 0, 0), s);
    symx_assert(v.Get<uint64_t>() == (s.empty() ? 0 : (uint8_t)s[0]), "a character register gets the first character");
    symx_reach("done");
}
// ---------------------------------------------------------------- C43
static TRegisterValue SymValue(const char* n)
{
    switch (Pick(n, 0, 2)) {
        case 0:
            return TRegisterValue();
        case 1:
            return TRegisterValue(Sym64("int"));
        default:
            return TRegisterValue(SymStr("str", Pick("len", 0, 2)));
    }
}
static bool RefEq(const TRegisterValue& a, const TRegisterValue& b)
{
    if (a.GetType() != b.GetType())
        return false;
    if (a.GetType() == TRegisterValue::ValueType::Integer)
        return a.Get<uint64_t>() == b.Get<uint64_t>();
    if (a.GetType() == TRegisterValue::ValueType::String)
        return a.Get<std::string>() == b.Get<std::string>();
    return true;
}
HARNESS h_value()
{
    TRegisterValue a = SymValue("a"), b = SymValue("b");
    symx_assert((a == b) == RefEq(a, b), "values are equal exactly if they hold the same data of the same kind");
    symx_assert((a != b) == !(a == b), "!= is the negation of ==");
    symx_assert((b == a) == (a == b), "comparison is symmetric");
    uint64_t x = Sym64("x");
    symx_assert((a == x) == RefEq(a, TRegisterValue(x)), "comparison with a number");
    TRegisterValue c(a), d = SymValue("d");
    symx_assert(RefEq(c, a), "a copy equals the original");
    TRegisterValue d0(d);
    c = d;
    symx_assert(RefEq(c, d0) && RefEq(d, d0), "assignment copies the value and leaves the source as it is");
    c = a;
    TRegisterValue m(std::move(c));
    symx_assert(RefEq(m, a), "moving keeps the value");
    d = std::move(m);
    symx_assert(RefEq(d, a), "move assignment keeps the value");
    auto& self = d;
    d = self;
    symx_assert(RefEq(d, a), "self assignment keeps the value");
    if (a.GetType() == TRegisterValue::ValueType::Integer) {
        uint64_t v = a.Get<uint64_t>();
        symx_assert(a.Get<int64_t>() == (int64_t)v && a.Get<uint32_t>() == (uint32_t)v && a.Get<int32_t>() == (int32_t)v &&
                        a.Get<uint16_t>() == (uint16_t)v && a.Get<int16_t>() == (int16_t)v && a.Get<uint8_t>() == (uint8_t)v &&
                        a.Get<int8_t>() == (int8_t)v,
                    "narrow accessors return the low bits");
    }
    int thrown = 0;
    try {
        a.Get<uint64_t>();
    } catch (const TRegisterValueException&) {
        thrown |= 1;
    }
    try {
        a.Get<std::string>();
    } catch (const TRegisterValueException&) {
        thrown |= 2;
    }
    symx_assert(thrown == (a.GetType() == TRegisterValue::ValueType::Integer  ? 2
                           : a.GetType() == TRegisterValue::ValueType::String ? 1
                                                                              : 3),
                "only a value of the right kind can be taken out");
    a.Set(x);
    symx_assert(RefEq(a, TRegisterValue(x)), "Set replaces the value");
    symx_reach("done");
}
HARNESS h_register()
{
    auto cfg = MakeReg(U16, 1, 0, 0);
    static const TRegisterConfig::TSporadicMode modes[] = {TRegisterConfig::TSporadicMode::DISABLED, TRegisterConfig::TSporadicMode::ONLY_EVENTS, TRegisterConfig::TSporadicMode::EVENTS_AND_POLLING};
    cfg->SporadicMode = modes[Pick("sporadic", 0, 2)];
    bool hasErr = SymBool("hasErrorValue"), hasUns = SymBool("hasUnsupportedValue");
    uint64_t errV = Sym8("errorValue"), unsV = Sym8("unsupportedValue");
    if (hasErr)
        cfg->ErrorValue = TRegisterValue(errV);
    if (hasUns)
        cfg->UnsupportedValue = TRegisterValue(unsV);
    TRegister r(nullptr, cfg);
    bool err[3] = {false, false, false}, supported = true, excluded = false, defined = false;
    TRegisterAvailability av = TRegisterAvailability::UNKNOWN;
    uint64_t val = 0;
    size_t steps = symx_param("steps", 3);
    for (size_t i = 0; i < steps; ++i) {
        switch (Pick("op", 0, 6)) {
            case 0: {
                uint64_t v = Sym8("value");
                bool clear = SymBool("clear");
                r.SetValue(TRegisterValue(v), clear);
                val = v;
                defined = true;
                if (hasUns && v == unsV) {
                    err[0] = true;
                    av = TRegisterAvailability::UNAVAILABLE;
                    excluded = true;
                    symx_reach("unsupported");
                } else {
                    av = TRegisterAvailability::AVAILABLE;
                    if (hasErr && v == errV) {
                        err[0] = true;
                        symx_reach("error value");
                    } else if (supported && clear)
                        err[0] = false;
                }
            } break;
            case 1: {
                int e = (int)Pick("err", 0, 2);
                r.SetError((TRegister::TError)e);
                err[e] = true;
            } break;
            case 2: {
                int e = (int)Pick("err", 0, 2);
                r.ClearError((TRegister::TError)e);
                err[e] = false;
            } break;
            case 3: {
                int a = (int)Pick("avail", 0, 2);
                r.SetAvailable((TRegisterAvailability)a);
                av = (TRegisterAvailability)a;
                if (av == TRegisterAvailability::UNAVAILABLE)
                    excluded = true;
            } break;
            case 4: {
                supported = SymBool("supp");
                r.SetSupported(supported);
            } break;
            case 5:
                r.ExcludeFromPolling();
                excluded = true;
                break;
            case 6:
                r.IncludeInPolling();
                excluded = false;
                break;
        }
        symx_assert(r.GetErrorState().test(0) == err[0], "the read error is reported exactly while it is in force");
        symx_assert(r.GetErrorState().test(1) == err[1], "the write error is reported exactly while it is in force");
        symx_assert(r.GetErrorState().test(2) == err[2], "the poll interval error is reported exactly while it is in force");
        symx_assert(r.GetAvailable() == av, "availability follows the last event");
        symx_assert(r.IsSupported() == supported, "supported flag");
        symx_assert(r.IsExcludedFromPolling() == excluded, "a register is excluded from polling exactly after exclusion or becoming unavailable");
        symx_assert((r.GetValue().GetType() == TRegisterValue::ValueType::Integer) == defined && (!defined || r.GetValue().Get<uint64_t>() == val),
                    "the register holds the last value set");
    }
    symx_reach("done");
}
// the poll interval error is set and cleared by the average period over at least 10 s or 10 periods
HARNESS h_poll_interval()
{
    auto cfg = MakeReg(U16, 1, 0, 0);
    static const int P[] = {1, 50, 1000, 3000};
    int p = P[Pick("period", 0, 3)];
    bool has = SymBool("has");
    if (has)
        cfg->ReadPeriod = std::chrono::milliseconds(p);
    TRegister r(nullptr, cfg);
    if (SymBool("before"))
        r.SetError(TRegister::PollIntervalMissError);
    int64_t now = 0, window = std::max(10000, p * 10), maxP = p + p / 10, sum = 0, count = 0;
    bool err = r.GetErrorState().test(TRegister::PollIntervalMissError), first = true;
    size_t n = symx_param("n", 3), lead = symx_param("lead", 0);
    int64_t same = 0;
    for (size_t i = 0; i < n; ++i) {
        // many polls of the same period come first
        int64_t step = i > 0 && i < lead ? same : (int64_t)SymRange("stepMs", 1, 40000);
        same = step;
        now += step;
        r.SetLastPollTime(std::chrono::steady_clock::time_point(std::chrono::milliseconds(now)));
        if (has) {
            err = false;
            if (!first) {
                ++count;
                sum += step;
                if (sum >= window) {
                    err = sum >= maxP * count;
                    sum = count = 0;
                    symx_reach("checked");
                }
            }
            first = false;
        }
        symx_assert(r.GetErrorState().test(TRegister::PollIntervalMissError) == err,
                    "the poll interval error is set exactly if the average period of the last interval is 10% too long");
        symx_assert(!r.GetErrorState().test(0) && !r.GetErrorState().test(1), "no other error is touched");
    }
    symx_reach("done");
}
// C46: the bits of a register are inside of the value of its format
HARNESS h_bit_offset()
{
    RegisterFormat f = Formats[Pick("format", 0, 18)];
    bool str = f == String || f == String8;
    uint32_t offset = Sym8("offset"), width = (uint32_t)SymRange("width", 0, 64);
    PRegisterConfig c;
    bool bad = false;
    try {
        c = TRegisterConfig::Create(0, 7, f, 1, 0, 0, TRegisterConfig::TSporadicMode::DISABLED, false, "", EWordOrder::BigEndian, EByteOrder::BigEndian, offset, width);
    } catch (const TSerialDeviceException&) {
        bad = true;
    }
    symx_assert(bad == (!str && offset >= Width(f)), "a bit offset is accepted exactly if it is inside of the value");
    if (bad) {
        symx_reach("bad");
        return;
    }
    symx_assert(c->GetDataOffset() == offset && c->GetDataWidth() == (width ? width : str ? c->GetByteWidth() * 8 : Width(f)), "the bits are those that were given");
    symx_assert(c->IsPartial() == (width != 0), "a register is partial exactly if a width was given");
    if (!str) {
        uint32_t bits = std::max(Width(f), offset + (width ? width : Width(f)));
        symx_assert(c->Get16BitWidth() == (bits + 15) / 16, "it takes as many words as its bits need");
    }
    symx_reach("good");
}
