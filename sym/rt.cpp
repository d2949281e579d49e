// Runtime linked into every symbolically executed module: the parts of libc/libstdc++ that are not header-only.
#include "symstream.h"
#include <cerrno>
#include <cmath>
#include <condition_variable>
#include <cstdarg>
#include <cstdlib>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <variant>
#include <vector>

extern "C" {
double symx_strtod(const char* s);
void* symx_current_exception();
[[noreturn]] void symx_rethrow_exception(void* e);
void symx_prune();
void symx_fail(const char*);
char __libc_single_threaded = 1;
void* __dso_handle = nullptr;
int64_t symx_clock_ns = 1000000000000ll;
int64_t symx_sysclock_ns = 1700000000000000000ll;
__attribute__((weak)) void symx_on_sleep(int64_t ns)
{
    symx_clock_ns += ns;
}
}

// ---------------------------------------------------------------- libc strings
extern "C" {
#pragma clang optimize off
static int symx_errno_v;
int* __errno_location() noexcept
{
    return &symx_errno_v;
}
size_t strlen(const char* s)
{
    size_t n = 0;
    while (s[n])
        ++n;
    return n;
}
size_t strnlen(const char* s, size_t m)
{
    size_t n = 0;
    while (n < m && s[n])
        ++n;
    return n;
}
int strcmp(const char* a, const char* b)
{
    size_t i = 0;
    while (a[i] && a[i] == b[i])
        ++i;
    return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
int strncmp(const char* a, const char* b, size_t n)
{
    for (size_t i = 0; i < n; ++i) {
        if (a[i] != b[i] || !a[i])
            return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
    }
    return 0;
}
int tolower(int c) noexcept
{
    return (c >= 'A' && c <= 'Z') ? c + 32 : c;
}
int toupper(int c) noexcept
{
    return (c >= 'a' && c <= 'z') ? c - 32 : c;
}
int isspace(int c) noexcept
{
    return c == ' ' || (c >= 9 && c <= 13);
}
int isdigit(int c) noexcept
{
    return c >= '0' && c <= '9';
}
int isalpha(int c) noexcept
{
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
}
int isalnum(int c) noexcept
{
    return isalpha(c) || isdigit(c);
}
int isprint(int c) noexcept
{
    return c >= 32 && c < 127;
}
int isxdigit(int c) noexcept
{
    return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
}
int isupper(int c) noexcept
{
    return c >= 'A' && c <= 'Z';
}
int islower(int c) noexcept
{
    return c >= 'a' && c <= 'z';
}
int ispunct(int c) noexcept
{
    return isprint(c) && c != ' ' && !isalnum(c);
}
int strcasecmp(const char* a, const char* b) noexcept
{
    size_t i = 0;
    while (a[i] && tolower((unsigned char)a[i]) == tolower((unsigned char)b[i]))
        ++i;
    return tolower((unsigned char)a[i]) - tolower((unsigned char)b[i]);
}
char* strcpy(char* d, const char* s)
{
    size_t i = 0;
    do
        d[i] = s[i];
    while (s[i++]);
    return d;
}
char* strncpy(char* d, const char* s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; ++i)
        d[i] = s[i];
    for (; i < n; ++i)
        d[i] = 0;
    return d;
}
char* strcat(char* d, const char* s)
{
    strcpy(d + strlen(d), s);
    return d;
}
char* strdup(const char* s) noexcept
{
    char* r = (char*)malloc(strlen(s) + 1);
    return strcpy(r, s);
}
char* strerror(int) noexcept
{
    return (char*)"errno text";
}
static void* symx_memcpy_like(void* d, const void* s, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        ((char*)d)[i] = ((const char*)s)[i];
    return d;
}
void* mempcpy(void* d, const void* s, size_t n) noexcept
{
    symx_memcpy_like(d, s, n);
    return (char*)d + n;
}

// ---------------------------------------------------------------- numbers
static unsigned long symx_strto(const char* s, char** end, int base, bool sgn, bool& neg, bool& over)
{
    const char* p = s;
    neg = over = false;
    while (isspace((unsigned char)*p))
        ++p;
    if (*p == '-' || *p == '+') {
        neg = *p == '-';
        ++p;
    }
    bool pre = false;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) {
        p += 2;
        base = 16;
    } else if ((base == 0 || base == 2) && p[0] == '0' && (p[1] == 'b' || p[1] == 'B') && (p[2] == '0' || p[2] == '1') && pre) {
        p += 2;
        base = 2;
    } else if (base == 0)
        base = *p == '0' ? 8 : 10;
    unsigned long v = 0;
    const char* st = p;
    for (;; ++p) {
        unsigned char c = (unsigned char)*p;
        unsigned d;
        if (c >= '0' && c <= '9')
            d = c - '0';
        else if (base > 10 && c >= 'a' && c <= 'z')
            d = c - 'a' + 10;
        else if (base > 10 && c >= 'A' && c <= 'Z')
            d = c - 'A' + 10;
        else
            break;
        if (d >= (unsigned)base)
            break;
        unsigned long t;
        if (__builtin_mul_overflow(v, (unsigned long)base, &t) || __builtin_add_overflow(t, (unsigned long)d, &t))
            over = true;
        v = t;
    }
    if (end)
        *end = (char*)(p == st ? s : p);
    (void)sgn;
    return v;
}
long strtol(const char* s, char** end, int base) noexcept
{
    bool neg, over;
    unsigned long v = symx_strto(s, end, base, true, neg, over);
    if (over || v > (neg ? 1ul << 63 : ~0ul >> 1)) {
        errno = ERANGE;
        return neg ? (long)(1ul << 63) : (long)(~0ul >> 1);
    }
    return neg ? (long)-v : (long)v;
}
unsigned long strtoul(const char* s, char** end, int base) noexcept
{
    bool neg, over;
    unsigned long v = symx_strto(s, end, base, false, neg, over);
    if (over) {
        errno = ERANGE;
        return ~0ul;
    }
    return neg ? -v : v;
}
long long strtoll(const char* s, char** e, int b) noexcept
{
    return strtol(s, e, b);
}
unsigned long long strtoull(const char* s, char** e, int b) noexcept
{
    return strtoul(s, e, b);
}
// Correctly rounded for up to 15 significant digits and |exponent| <= 22 (both operands of the single IEEE
// multiplication/division are exact); otherwise the text is made concrete and the host strtod is used.
double symx_parse_double(const char* s, char** end)
{
    const char* p = s;
    while (isspace((unsigned char)*p))
        ++p;
    bool neg = false;
    if (*p == '-' || *p == '+') {
        neg = *p == '-';
        ++p;
    }
    if ((*p == 'i' || *p == 'I') && tolower(p[1]) == 'n' && tolower(p[2]) == 'f') {
        p += 3;
        const char* w = "inity";
        size_t k = 0;
        while (k < 5 && tolower((unsigned char)p[k]) == w[k])
            ++k;
        if (k == 5)
            p += 5;
        if (end)
            *end = (char*)p;
        return neg ? -__builtin_inf() : __builtin_inf();
    }
    if ((*p == 'n' || *p == 'N') && tolower(p[1]) == 'a' && tolower(p[2]) == 'n') {
        p += 3;
        if (*p == '(') {
            const char* q = p + 1;
            while (isalnum((unsigned char)*q) || *q == '_')
                ++q;
            if (*q == ')')
                p = q + 1;
        }
        if (end)
            *end = (char*)p;
        return neg ? -__builtin_nan("") : __builtin_nan("");
    }
    const char* st = p;
    if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X') &&
        (isxdigit((unsigned char)p[2]) || (p[2] == '.' && isxdigit((unsigned char)p[3]))))
    {
        const char* q = p + 2;
        while (isxdigit((unsigned char)*q) || *q == '.')
            ++q;
        if (*q == 'p' || *q == 'P') {
            const char* r = q + 1;
            if (*r == '-' || *r == '+')
                ++r;
            if (isdigit((unsigned char)*r)) {
                while (isdigit((unsigned char)*r))
                    ++r;
                q = r;
            }
        }
        if (end)
            *end = (char*)q;
        return symx_strtod(s);
    }
    unsigned long m = 0;
    int digits = 0, exp = 0;
    bool any = false, exact = true;
    for (; isdigit((unsigned char)*p); ++p) {
        any = true;
        if (digits || *p != '0')
            if (++digits > 15)
                exact = false;
        m = m * 10 + (unsigned long)(*p - '0');
    }
    if (*p == '.' && (any || isdigit((unsigned char)p[1]))) {
        ++p;
        for (; isdigit((unsigned char)*p); ++p) {
            any = true;
            if (digits || *p != '0')
                if (++digits > 15)
                    exact = false;
            m = m * 10 + (unsigned long)(*p - '0');
            --exp;
        }
    }
    if (!any) {
        if (end)
            *end = (char*)s;
        return 0;
    }
    (void)st;
    if (*p == 'e' || *p == 'E') {
        const char* q = p + 1;
        bool en = false;
        if (*q == '-' || *q == '+') {
            en = *q == '-';
            ++q;
        }
        if (isdigit((unsigned char)*q)) {
            int x = 0;
            for (; isdigit((unsigned char)*q); ++q)
                if (x < 100000)
                    x = x * 10 + (*q - '0');
            exp += en ? -x : x;
            p = q;
        }
    }
    if (end)
        *end = (char*)p;
    if (!exact || exp > 22 || exp < -22) {
        double d = symx_strtod(s);
        if (__builtin_isinf(d) || (d == 0 && m))
            errno = ERANGE;
        return d;
    }
    static const double P10[] = {1e0,  1e1,  1e2,  1e3,  1e4,  1e5,  1e6,  1e7,  1e8,  1e9,  1e10, 1e11,
                                 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
    double d = (double)m;
    if (exp > 0)
        d = d * P10[exp];
    else if (exp < 0)
        d = d / P10[-exp];
    return neg ? -d : d;
}
double strtod(const char* s, char** e) noexcept
{
    return symx_parse_double(s, e);
}
float strtof(const char* s, char** e) noexcept
{
    return (float)symx_parse_double(s, e);
}

int vsnprintf(char* buf, size_t n, const char* f, va_list ap)
{
    size_t k = 0;
    auto put = [&](char c) {
        if (k + 1 < n)
            buf[k] = c;
        ++k;
    };
    for (; *f; ++f) {
        if (*f != '%') {
            put(*f);
            continue;
        }
        const char* spec = f;
        ++f;
        bool zero = false, left = false, alt = false, plus = false;
        for (;; ++f) {
            if (*f == '0')
                zero = true;
            else if (*f == '-')
                left = true;
            else if (*f == '#')
                alt = true;
            else if (*f == '+')
                plus = true;
            else if (*f != ' ')
                break;
        }
        int width = 0, prec = -1;
        if (*f == '*') {
            width = va_arg(ap, int);
            ++f;
        } else
            while (isdigit((unsigned char)*f))
                width = width * 10 + (*f++ - '0');
        if (*f == '.') {
            ++f;
            prec = 0;
            if (*f == '*') {
                prec = va_arg(ap, int);
                ++f;
            } else
                while (isdigit((unsigned char)*f))
                    prec = prec * 10 + (*f++ - '0');
        }
        int lng = 0;
        while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't') {
            if (*f == 'h')
                --lng;
            else
                ++lng;
            ++f;
        }
        char tmp[512];
        char* b = tmp;
        size_t len = 0;
        switch (*f) {
            case '%':
                put('%');
                continue;
            case 'c':
                tmp[0] = (char)va_arg(ap, int);
                len = 1;
                zero = false;
                break;
            case 's':
                b = va_arg(ap, char*);
                if (!b)
                    b = (char*)"(null)";
                len = prec >= 0 ? strnlen(b, (size_t)prec) : strlen(b);
                zero = false;
                break;
            case 'd':
            case 'i':
            case 'u':
            case 'x':
            case 'X':
            case 'o':
            case 'p': {
                bool sg = *f == 'd' || *f == 'i';
                unsigned long v;
                bool neg = false;
                if (sg) {
                    long s = lng > 0 ? va_arg(ap, long) : (long)va_arg(ap, int);
                    if (lng == -1)
                        s = (short)s;
                    else if (lng == -2)
                        s = (signed char)s;
                    neg = s < 0;
                    v = neg ? -(unsigned long)s : (unsigned long)s;
                } else {
                    v = lng > 0 || *f == 'p' ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned);
                    if (lng == -1)
                        v = (unsigned short)v;
                    else if (lng == -2)
                        v = (unsigned char)v;
                }
                unsigned base = sg || *f == 'u' ? 10 : *f == 'o' ? 8 : 16;
                int i = 400;
                int minD = prec >= 0 ? prec : 1;
                if (prec >= 0)
                    zero = false;
                if (zero && !left) {
                    minD = width - (neg || plus ? 1 : 0) - (alt && base == 16 && v ? 2 : 0);
                    if (minD < 1)
                        minD = 1;
                }
                while (v || 400 - i < minD) {
                    unsigned d = base == 16 ? (unsigned)(v & 15) : base == 8 ? (unsigned)(v & 7) : (unsigned)(v % 10);
                    v = base == 16 ? v >> 4 : base == 8 ? v >> 3 : v / 10;
                    tmp[--i] = (*f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[d];
                }
                if ((alt && base == 16) || *f == 'p') {
                    tmp[--i] = *f == 'X' ? 'X' : 'x';
                    tmp[--i] = '0';
                }
                if (neg)
                    tmp[--i] = '-';
                else if (plus && sg)
                    tmp[--i] = '+';
                b = tmp + i;
                len = (size_t)(400 - i);
                zero = false;
                break;
            }
            case 'f':
            case 'F':
            case 'g':
            case 'G':
            case 'e':
            case 'E': {
                char fm[32];
                size_t q = 0;
                for (const char* c = spec; c <= f && q < 31; ++c)
                    fm[q++] = *c;
                fm[q] = 0;
                len = (size_t)symx_fmt_double(tmp, sizeof tmp, fm, va_arg(ap, double));
                break;
            }
            default:
                symx_fail("printf format not modelled");
        }
        if (!left)
            for (size_t i = len; i < (size_t)width; ++i)
                put(zero ? '0' : ' ');
        for (size_t i = 0; i < len; ++i)
            put(b[i]);
        if (left)
            for (size_t i = len; i < (size_t)width; ++i)
                put(' ');
    }
    if (n)
        buf[k < n ? k : n - 1] = 0;
    return (int)k;
}
int snprintf(char* buf, size_t n, const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    int r = vsnprintf(buf, n, f, ap);
    va_end(ap);
    return r;
}
int sprintf(char* buf, const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    int r = vsnprintf(buf, 1ul << 20, f, ap);
    va_end(ap);
    return r;
}
int printf(const char*, ...)
{
    return 0;
}
int fprintf(FILE*, const char*, ...)
{
    return 0;
}
static int symx_vsscanf(const char* s, const char* f, va_list ap)
{
    int n = 0;
    const char* p = s;
    for (; *f; ++f) {
        if (isspace((unsigned char)*f)) {
            while (isspace((unsigned char)*p))
                ++p;
            continue;
        }
        if (*f != '%') {
            if (!*p && !n)
                return -1;
            if (*p != *f)
                return n;
            ++p;
            continue;
        }
        ++f;
        size_t width = 0;
        bool skip = false;
        if (*f == '*') {
            skip = true;
            ++f;
        }
        while (isdigit((unsigned char)*f))
            width = width * 10 + (size_t)(*f++ - '0');
        int lng = 0;
        while (*f == 'l' || *f == 'h') {
            lng += *f == 'l' ? 1 : -1;
            ++f;
        }
        if (*f == 'n') {
            *va_arg(ap, int*) = (int)(p - s);
            continue;
        }
        if (*f != 'c')
            while (isspace((unsigned char)*p))
                ++p;
        if (!*p)
            return n ? n : -1;
        switch (*f) {
            case 'd':
            case 'i':
            case 'u':
            case 'x':
            case 'X': {
                bool neg = false;
                size_t w = width ? width : 100;
                const char* q = p;
                if (w && (*q == '-' || *q == '+')) {
                    neg = *q == '-';
                    ++q;
                    --w;
                }
                bool hx = *f == 'x' || *f == 'X';
                bool any = false;
                if (hx && w > 1 && q[0] == '0' && (q[1] == 'x' || q[1] == 'X')) {
                    q += 2;
                    w -= 2;
                    any = false;
                }
                unsigned long v = 0;
                while (w && (hx ? isxdigit((unsigned char)*q) : isdigit((unsigned char)*q))) {
                    unsigned d = isdigit((unsigned char)*q) ? (unsigned)(*q - '0')
                                                              : (unsigned)(tolower((unsigned char)*q) - 'a' + 10);
                    v = v * (hx ? 16 : 10) + d;
                    any = true;
                    ++q;
                    --w;
                }
                if (!any)
                    return n;
                if (neg)
                    v = -v;
                p = q;
                if (!skip) {
                    if (lng > 0)
                        *va_arg(ap, unsigned long*) = v;
                    else if (lng == 0)
                        *va_arg(ap, unsigned*) = (unsigned)v;
                    else if (lng == -1)
                        *va_arg(ap, unsigned short*) = (unsigned short)v;
                    else
                        *va_arg(ap, unsigned char*) = (unsigned char)v;
                    ++n;
                }
                break;
            }
            case 'f':
            case 'g':
            case 'e': {
                char* e;
                double d = symx_parse_double(p, &e);
                if (e == p)
                    return n;
                p = e;
                if (!skip) {
                    if (lng > 0)
                        *va_arg(ap, double*) = d;
                    else
                        *va_arg(ap, float*) = (float)d;
                    ++n;
                }
                break;
            }
            case 's': {
                char* d = skip ? nullptr : va_arg(ap, char*);
                size_t w = width ? width : 1ul << 20;
                while (w-- && *p && !isspace((unsigned char)*p)) {
                    if (d)
                        *d++ = *p;
                    ++p;
                }
                if (d) {
                    *d = 0;
                    ++n;
                }
                break;
            }
            case 'c':
                if (!skip) {
                    *va_arg(ap, char*) = *p;
                    ++n;
                }
                ++p;
                break;
            default:
                symx_fail("scanf format not modelled");
        }
    }
    return n;
}
int sscanf(const char* s, const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    int r = symx_vsscanf(s, f, ap);
    va_end(ap);
    return r;
}
// ---------------------------------------------------------------- threads (the executor is sequential)
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    (void)m;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t*) noexcept
{
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t*) noexcept
{
    return 0;
}
int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) noexcept
{
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) noexcept
{
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t*) noexcept
{
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t*) noexcept
{
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t*) noexcept
{
    return 0;
}
pthread_t pthread_self() noexcept
{
    return 1;
}
int pthread_once(pthread_once_t* o, void (*f)())
{
    if (!*o) {
        *o = 1;
        f();
    }
    return 0;
}
// waiting: virtual time advances to the deadline unless the harness hook returns true (a notification arrived)
__attribute__((weak)) bool symx_on_wait(int64_t deadlineNs)
{
    if (deadlineNs > symx_clock_ns)
        symx_clock_ns = deadlineNs;
    return false;
}
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec* t)
{
    return symx_on_wait(t->tv_sec * 1000000000ll + t->tv_nsec) ? 0 : ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec* t)
{
    return symx_on_wait(t->tv_sec * 1000000000ll + t->tv_nsec) ? 0 : ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t*) noexcept
{
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t*) noexcept
{
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) noexcept
{
    return 0;
}
int nanosleep(const struct timespec* t, struct timespec*)
{
    symx_on_sleep(t->tv_sec * 1000000000ll + t->tv_nsec);
    return 0;
}
int usleep(unsigned us)
{
    symx_on_sleep((int64_t)us * 1000);
    return 0;
}
#pragma clang optimize on
}

// ---------------------------------------------------------------- exceptions
namespace std
{
    exception::~exception() noexcept
    {}
    const char* exception::what() const noexcept
    {
        return "std::exception";
    }
    bad_exception::~bad_exception() noexcept
    {}
    const char* bad_exception::what() const noexcept
    {
        return "std::bad_exception";
    }
    bad_alloc::~bad_alloc() noexcept
    {}
    const char* bad_alloc::what() const noexcept
    {
        return "std::bad_alloc";
    }
    bad_array_new_length::~bad_array_new_length() noexcept
    {}
    const char* bad_array_new_length::what() const noexcept
    {
        return "std::bad_array_new_length";
    }
    bad_cast::~bad_cast() noexcept
    {}
    const char* bad_cast::what() const noexcept
    {
        return "std::bad_cast";
    }
    bad_typeid::~bad_typeid() noexcept
    {}
    const char* bad_typeid::what() const noexcept
    {
        return "std::bad_typeid";
    }
    bad_function_call::~bad_function_call() noexcept
    {}
    const char* bad_function_call::what() const noexcept
    {
        return "bad_function_call";
    }
    bad_weak_ptr::~bad_weak_ptr() noexcept
    {}
    const char* bad_weak_ptr::what() const noexcept
    {
        return "bad_weak_ptr";
    }
    static const char* symDup(const char* p, size_t n)
    {
        char* r = (char*)malloc(n + 1);
        for (size_t i = 0; i < n; ++i)
            r[i] = p[i];
        r[n] = 0;
        return r;
    }
    __cow_string::__cow_string(): _M_p("")
    {}
    __cow_string::__cow_string(const std::string& s): _M_p(symDup(s.data(), s.size()))
    {}
    __cow_string::__cow_string(const char* s, size_t n): _M_p(symDup(s, n))
    {}
    __cow_string::__cow_string(const __cow_string& o) noexcept: _M_p(o._M_p)
    {}
    __cow_string& __cow_string::operator=(const __cow_string& o) noexcept
    {
        _M_p = o._M_p;
        return *this;
    }
    __cow_string::~__cow_string()
    {}
    __cow_string::__cow_string(__cow_string&& o) noexcept: _M_p(o._M_p)
    {}
    __cow_string& __cow_string::operator=(__cow_string&& o) noexcept
    {
        _M_p = o._M_p;
        return *this;
    }
#define SYM_EXC(T, BASE)                                                                                             \
    T::T(const string& s): BASE(s)                                                                                   \
    {}                                                                                                               \
    T::T(const char* s): BASE(s)                                                                                     \
    {}                                                                                                               \
    T::~T() noexcept                                                                                                 \
    {}
#define SYM_EXC_BASE(T)                                                                                              \
    T::T(const string& s): exception(), _M_msg(s)                                                                    \
    {}                                                                                                               \
    T::T(const char* s): exception(), _M_msg(s, strlen(s))                                                           \
    {}                                                                                                               \
    T::T(const T& o) noexcept: exception(o), _M_msg(o._M_msg)                                                        \
    {}                                                                                                               \
    T& T::operator=(const T& o) noexcept                                                                             \
    {                                                                                                                \
        _M_msg = o._M_msg;                                                                                           \
        return *this;                                                                                                \
    }                                                                                                                \
    T::T(T&& o) noexcept: exception(o), _M_msg(o._M_msg)                                                             \
    {}                                                                                                               \
    T& T::operator=(T&& o) noexcept                                                                                  \
    {                                                                                                                \
        _M_msg = o._M_msg;                                                                                           \
        return *this;                                                                                                \
    }                                                                                                                \
    T::~T() noexcept                                                                                                 \
    {}                                                                                                               \
    const char* T::what() const noexcept                                                                             \
    {                                                                                                                \
        return _M_msg._M_p;                                                                                          \
    }
    SYM_EXC_BASE(logic_error)
    SYM_EXC_BASE(runtime_error)
    SYM_EXC(invalid_argument, logic_error)
    SYM_EXC(domain_error, logic_error)
    SYM_EXC(length_error, logic_error)
    SYM_EXC(out_of_range, logic_error)
    SYM_EXC(range_error, runtime_error)
    SYM_EXC(overflow_error, runtime_error)
    SYM_EXC(underflow_error, runtime_error)
    system_error::~system_error() noexcept
    {}
    void __throw_bad_alloc()
    {
        throw bad_alloc();
    }
    void __throw_bad_array_new_length()
    {
        throw bad_array_new_length();
    }
    void __throw_bad_cast()
    {
        throw bad_cast();
    }
    void __throw_bad_typeid()
    {
        throw bad_typeid();
    }
    void __throw_bad_function_call()
    {
        throw bad_function_call();
    }
    void __throw_logic_error(const char* s)
    {
        throw logic_error(s);
    }
    void __throw_invalid_argument(const char* s)
    {
        throw invalid_argument(s);
    }
    void __throw_length_error(const char* s)
    {
        throw length_error(s);
    }
    void __throw_out_of_range(const char* s)
    {
        throw out_of_range(s);
    }
    void __throw_out_of_range_fmt(const char* s, ...)
    {
        throw out_of_range(s);
    }
    void __throw_runtime_error(const char* s)
    {
        throw runtime_error(s);
    }
    void __throw_range_error(const char* s)
    {
        throw range_error(s);
    }
    void __throw_overflow_error(const char* s)
    {
        throw overflow_error(s);
    }
    void __throw_system_error(int e)
    {
        throw system_error(error_code(e, generic_category()));
    }
    error_category::~error_category() noexcept
    {}
    error_condition error_category::default_error_condition(int e) const noexcept
    {
        return error_condition(e, *this);
    }
    bool error_category::equivalent(int e, const error_condition& c) const noexcept
    {
        return default_error_condition(e) == c;
    }
    bool error_category::equivalent(const error_code& c, int e) const noexcept
    {
        return *this == c.category() && c.value() == e;
    }
    __cow_string error_category::_M_message(int) const
    {
        return __cow_string("errno text", 10);
    }
    namespace
    {
        struct SymCat: error_category
        {
            const char* name() const noexcept override
            {
                return "generic";
            }
            string message(int) const override
            {
                return "errno text";
            }
        };
        SymCat symCat;
    }
    namespace _V2
    {
        const error_category& generic_category() noexcept
        {
            return symCat;
        }
        const error_category& system_category() noexcept
        {
            return symCat;
        }
    }
    void rethrow_exception(exception_ptr p)
    {
        void* o;
        memcpy(&o, &p, sizeof o);
        symx_rethrow_exception(o);
    }
    exception_ptr current_exception() noexcept
    {
        void* o = symx_current_exception();
        exception_ptr p;
        memcpy((void*)&p, &o, sizeof o);
        return p;
    }
    namespace __exception_ptr
    {
        exception_ptr::exception_ptr(void* e) noexcept: _M_exception_object(e)
        {}
        void exception_ptr::_M_addref() noexcept
        {}
        void exception_ptr::_M_release() noexcept
        {}
    }
    int uncaught_exceptions() noexcept
    {
        return 0;
    }
    bool uncaught_exception() noexcept
    {
        return false;
    }
    nested_exception::~nested_exception() noexcept
    {}
    bool type_info::__is_pointer_p() const
    {
        return false;
    }
    bool type_info::__is_function_p() const
    {
        return false;
    }
    bool type_info::__do_catch(const type_info*, void**, unsigned) const
    {
        return false;
    }
    bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const
    {
        return false;
    }
    type_info::~type_info()
    {}

    // ------------------------------------------------------------ containers
    namespace __detail
    {
        void _List_node_base::_M_hook(_List_node_base* p) noexcept
        {
            _M_next = p;
            _M_prev = p->_M_prev;
            p->_M_prev->_M_next = this;
            p->_M_prev = this;
        }
        void _List_node_base::_M_unhook() noexcept
        {
            auto n = _M_next, p = _M_prev;
            p->_M_next = n;
            n->_M_prev = p;
        }
        void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept
        {
            if (this != l) {
                l->_M_prev->_M_next = this;
                f->_M_prev->_M_next = l;
                this->_M_prev->_M_next = f;
                auto t = this->_M_prev;
                this->_M_prev = l->_M_prev;
                l->_M_prev = f->_M_prev;
                f->_M_prev = t;
            }
        }
        void _List_node_base::_M_reverse() noexcept
        {
            auto t = this;
            do {
                std::swap(t->_M_next, t->_M_prev);
                t = t->_M_prev;
            } while (t != this);
        }
        void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
        {
            if (x._M_next != &x) {
                if (y._M_next != &y) {
                    std::swap(x._M_next, y._M_next);
                    std::swap(x._M_prev, y._M_prev);
                    x._M_next->_M_prev = x._M_prev->_M_next = &x;
                    y._M_next->_M_prev = y._M_prev->_M_next = &y;
                } else {
                    y._M_next = x._M_next;
                    y._M_prev = x._M_prev;
                    y._M_next->_M_prev = y._M_prev->_M_next = &y;
                    x._M_next = x._M_prev = &x;
                }
            } else if (y._M_next != &y) {
                x._M_next = y._M_next;
                x._M_prev = y._M_prev;
                x._M_next->_M_prev = x._M_prev->_M_next = &x;
                y._M_next = y._M_prev = &y;
            }
        }
        // same growth policy as libstdc++ (bucket order is observable through iteration order)
        static const unsigned long symPrimes[] = {2ul,     3ul,     5ul,     7ul,     11ul,    13ul,    17ul,    19ul,
                                                  23ul,    29ul,    31ul,    37ul,    41ul,    43ul,    47ul,    53ul,
                                                  59ul,    61ul,    67ul,    71ul,    73ul,    79ul,    83ul,    89ul,
                                                  97ul,    103ul,   109ul,   113ul,   127ul,   137ul,   139ul,   149ul,
                                                  157ul,   167ul,   179ul,   193ul,   199ul,   211ul,   227ul,   241ul,
                                                  257ul,   277ul,   293ul,   313ul,   337ul,   359ul,   383ul,   409ul,
                                                  439ul,   467ul,   503ul,   541ul,   577ul,   619ul,   661ul,   709ul,
                                                  761ul,   823ul,   887ul,   953ul,   1031ul,  1109ul,  1193ul,  1289ul,
                                                  1381ul,  1493ul,  1613ul,  1741ul,  1879ul,  2029ul,  2179ul,  2357ul,
                                                  2549ul,  2753ul,  2971ul,  3209ul,  3469ul,  3739ul,  4027ul,  4349ul,
                                                  4703ul,  5087ul,  5503ul,  5953ul,  6427ul,  6949ul,  7517ul,  8123ul,
                                                  8783ul,  9497ul,  10273ul, 11113ul, 12011ul, 12983ul, 14033ul, 15173ul};
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
        {
            static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
            if (n < sizeof(fast)) {
                if (n == 0)
                    return 1;
                _M_next_resize = (size_t)__builtin_floor((double)fast[n] * (double)_M_max_load_factor);
                return fast[n];
            }
            for (auto p: symPrimes)
                if (p >= n) {
                    _M_next_resize = (size_t)__builtin_floor((double)p * (double)_M_max_load_factor);
                    return p;
                }
            symx_fail("hash table too large for the model");
            return 0;
        }
        pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
        {
            if (ne + ni > _M_next_resize) {
                double minBkts = (double)std::max<size_t>(ne + ni, _M_next_resize ? 0 : 11) / (double)_M_max_load_factor;
                if (minBkts >= (double)nb)
                    return {true, _M_next_bkt(std::max<size_t>((size_t)__builtin_floor(minBkts) + 1, nb * 2))};
                _M_next_resize = (size_t)__builtin_floor((double)nb * (double)_M_max_load_factor);
                return {false, 0};
            }
            return {false, 0};
        }
    }
    size_t _Hash_bytes(const void* ptr, size_t len, size_t seed)
    {
        const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
        const char* const buf = (const char*)ptr;
        auto shiftMix = [](size_t v) { return v ^ (v >> 47); };
        const size_t lenAligned = len & ~(size_t)0x7;
        const char* const end = buf + lenAligned;
        size_t hash = seed ^ (len * mul);
        for (const char* p = buf; p != end; p += 8) {
            size_t d;
            memcpy(&d, p, 8);
            const size_t data = shiftMix(d * mul) * mul;
            hash ^= data;
            hash *= mul;
        }
        if ((len & 0x7) != 0) {
            size_t data = 0;
            for (int n = (int)(len & 7) - 1; n >= 0; --n)
                data = (data << 8) + (unsigned char)end[n];
            hash ^= data;
            hash *= mul;
        }
        hash = shiftMix(hash) * mul;
        hash = shiftMix(hash);
        return hash;
    }

    // red-black tree (the algorithm of libstdc++'s tree.cc; only ordering is observable)
    static _Rb_tree_node_base* symInc(_Rb_tree_node_base* x)
    {
        if (x->_M_right) {
            x = x->_M_right;
            while (x->_M_left)
                x = x->_M_left;
        } else {
            auto y = x->_M_parent;
            while (x == y->_M_right) {
                x = y;
                y = y->_M_parent;
            }
            if (x->_M_right != y)
                x = y;
        }
        return x;
    }
    static _Rb_tree_node_base* symDec(_Rb_tree_node_base* x)
    {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
            x = x->_M_right;
        else if (x->_M_left) {
            auto y = x->_M_left;
            while (y->_M_right)
                y = y->_M_right;
            x = y;
        } else {
            auto y = x->_M_parent;
            while (x == y->_M_left) {
                x = y;
                y = y->_M_parent;
            }
            x = y;
        }
        return x;
    }
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
    {
        return symInc(x);
    }
    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw()
    {
        return symInc(const_cast<_Rb_tree_node_base*>(x));
    }
    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
    {
        return symDec(x);
    }
    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
    {
        return symDec(const_cast<_Rb_tree_node_base*>(x));
    }
    static void symRotL(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root)
    {
        auto y = x->_M_right;
        x->_M_right = y->_M_left;
        if (y->_M_left)
            y->_M_left->_M_parent = x;
        y->_M_parent = x->_M_parent;
        if (x == root)
            root = y;
        else if (x == x->_M_parent->_M_left)
            x->_M_parent->_M_left = y;
        else
            x->_M_parent->_M_right = y;
        y->_M_left = x;
        x->_M_parent = y;
    }
    static void symRotR(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root)
    {
        auto y = x->_M_left;
        x->_M_left = y->_M_right;
        if (y->_M_right)
            y->_M_right->_M_parent = x;
        y->_M_parent = x->_M_parent;
        if (x == root)
            root = y;
        else if (x == x->_M_parent->_M_right)
            x->_M_parent->_M_right = y;
        else
            x->_M_parent->_M_left = y;
        y->_M_right = x;
        x->_M_parent = y;
    }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw()
    {
        _Rb_tree_node_base*& root = header._M_parent;
        x->_M_parent = p;
        x->_M_left = 0;
        x->_M_right = 0;
        x->_M_color = _S_red;
        if (left) {
            p->_M_left = x;
            if (p == &header) {
                header._M_parent = x;
                header._M_right = x;
            } else if (p == header._M_left)
                header._M_left = x;
        } else {
            p->_M_right = x;
            if (p == header._M_right)
                header._M_right = x;
        }
        while (x != root && x->_M_parent->_M_color == _S_red) {
            auto xpp = x->_M_parent->_M_parent;
            if (x->_M_parent == xpp->_M_left) {
                auto y = xpp->_M_right;
                if (y && y->_M_color == _S_red) {
                    x->_M_parent->_M_color = _S_black;
                    y->_M_color = _S_black;
                    xpp->_M_color = _S_red;
                    x = xpp;
                } else {
                    if (x == x->_M_parent->_M_right) {
                        x = x->_M_parent;
                        symRotL(x, root);
                    }
                    x->_M_parent->_M_color = _S_black;
                    xpp->_M_color = _S_red;
                    symRotR(xpp, root);
                }
            } else {
                auto y = xpp->_M_left;
                if (y && y->_M_color == _S_red) {
                    x->_M_parent->_M_color = _S_black;
                    y->_M_color = _S_black;
                    xpp->_M_color = _S_red;
                    x = xpp;
                } else {
                    if (x == x->_M_parent->_M_left) {
                        x = x->_M_parent;
                        symRotR(x, root);
                    }
                    x->_M_parent->_M_color = _S_black;
                    xpp->_M_color = _S_red;
                    symRotL(xpp, root);
                }
            }
        }
        root->_M_color = _S_black;
    }
    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw()
    {
        _Rb_tree_node_base*& root = header._M_parent;
        _Rb_tree_node_base*& leftmost = header._M_left;
        _Rb_tree_node_base*& rightmost = header._M_right;
        _Rb_tree_node_base* y = z;
        _Rb_tree_node_base* x = 0;
        _Rb_tree_node_base* xp = 0;
        if (y->_M_left == 0)
            x = y->_M_right;
        else if (y->_M_right == 0)
            x = y->_M_left;
        else {
            y = y->_M_right;
            while (y->_M_left != 0)
                y = y->_M_left;
            x = y->_M_right;
        }
        if (y != z) {
            z->_M_left->_M_parent = y;
            y->_M_left = z->_M_left;
            if (y != z->_M_right) {
                xp = y->_M_parent;
                if (x)
                    x->_M_parent = y->_M_parent;
                y->_M_parent->_M_left = x;
                y->_M_right = z->_M_right;
                z->_M_right->_M_parent = y;
            } else
                xp = y;
            if (root == z)
                root = y;
            else if (z->_M_parent->_M_left == z)
                z->_M_parent->_M_left = y;
            else
                z->_M_parent->_M_right = y;
            y->_M_parent = z->_M_parent;
            std::swap(y->_M_color, z->_M_color);
            y = z;
        } else {
            xp = y->_M_parent;
            if (x)
                x->_M_parent = y->_M_parent;
            if (root == z)
                root = x;
            else if (z->_M_parent->_M_left == z)
                z->_M_parent->_M_left = x;
            else
                z->_M_parent->_M_right = x;
            if (leftmost == z) {
                if (z->_M_right == 0)
                    leftmost = z->_M_parent;
                else
                    leftmost = _Rb_tree_node_base::_S_minimum(x);
            }
            if (rightmost == z) {
                if (z->_M_left == 0)
                    rightmost = z->_M_parent;
                else
                    rightmost = _Rb_tree_node_base::_S_maximum(x);
            }
        }
        if (y->_M_color != _S_red) {
            while (x != root && (x == 0 || x->_M_color == _S_black))
                if (x == xp->_M_left) {
                    auto w = xp->_M_right;
                    if (w->_M_color == _S_red) {
                        w->_M_color = _S_black;
                        xp->_M_color = _S_red;
                        symRotL(xp, root);
                        w = xp->_M_right;
                    }
                    if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) &&
                        (w->_M_right == 0 || w->_M_right->_M_color == _S_black))
                    {
                        w->_M_color = _S_red;
                        x = xp;
                        xp = xp->_M_parent;
                    } else {
                        if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) {
                            w->_M_left->_M_color = _S_black;
                            w->_M_color = _S_red;
                            symRotR(w, root);
                            w = xp->_M_right;
                        }
                        w->_M_color = xp->_M_color;
                        xp->_M_color = _S_black;
                        if (w->_M_right)
                            w->_M_right->_M_color = _S_black;
                        symRotL(xp, root);
                        break;
                    }
                } else {
                    auto w = xp->_M_left;
                    if (w->_M_color == _S_red) {
                        w->_M_color = _S_black;
                        xp->_M_color = _S_red;
                        symRotR(xp, root);
                        w = xp->_M_left;
                    }
                    if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) &&
                        (w->_M_left == 0 || w->_M_left->_M_color == _S_black))
                    {
                        w->_M_color = _S_red;
                        x = xp;
                        xp = xp->_M_parent;
                    } else {
                        if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) {
                            w->_M_right->_M_color = _S_black;
                            w->_M_color = _S_red;
                            symRotL(w, root);
                            w = xp->_M_left;
                        }
                        w->_M_color = xp->_M_color;
                        xp->_M_color = _S_black;
                        if (w->_M_left)
                            w->_M_left->_M_color = _S_black;
                        symRotR(xp, root);
                        break;
                    }
                }
            if (x)
                x->_M_color = _S_black;
        }
        return y;
    }

    // ------------------------------------------------------------ streams, time, threads
    struct SymNullBuf: basic_streambuf<char>
    {
        void SymPut(const char*, size_t) override
        {}
    };
    static SymNullBuf symNull;
    static basic_streambuf<char> symIn;
    basic_ostream<char> cout(&symNull), cerr(&symNull), clog(&symNull);
    basic_istream<char> cin(&symIn);

    namespace chrono
    {
        inline namespace _V2
        {
            steady_clock::time_point steady_clock::now() noexcept
            {
                return time_point(duration(symx_clock_ns));
            }
            system_clock::time_point system_clock::now() noexcept
            {
                return time_point(duration(symx_sysclock_ns));
            }
        }
    }
    void condition_variable::notify_one() noexcept
    {}
    void condition_variable::notify_all() noexcept
    {}
    void condition_variable::wait(unique_lock<mutex>&)
    {
        symx_prune();
    }
    condition_variable::condition_variable() noexcept
    {}
    condition_variable::~condition_variable() noexcept
    {}
}
template class std::basic_string<char>;

// ---------------------------------------------------------------- modelled file system
struct SymFile
{
    std::string Name;
    std::string Data;
    int Kind; // 1 file, 2 dir, 3 link
};
std::vector<SymFile>& SymFs()
{
    static std::vector<SymFile>* v = new std::vector<SymFile>();
    return *v;
}
static SymFile* symFind(const std::string& n)
{
    for (auto& f: SymFs())
        if (f.Name == n)
            return &f;
    return nullptr;
}
// fault hook: op 1 open, 2 write, 3 rename, 4 remove, 5 mkdir, 6 close/fsync; returns errno (0 = proceed)
extern "C" __attribute__((weak)) int symx_fs_fault(int op, const char* name)
{
    (void)op, (void)name;
    return 0;
}
extern "C" int symx_fs_open(const char* name, int mode)
{
    if (symx_fs_fault(1, name))
        return -1;
    auto f = symFind(name);
    if (mode & 2) {
        if (f && f->Kind == 2)
            return -1;
        if (!f) {
            std::string n(name);
            auto slash = n.rfind('/');
            if (slash != std::string::npos && slash) {
                auto dir = symFind(n.substr(0, slash));
                if (!dir || dir->Kind != 2)
                    return -1;
            }
            SymFs().push_back({n, "", 1});
            f = &SymFs().back();
        } else if (!(mode & 4) && !(mode & 1))
            f->Data.clear();
    }
    if (!f || f->Kind == 2)
        return -1;
    return (int)(f - SymFs().data());
}
extern "C" void symx_fs_read(int h, std::string* out)
{
    *out = SymFs()[(size_t)h].Data;
}
extern "C" bool symx_fs_write(int h, const char* p, unsigned long n)
{
    auto& f = SymFs()[(size_t)h];
    if (symx_fs_fault(2, f.Name.c_str()))
        return false;
    f.Data.append(p, n);
    return true;
}
extern "C" int symx_fs_stat(const char* name)
{
    auto f = symFind(name);
    return f ? f->Kind : 0;
}
extern "C" int symx_fs_remove(const char* name)
{
    if (int e = symx_fs_fault(4, name))
        return e;
    auto f = symFind(name);
    if (!f)
        return -1;
    f->Name.clear();
    f->Kind = 0;
    return 0;
}
extern "C" int symx_fs_rename(const char* a, const char* b)
{
    if (int e = symx_fs_fault(3, b))
        return e;
    auto f = symFind(a);
    if (!f)
        return ENOENT;
    auto g = symFind(b);
    if (g && g != f) {
        g->Name.clear();
        g->Kind = 0;
    }
    f->Name = b;
    return 0;
}
extern "C" int symx_fs_mkdirs(const char* name)
{
    if (int e = symx_fs_fault(5, name))
        return e;
    std::string n(name);
    if (auto f = symFind(n))
        return f->Kind == 2 ? -1 : ENOTDIR;
    for (size_t i = n.find('/', 1); i != std::string::npos; i = n.find('/', i + 1)) {
        auto f = symFind(n.substr(0, i));
        if (!f)
            SymFs().push_back({n.substr(0, i), "", 2});
        else if (f->Kind != 2)
            return ENOTDIR;
    }
    SymFs().push_back({n, "", 2});
    return 0;
}
extern "C" void symx_fs_list(const char* dir, std::vector<std::string>* out)
{
    std::string d(dir);
    d += '/';
    for (auto& f: SymFs())
        if (f.Kind && f.Name.size() > d.size() && f.Name.compare(0, d.size(), d) == 0 &&
            f.Name.find('/', d.size()) == std::string::npos)
            out->push_back(f.Name.substr(d.size()));
}
