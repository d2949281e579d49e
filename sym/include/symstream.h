// Minimal iostreams for symbolic execution: same observable behaviour as libstdc++ for the subset used by the
// code under test (string streams, std::cout/cerr, file streams over the modelled file system of rt.cpp).
#pragma once
#include <bits/stringfwd.h>
#include <iosfwd>
#include <string>
#include <bits/functexcept.h>
#include <bits/localefwd.h>
#include <stdexcept>
#include <system_error>
#include <cstring>

extern "C" int symx_fmt_double(char* buf, unsigned long n, const char* fmt, double v);
extern "C" double symx_parse_double(const char* s, char** end);

// modelled file system (rt.cpp)
extern "C" int symx_fs_open(const char* name, int mode); // mode: 1 in, 2 out, 4 app; returns handle or -1
extern "C" void symx_fs_read(int h, std::string* out);
extern "C" bool symx_fs_write(int h, const char* p, unsigned long n);

namespace std
{
    typedef long streamoff_sym;

    class ios_base
    {
    public:
        typedef unsigned fmtflags;
        typedef unsigned iostate;
        typedef unsigned openmode;
        typedef unsigned seekdir;
        static constexpr fmtflags dec = 2, hex = 8, oct = 64, basefield = 2 | 8 | 64, left = 32, right = 128,
                                  internal = 16, adjustfield = 32 | 128 | 16, showbase = 512, uppercase = 16384,
                                  boolalpha = 1, fixed = 4, scientific = 256, floatfield = 260, showpos = 2048,
                                  skipws = 4096, unitbuf = 8192, showpoint = 1024;
        static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
        static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
        static constexpr seekdir beg = 0, cur = 1, end = 2;
        class failure: public runtime_error
        {
        public:
            explicit failure(const string& s): runtime_error(s)
            {}
        };
        struct Init
        {};
        fmtflags flags() const
        {
            return Flags;
        }
        fmtflags flags(fmtflags f)
        {
            fmtflags o = Flags;
            Flags = f;
            return o;
        }
        fmtflags setf(fmtflags f)
        {
            fmtflags o = Flags;
            Flags |= f;
            return o;
        }
        fmtflags setf(fmtflags f, fmtflags m)
        {
            fmtflags o = Flags;
            Flags = (Flags & ~m) | (f & m);
            return o;
        }
        void unsetf(fmtflags f)
        {
            Flags &= ~f;
        }
        long width() const
        {
            return Width;
        }
        long width(long w)
        {
            long o = Width;
            Width = w;
            return o;
        }
        long precision() const
        {
            return Prec;
        }
        long precision(long w)
        {
            long o = Prec;
            Prec = w;
            return o;
        }
        virtual ~ios_base()
        {}

    protected:
        fmtflags Flags = dec | skipws;
        long Width = 0, Prec = 6;
    };

    template<> class basic_streambuf<char, char_traits<char>>
    {
    public:
        string Data;
        size_t Pos = 0;
        virtual ~basic_streambuf()
        {}
        virtual void SymPut(const char* p, size_t n)
        {
            Data.append(p, n);
        }
    };

    template<> class basic_ios<char, char_traits<char>>: public ios_base
    {
    public:
        typedef char char_type;
        typedef char_traits<char> traits_type;
        bool good() const
        {
            return St == 0;
        }
        bool eof() const
        {
            return St & eofbit;
        }
        bool fail() const
        {
            return St & (badbit | failbit);
        }
        bool bad() const
        {
            return St & badbit;
        }
        explicit operator bool() const
        {
            return !fail();
        }
        bool operator!() const
        {
            return fail();
        }
        iostate rdstate() const
        {
            return St;
        }
        void setstate(iostate s)
        {
            St |= s;
        }
        void clear(iostate s = 0)
        {
            St = s;
        }
        char fill() const
        {
            return Fill;
        }
        char fill(char c)
        {
            char o = Fill;
            Fill = c;
            return o;
        }
        void exceptions(iostate)
        {}
        basic_streambuf<char, char_traits<char>>* rdbuf() const
        {
            return Buf;
        }

        basic_streambuf<char, char_traits<char>>* Buf = nullptr;
        iostate St = 0;
        char Fill = ' ';
    };

    template<> class basic_ostream<char, char_traits<char>>: virtual public basic_ios<char, char_traits<char>>
    {
    public:
        typedef basic_ostream<char, char_traits<char>> Self;
        basic_ostream()
        {}
        explicit basic_ostream(basic_streambuf<char, char_traits<char>>* b)
        {
            Buf = b;
        }
        void SymRaw(const char* p, size_t n)
        {
            if (Buf)
                Buf->SymPut(p, n);
        }
        // honours width/fill/left like operator<< for strings
        Self& SymPad(const char* p, size_t n)
        {
            size_t w = Width > 0 ? (size_t)Width : 0;
            if (w > n && !(Flags & left))
                for (size_t i = n; i < w; ++i)
                    SymRaw(&Fill, 1);
            SymRaw(p, n);
            if (w > n && (Flags & left))
                for (size_t i = n; i < w; ++i)
                    SymRaw(&Fill, 1);
            Width = 0;
            return *this;
        }
        Self& SymNum(unsigned long v, bool neg)
        {
            char b[72];
            int i = sizeof b;
            unsigned base = (Flags & basefield) == hex ? 16 : (Flags & basefield) == oct ? 8 : 10;
            bool up = Flags & uppercase;
            do {
                unsigned d;
                if (base == 16) {
                    d = v & 15;
                    v >>= 4;
                } else if (base == 8) {
                    d = v & 7;
                    v >>= 3;
                } else {
                    d = v % 10;
                    v /= 10;
                }
                b[--i] = (up ? "0123456789ABCDEF" : "0123456789abcdef")[d];
            } while (v);
            if ((Flags & showbase) && base == 16 && !(b[i] == '0' && i == (int)sizeof b - 1)) {
                b[--i] = up ? 'X' : 'x';
                b[--i] = '0';
            }
            if (neg)
                b[--i] = '-';
            else if ((Flags & showpos) && base == 10)
                b[--i] = '+';
            return SymPad(b + i, sizeof b - i);
        }
        bool SymSigned() const
        {
            return (Flags & basefield) != hex && (Flags & basefield) != oct;
        }
        Self& operator<<(bool v)
        {
            if (Flags & boolalpha)
                return v ? SymPad("true", 4) : SymPad("false", 5);
            return SymNum(v, false);
        }
        Self& operator<<(short v)
        {
            return SymSigned() && v < 0 ? SymNum(-(long)v, true) : SymNum((unsigned short)v, false);
        }
        Self& operator<<(unsigned short v)
        {
            return SymNum(v, false);
        }
        Self& operator<<(int v)
        {
            return SymSigned() && v < 0 ? SymNum(-(long)v, true) : SymNum((unsigned)v, false);
        }
        Self& operator<<(unsigned v)
        {
            return SymNum(v, false);
        }
        Self& operator<<(long v)
        {
            return SymSigned() && v < 0 ? SymNum(-(unsigned long)v, true) : SymNum((unsigned long)v, false);
        }
        Self& operator<<(unsigned long v)
        {
            return SymNum(v, false);
        }
        Self& operator<<(long long v)
        {
            return *this << (long)v;
        }
        Self& operator<<(unsigned long long v)
        {
            return SymNum(v, false);
        }
        Self& operator<<(double v)
        {
            char fmt[16];
            int k = 0;
            fmt[k++] = '%';
            if (Flags & showpos)
                fmt[k++] = '+';
            fmt[k++] = '.';
            if (Prec >= 10)
                fmt[k++] = '0' + (char)(Prec / 10 % 10);
            fmt[k++] = '0' + (char)(Prec % 10);
            fmt[k++] = (Flags & floatfield) == fixed ? 'f' : (Flags & floatfield) == scientific ? 'e' : 'g';
            fmt[k] = 0;
            char b[400];
            int n = symx_fmt_double(b, sizeof b, fmt, v);
            return SymPad(b, n);
        }
        Self& operator<<(float v)
        {
            return *this << (double)v;
        }
        Self& operator<<(const void* p)
        {
            fmtflags f = Flags;
            Flags = (Flags & ~basefield) | hex | showbase;
            SymNum((unsigned long)p, false);
            Flags = f;
            return *this;
        }
        Self& operator<<(nullptr_t)
        {
            return SymPad("nullptr", 7);
        }
        Self& operator<<(Self& (*f)(Self&))
        {
            return f(*this);
        }
        Self& operator<<(ios_base& (*f)(ios_base&))
        {
            f(*this);
            return *this;
        }
        Self& operator<<(basic_ios<char, char_traits<char>>& (*f)(basic_ios<char, char_traits<char>>&))
        {
            f(*this);
            return *this;
        }
        Self& operator<<(basic_streambuf<char, char_traits<char>>* b)
        {
            if (b) {
                SymRaw(b->Data.data() + b->Pos, b->Data.size() - b->Pos);
                b->Pos = b->Data.size();
            }
            return *this;
        }
        Self& put(char c)
        {
            SymRaw(&c, 1);
            return *this;
        }
        Self& write(const char* p, long n)
        {
            if (St) {
                St |= badbit;
                return *this;
            }
            SymRaw(p, (size_t)n);
            return *this;
        }
        Self& flush()
        {
            return *this;
        }
        streamoff_sym tellp()
        {
            return Buf ? (long)Buf->Data.size() : -1;
        }
    };

    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, char c)
    {
        return o.SymPad(&c, 1);
    }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, signed char c)
    {
        return o << (char)c;
    }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, unsigned char c)
    {
        return o << (char)c;
    }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const char* s)
    {
        if (!s) {
            o.setstate(ios_base::badbit);
            return o;
        }
        return o.SymPad(s, strlen(s));
    }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const unsigned char* s)
    {
        return o << (const char*)s;
    }
    inline basic_ostream<char>& __ostream_insert(basic_ostream<char>& o, const char* s, long n)
    {
        return o.SymPad(s, (size_t)n);
    }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const string& s)
    {
        return o.SymPad(s.data(), s.size());
    }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, string_view s)
    {
        return o.SymPad(s.data(), s.size());
    }
    template<typename O, typename T>
        requires(is_base_of_v<ios_base, remove_reference_t<O>> && !is_lvalue_reference_v<O>)
    inline O&& operator<<(O&& o, const T& v)
    {
        o << v;
        return std::move(o);
    }
    inline basic_ostream<char>& endl(basic_ostream<char>& o)
    {
        o.put('\n');
        return o;
    }
    inline basic_ostream<char>& ends(basic_ostream<char>& o)
    {
        o.put('\0');
        return o;
    }
    inline basic_ostream<char>& flush(basic_ostream<char>& o)
    {
        return o;
    }
    inline ios_base& hex(ios_base& b)
    {
        b.setf(ios_base::hex, ios_base::basefield);
        return b;
    }
    inline ios_base& dec(ios_base& b)
    {
        b.setf(ios_base::dec, ios_base::basefield);
        return b;
    }
    inline ios_base& oct(ios_base& b)
    {
        b.setf(ios_base::oct, ios_base::basefield);
        return b;
    }
    inline ios_base& fixed(ios_base& b)
    {
        b.setf(ios_base::fixed, ios_base::floatfield);
        return b;
    }
    inline ios_base& scientific(ios_base& b)
    {
        b.setf(ios_base::scientific, ios_base::floatfield);
        return b;
    }
    inline ios_base& left(ios_base& b)
    {
        b.setf(ios_base::left, ios_base::adjustfield);
        return b;
    }
    inline ios_base& right(ios_base& b)
    {
        b.setf(ios_base::right, ios_base::adjustfield);
        return b;
    }
    inline ios_base& uppercase(ios_base& b)
    {
        b.setf(ios_base::uppercase);
        return b;
    }
    inline ios_base& nouppercase(ios_base& b)
    {
        b.unsetf(ios_base::uppercase);
        return b;
    }
    inline ios_base& showbase(ios_base& b)
    {
        b.setf(ios_base::showbase);
        return b;
    }
    inline ios_base& noshowbase(ios_base& b)
    {
        b.unsetf(ios_base::showbase);
        return b;
    }
    inline ios_base& boolalpha(ios_base& b)
    {
        b.setf(ios_base::boolalpha);
        return b;
    }
    inline ios_base& noboolalpha(ios_base& b)
    {
        b.unsetf(ios_base::boolalpha);
        return b;
    }
    inline ios_base& skipws(ios_base& b)
    {
        b.setf(ios_base::skipws);
        return b;
    }
    inline ios_base& noskipws(ios_base& b)
    {
        b.unsetf(ios_base::skipws);
        return b;
    }
    struct _SetwS
    {
        long n;
    };
    struct _SetpS
    {
        long n;
    };
    struct _SetfillS
    {
        char c;
    };
    struct _SetbaseS
    {
        int b;
    };
    inline _SetwS setw(int n)
    {
        return {n};
    }
    inline _SetpS setprecision(int n)
    {
        return {n};
    }
    inline _SetfillS setfill(char c)
    {
        return {c};
    }
    inline _SetbaseS setbase(int b)
    {
        return {b};
    }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, _SetwS s)
    {
        o.width(s.n);
        return o;
    }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, _SetpS s)
    {
        o.precision(s.n);
        return o;
    }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, _SetfillS s)
    {
        o.fill(s.c);
        return o;
    }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, _SetbaseS s)
    {
        o.setf(s.b == 16 ? ios_base::hex : s.b == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield);
        return o;
    }
    template<typename S> inline const S& quoted(const S& s, char = '"', char = '\\')
    {
        return s;
    }
    namespace __detail
    {
        template<typename S, typename C> struct _Quoted_string
        {
            S s;
            C d, e;
        };
    }

    template<> class basic_istream<char, char_traits<char>>: virtual public basic_ios<char, char_traits<char>>
    {
    public:
        typedef basic_istream<char, char_traits<char>> Self;
        size_t Cnt = 0;
        basic_istream()
        {}
        explicit basic_istream(basic_streambuf<char, char_traits<char>>* b)
        {
            Buf = b;
        }
        class sentry
        {
            bool Ok;

        public:
            explicit sentry(Self& s, bool noskip = false)
            {
                Ok = s.SymSentry(noskip);
            }
            explicit operator bool() const
            {
                return Ok;
            }
        };
        bool SymMore() const
        {
            return Buf && Buf->Pos < Buf->Data.size();
        }
        char SymPeek() const
        {
            return Buf->Data[Buf->Pos];
        }
        bool SymSentry(bool noskip)
        {
            if (St) {
                St |= failbit;
                return false;
            }
            if (!noskip && (Flags & skipws)) {
                while (SymMore()) {
                    char c = SymPeek();
                    if (!(c == ' ' || (c >= 9 && c <= 13)))
                        break;
                    Buf->Pos++;
                }
                if (!SymMore()) {
                    St |= eofbit | failbit;
                    return false;
                }
            }
            return true;
        }
        int get()
        {
            Cnt = 0;
            if (!SymSentry(true))
                return -1;
            if (!SymMore()) {
                St |= eofbit | failbit;
                return -1;
            }
            Cnt = 1;
            return (unsigned char)Buf->Data[Buf->Pos++];
        }
        Self& get(char& c)
        {
            int r = get();
            if (r >= 0)
                c = (char)r;
            return *this;
        }
        int peek()
        {
            Cnt = 0;
            if (St)
                return -1;
            if (!SymMore()) {
                St |= eofbit;
                return -1;
            }
            return (unsigned char)SymPeek();
        }
        Self& read(char* p, long n)
        {
            Cnt = 0;
            if (!SymSentry(true))
                return *this;
            while ((long)Cnt < n && SymMore())
                p[Cnt++] = Buf->Data[Buf->Pos++];
            if ((long)Cnt < n)
                St |= eofbit | failbit;
            return *this;
        }
        long gcount() const
        {
            return (long)Cnt;
        }
        Self& ignore(long n = 1, int d = -1)
        {
            for (long i = 0; i < n && SymMore(); ++i)
                if ((unsigned char)Buf->Data[Buf->Pos++] == d)
                    break;
            return *this;
        }
        long tellg()
        {
            return fail() ? -1 : (long)Buf->Pos;
        }
        Self& seekg(long p)
        {
            St &= ~eofbit;
            if (!fail())
                Buf->Pos = (size_t)p;
            return *this;
        }
        Self& seekg(long p, seekdir d)
        {
            return seekg(d == beg ? p : d == cur ? (long)Buf->Pos + p : (long)Buf->Data.size() + p);
        }
        // integers: collects digits and checks the range
        bool SymInt(unsigned long& v, bool& neg, bool& over)
        {
            v = 0;
            neg = over = false;
            if (!SymSentry(false))
                return false;
            unsigned base = (Flags & basefield) == hex ? 16 : (Flags & basefield) == oct ? 8 : 10;
            if (SymPeek() == '-' || SymPeek() == '+') {
                neg = SymPeek() == '-';
                Buf->Pos++;
            }
            bool any = false;
            if (base == 16 && SymMore() && SymPeek() == '0') {
                any = true;
                Buf->Pos++;
                if (SymMore() && (SymPeek() == 'x' || SymPeek() == 'X')) {
                    any = false;
                    Buf->Pos++;
                }
            }
            while (SymMore()) {
                char c = SymPeek();
                unsigned d;
                if (c >= '0' && c <= '9')
                    d = c - '0';
                else if (base == 16 && c >= 'a' && c <= 'f')
                    d = c - 'a' + 10;
                else if (base == 16 && c >= 'A' && c <= 'F')
                    d = c - 'A' + 10;
                else
                    break;
                if (d >= base)
                    break;
                any = true;
                unsigned long nv;
                if (__builtin_mul_overflow(v, (unsigned long)base, &nv) ||
                    __builtin_add_overflow(nv, (unsigned long)d, &nv))
                    over = true;
                v = nv;
                Buf->Pos++;
            }
            if (!SymMore())
                St |= eofbit;
            if (!any) {
                St |= failbit;
                v = 0;
            }
            return any;
        }
        template<class T> Self& SymGetSigned(T& x)
        {
            unsigned long v;
            bool neg, over;
            constexpr unsigned long mx = (1ul << (sizeof(T) * 8 - 1)) - 1;
            if (!SymInt(v, neg, over)) {
                if (St & failbit)
                    x = 0;
                return *this;
            }
            if (over || v > mx + (neg ? 1 : 0)) {
                x = neg ? (T)(-(long)mx - 1) : (T)mx;
                St |= failbit;
            } else
                x = (T)(neg ? -v : v);
            return *this;
        }
        template<class T> Self& SymGetUnsigned(T& x)
        {
            unsigned long v;
            bool neg, over;
            constexpr unsigned long mx = sizeof(T) == 8 ? ~0ul : ((1ul << (sizeof(T) * 8 % 64)) - 1);
            if (!SymInt(v, neg, over)) {
                if (St & failbit)
                    x = 0;
                return *this;
            }
            if (over || v > mx) {
                x = (T)mx;
                St |= failbit;
            } else
                x = (T)(neg ? -v : v);
            return *this;
        }
        Self& operator>>(short& v)
        {
            return SymGetSigned(v);
        }
        Self& operator>>(int& v)
        {
            return SymGetSigned(v);
        }
        Self& operator>>(long& v)
        {
            return SymGetSigned(v);
        }
        Self& operator>>(long long& v)
        {
            return SymGetSigned(v);
        }
        Self& operator>>(unsigned short& v)
        {
            return SymGetUnsigned(v);
        }
        Self& operator>>(unsigned& v)
        {
            return SymGetUnsigned(v);
        }
        Self& operator>>(unsigned long& v)
        {
            return SymGetUnsigned(v);
        }
        Self& operator>>(unsigned long long& v)
        {
            return SymGetUnsigned(v);
        }
        Self& operator>>(bool& b)
        {
            unsigned long v = 0;
            SymGetUnsigned(v);
            b = v != 0;
            return *this;
        }
        Self& operator>>(double& d)
        {
            if (!SymSentry(false))
                return *this;
            const char* p = Buf->Data.c_str() + Buf->Pos;
            char* e;
            d = symx_parse_double(p, &e);
            Buf->Pos += e - p;
            if (e == p)
                St |= failbit;
            if (!SymMore())
                St |= eofbit;
            return *this;
        }
        Self& operator>>(float& d)
        {
            double x = 0;
            *this >> x;
            d = (float)x;
            return *this;
        }
        Self& operator>>(Self& (*f)(Self&))
        {
            return f(*this);
        }
        Self& operator>>(ios_base& (*f)(ios_base&))
        {
            f(*this);
            return *this;
        }
    };
    inline basic_istream<char>& operator>>(basic_istream<char>& i, char& c)
    {
        if (i.SymSentry(false))
            c = i.Buf->Data[i.Buf->Pos++];
        return i;
    }
    inline basic_istream<char>& operator>>(basic_istream<char>& i, unsigned char& c)
    {
        return i >> (char&)c;
    }
    inline basic_istream<char>& operator>>(basic_istream<char>& i, string& s)
    {
        if (!i.SymSentry(false))
            return i;
        s.clear();
        while (i.SymMore()) {
            char c = i.SymPeek();
            if (c == ' ' || (c >= 9 && c <= 13))
                break;
            s += c;
            i.Buf->Pos++;
        }
        if (!i.SymMore())
            i.setstate(ios_base::eofbit);
        i.width(0);
        return i;
    }
    inline basic_istream<char>& operator>>(basic_istream<char>& i, _SetwS s)
    {
        i.width(s.n);
        return i;
    }
    inline basic_istream<char>& getline(basic_istream<char>& i, string& s, char d)
    {
        if (!i.SymSentry(true)) {
            return i;
        }
        s.clear();
        bool any = false;
        while (true) {
            if (!i.SymMore()) {
                i.setstate(any ? ios_base::eofbit : (ios_base::eofbit | ios_base::failbit));
                return i;
            }
            char c = i.Buf->Data[i.Buf->Pos++];
            any = true;
            if (c == d)
                return i;
            s += c;
        }
    }
    inline basic_istream<char>& getline(basic_istream<char>& i, string& s)
    {
        return getline(i, s, '\n');
    }
    inline basic_istream<char>& getline(basic_istream<char>&& i, string& s, char d)
    {
        return getline(i, s, d);
    }
    inline basic_istream<char>& ws(basic_istream<char>& i)
    {
        while (i.SymMore() && (i.SymPeek() == ' ' || (i.SymPeek() >= 9 && i.SymPeek() <= 13)))
            i.Buf->Pos++;
        return i;
    }

    template<> class basic_iostream<char, char_traits<char>>: public basic_istream<char>, public basic_ostream<char>
    {};

    template<> class basic_stringbuf<char, char_traits<char>, allocator<char>>: public basic_streambuf<char>
    {};

    template<> class basic_stringstream<char, char_traits<char>, allocator<char>>: public basic_iostream<char>
    {
        basic_stringbuf<char> B;

    public:
        basic_stringstream(openmode = in | out)
        {
            Buf = &B;
        }
        explicit basic_stringstream(const string& s, openmode = in | out)
        {
            Buf = &B;
            B.Data = s;
        }
        string str() const
        {
            return B.Data;
        }
        void str(const string& s)
        {
            B.Data = s;
            B.Pos = 0;
        }
    };
    template<> class basic_ostringstream<char, char_traits<char>, allocator<char>>: public basic_ostream<char>
    {
        basic_stringbuf<char> B;

    public:
        basic_ostringstream(openmode = out)
        {
            Buf = &B;
        }
        explicit basic_ostringstream(const string& s, openmode = out)
        {
            Buf = &B;
            (void)s;
        }
        string str() const
        {
            return B.Data;
        }
        void str(const string& s)
        {
            B.Data = s;
        }
    };
    template<> class basic_istringstream<char, char_traits<char>, allocator<char>>: public basic_istream<char>
    {
        basic_stringbuf<char> B;

    public:
        basic_istringstream(openmode = in)
        {
            Buf = &B;
        }
        explicit basic_istringstream(const string& s, openmode = in)
        {
            Buf = &B;
            B.Data = s;
        }
        string str() const
        {
            return B.Data;
        }
        void str(const string& s)
        {
            B.Data = s;
            B.Pos = 0;
        }
    };

    template<> class basic_filebuf<char, char_traits<char>>: public basic_streambuf<char>
    {
    public:
        int H = -1;
        bool* Fail = nullptr;
        ios_base::iostate* St = nullptr;
        void SymPut(const char* p, size_t n) override
        {
            if (H < 0 || !symx_fs_write(H, p, n))
                if (St)
                    *St |= ios_base::badbit;
        }
    };
#define SYMX_FSTREAM(NAME, BASE, DEFMODE)                                                                            \
    template<> class NAME<char, char_traits<char>>: public BASE<char>                                                \
    {                                                                                                                \
        basic_filebuf<char> B;                                                                                       \
                                                                                                                     \
    public:                                                                                                          \
        NAME()                                                                                                       \
        {                                                                                                            \
            Buf = &B;                                                                                                \
            B.St = &St;                                                                                              \
        }                                                                                                            \
        explicit NAME(const char* n, openmode m = DEFMODE)                                                           \
        {                                                                                                            \
            Buf = &B;                                                                                                \
            B.St = &St;                                                                                              \
            open(n, m);                                                                                              \
        }                                                                                                            \
        explicit NAME(const string& n, openmode m = DEFMODE): NAME(n.c_str(), m)                                     \
        {}                                                                                                           \
        template<class P>                                                                                            \
            requires(requires(const P& p) { p.native(); })                                                           \
        explicit NAME(const P& n, openmode m = DEFMODE): NAME(n.c_str(), m)                                          \
        {}                                                                                                           \
        void open(const string& n, openmode m = DEFMODE)                                                             \
        {                                                                                                            \
            open(n.c_str(), m);                                                                                      \
        }                                                                                                            \
        void open(const char* n, openmode m = DEFMODE)                                                               \
        {                                                                                                            \
            m |= (DEFMODE);                                                                                            \
            B.H = symx_fs_open(n, (m & in ? 1 : 0) | (m & out ? 2 : 0) | (m & app ? 4 : 0));                         \
            if (B.H < 0)                                                                                             \
                St |= failbit;                                                                                       \
            else if (m & in)                                                                                         \
                symx_fs_read(B.H, &B.Data);                                                                          \
        }                                                                                                            \
        bool is_open() const                                                                                         \
        {                                                                                                            \
            return B.H >= 0;                                                                                         \
        }                                                                                                            \
        void close()                                                                                                 \
        {                                                                                                            \
            B.H = -1;                                                                                                \
        }                                                                                                            \
    };
    SYMX_FSTREAM(basic_ifstream, basic_istream, ios_base::in)
    SYMX_FSTREAM(basic_ofstream, basic_ostream, ios_base::out)
    SYMX_FSTREAM(basic_fstream, basic_iostream, ios_base::in | ios_base::out)

    template<> class istreambuf_iterator<char, char_traits<char>>
    {
        basic_streambuf<char>* B = nullptr;

    public:
        typedef input_iterator_tag iterator_category;
        typedef char value_type;
        typedef long difference_type;
        typedef char* pointer;
        typedef char reference;
        istreambuf_iterator()
        {}
        istreambuf_iterator(basic_istream<char>& i): B(i.Buf)
        {}
        bool AtEnd() const
        {
            return !B || B->Pos >= B->Data.size();
        }
        char operator*() const
        {
            return B->Data[B->Pos];
        }
        istreambuf_iterator& operator++()
        {
            B->Pos++;
            return *this;
        }
        istreambuf_iterator operator++(int)
        {
            auto t = *this;
            B->Pos++;
            return t;
        }
        bool operator==(const istreambuf_iterator& o) const
        {
            return AtEnd() == o.AtEnd();
        }
        bool operator!=(const istreambuf_iterator& o) const
        {
            return AtEnd() != o.AtEnd();
        }
    };

    extern basic_ostream<char> cout, cerr, clog;
    extern basic_istream<char> cin;

    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const error_code& e)
    {
        return o << e.value();
    }
}
