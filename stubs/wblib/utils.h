// Stand-in for libwbmqtt1's utils.h
#pragma once
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include "exceptions.h"
// A harness may take over number formatting (kind 0 = "%.7g", 1 = "%.15g", -1 = other) for the double being formatted.
extern "C" __attribute__((weak)) bool symx_format_hook(const char* fmt, double v, std::string* out);
namespace WBMQTT
{
    inline bool StringStartsWith(const std::string& s, const std::string& p)
    {
        return s.size() >= p.size() && s.compare(0, p.size(), p) == 0;
    }
    inline bool StringHasSuffix(const std::string& s, const std::string& p)
    {
        return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0;
    }
    inline std::vector<std::string> StringSplit(const std::string& s, const std::string& d)
    {
        std::vector<std::string> res;
        size_t from = 0;
        while (true) {
            size_t p = s.find(d, from);
            if (p == std::string::npos)
                break;
            res.push_back(s.substr(from, p - from));
            from = p + d.size();
        }
        res.push_back(s.substr(from));
        return res;
    }
    inline std::vector<std::string> StringSplit(const std::string& s, char d)
    {
        return StringSplit(s, std::string(1, d));
    }
    inline std::string StringFormat(const char* fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        if (symx_format_hook && fmt[0] == '%' && fmt[strlen(fmt) - 1] == 'g') {
            double v = va_arg(ap, double);
            std::string out;
            va_end(ap);
            if (symx_format_hook(fmt, v, &out))
                return out;
            char b[64];
            snprintf(b, sizeof(b), fmt, v);
            return b;
        }
        char buf[512];
        vsnprintf(buf, sizeof(buf), fmt, ap);
        va_end(ap);
        return buf;
    }
    inline std::string HexDump(const uint8_t* p, size_t n)
    {
        static const char* hex = "0123456789abcdef";
        std::string res;
        for (size_t i = 0; i < n; ++i) {
            if (i)
                res += ' ';
            res += hex[p[i] >> 4];
            res += hex[p[i] & 15];
        }
        return res;
    }
    inline std::string HexDump(const std::vector<uint8_t>& v)
    {
        return HexDump(v.data(), v.size());
    }
    inline void SetThreadName(const std::string&)
    {}
}
