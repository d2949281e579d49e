// Stand-in for libwbmqtt1's log.h (absent here): evaluates its arguments, prints nothing.
#pragma once
#include <chrono>
#include <iomanip>
#include <ostream>
#include <sstream>
#include <string>
#include <thread>
namespace WBMQTT
{
    struct TLogLine
    {
        template<class T> TLogLine& operator<<(const T&)
        {
            return *this;
        }
        TLogLine& operator<<(std::ostream& (*)(std::ostream&))
        {
            return *this;
        }
        TLogLine& operator<<(std::ios_base& (*)(std::ios_base&))
        {
            return *this;
        }
    };
    class TLogger
    {
    public:
        enum TOutput
        {
            StdErr,
            StdOut
        };
        enum TColor
        {
            RED,
            YELLOW,
            GREY,
            WHITE
        };
        enum class EColorUsage
        {
            OFF,
            ON
        };
        TLogger(const std::string&, TOutput, int, bool enabled = true, EColorUsage = EColorUsage::ON): Enabled(enabled)
        {}
        TLogLine Log()
        {
            return TLogLine();
        }
        bool IsEnabled() const
        {
            return Enabled;
        }
        void SetEnabled(bool e)
        {
            Enabled = e;
        }

    private:
        bool Enabled;
    };
    extern TLogger Error, Warn, Info, Debug;
}
