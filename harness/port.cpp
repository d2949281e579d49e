// C44 frames read from file descriptors, C45 times derived from the line speed
#include "devices/modbus_device.h"
#include "devices/lls_device.h"
#include "devices/curtains/dooya_device.h"
#include "port/feature_port.h"
#include "port/serial_port.h"
#include "port/tcp_port.h"
#include "running_average.h"
#include "symx.h"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <unistd.h>
using namespace std::chrono;
extern "C" int64_t symx_clock_ns;
static const int64_t US = 1000, FOREVER = INT64_MAX;
static const int FD = 7;
// the other side of the file descriptor
struct TChunk
{
    int64_t At;
    std::vector<uint8_t> Data; // empty: the descriptor is ready without data
};
static struct
{
    std::deque<TChunk> Coming;
    std::vector<uint8_t> Written;
    int WriteResult = -2; // -2: everything is written
    int Opened = 0, Closed = 0, ReadCalls = 0;
    bool NonBlocking = false, OpenFails = false, Waited = false;
    int ConnectError = 0, SelectResult = 1, SocketError = 0;
    termios Line;
    int LineSet = 0, Flushed = 0, AttrFails = 0;
    bool WriteOverlap = false;
} Io;
static void Reset()
{
    Io = decltype(Io)();
    memset(&Io.Line, 0, sizeof(Io.Line));
}
#ifdef SYMX_NATIVE
#define SYS(name) __wrap_##name
#else
#define SYS(name) name
#endif
extern "C"
{
    int SYS(select)(int n, fd_set* r, fd_set* w, fd_set* e, timeval* tv)
    {
        if (w) { // connecting
            errno = EINTR;
            return Io.SelectResult;
        }
        symx_assert(FD_ISSET(FD, r) && n == FD + 1, "the right descriptor is waited for");
        int64_t limit = FOREVER;
        if (tv)
            limit = symx_clock_ns + (tv->tv_sec * 1000000 + tv->tv_usec) * US;
        if (tv)
            symx_assert(tv->tv_usec >= 0 && tv->tv_usec < 1000000 && tv->tv_sec >= 0, "the time to wait is well-formed");
        if (Io.Coming.empty() || Io.Coming.front().At > limit) {
            symx_assert(tv != nullptr, "waiting for data is limited");
            symx_clock_ns = limit;
            return 0;
        }
        if (Io.Coming.front().At > symx_clock_ns)
            symx_clock_ns = Io.Coming.front().At;
        return 1;
    }
    int SYS(ioctl)(int fd, unsigned long request, ...)
    {
        va_list ap;
        va_start(ap, request);
        int* n = va_arg(ap, int*);
        va_end(ap);
        symx_assert(fd == FD && request == FIONREAD, "only the amount of data is requested");
        *n = 0;
        if (!Io.Coming.empty() && Io.Coming.front().Data.empty()) {
            Io.Coming.pop_front();
            return 0;
        }
        for (auto& c: Io.Coming) {
            if (c.At > symx_clock_ns)
                break;
            *n += (int)c.Data.size();
        }
        return 0;
    }
    ssize_t SYS(read)(int fd, void* buf, size_t count)
    {
        ++Io.ReadCalls;
        symx_assert(fd == FD, "the right descriptor is read");
        size_t n = 0;
        while (n < count && !Io.Coming.empty() && Io.Coming.front().At <= symx_clock_ns) {
            auto& d = Io.Coming.front().Data;
            while (n < count && !d.empty()) {
                ((uint8_t*)buf)[n++] = d.front();
                d.erase(d.begin());
            }
            if (d.empty())
                Io.Coming.pop_front();
        }
        return (ssize_t)n;
    }
    ssize_t SYS(write)(int fd, const void* buf, size_t count)
    {
        symx_assert(fd == FD, "the right descriptor is written");
        int n = Io.WriteResult == -2 ? (int)count : Io.WriteResult;
        for (int i = 0; i < n; ++i)
            Io.Written.push_back(((const uint8_t*)buf)[i]);
        return n;
    }
    int SYS(open)(const char* path, int flags, ...)
    {
        if (Io.OpenFails)
            return -1;
        ++Io.Opened;
        return FD;
    }
    int SYS(close)(int fd)
    {
        symx_assert(fd == FD, "the right descriptor is closed");
        ++Io.Closed;
        return 0;
    }
    int SYS(tcgetattr)(int, termios* t)
    {
        *t = Io.Line;
        return Io.AttrFails == 1 ? -1 : 0;
    }
    int SYS(tcsetattr)(int fd, int, const termios* t)
    {
        symx_assert(fd == FD, "the right line is set up");
        if (Io.AttrFails == 2)
            return -1;
        Io.Line = *t;
        ++Io.LineSet;
        return 0;
    }
    int SYS(tcflush)(int fd, int)
    {
        ++Io.Flushed;
        return Io.AttrFails == 3 ? -1 : 0;
    }
    int SYS(cfsetospeed)(termios* t, speed_t s)
    {
        t->c_ospeed = s;
        return 0;
    }
    int SYS(cfsetispeed)(termios* t, speed_t s)
    {
        t->c_ispeed = s;
        return 0;
    }
    int SYS(socket)(int, int, int)
    {
        if (Io.OpenFails)
            return -1;
        ++Io.Opened;
        return FD;
    }
    int SYS(fcntl)(int fd, int cmd, ...)
    {
        va_list ap;
        va_start(ap, cmd);
        long v = va_arg(ap, long);
        va_end(ap);
        if (cmd == F_SETFL)
            Io.NonBlocking = ((int)v & O_NONBLOCK) != 0;
        return cmd == F_GETFL && Io.NonBlocking ? O_NONBLOCK : 0;
    }
    int SYS(setsockopt)(int, int, int, const void*, socklen_t)
    {
        return 0;
    }
    int SYS(getsockopt)(int, int, int, void* v, socklen_t*)
    {
        *(int*)v = Io.SocketError;
        return 0;
    }
    int SYS(connect)(int, const sockaddr*, socklen_t)
    {
        symx_assert(Io.NonBlocking, "connecting does not block");
        errno = Io.ConnectError;
        return Io.ConnectError ? -1 : 0;
    }
    static sockaddr_in Address;
    static addrinfo AddressInfo;
    int SYS(getaddrinfo)(const char*, const char*, const addrinfo*, addrinfo** res)
    {
        AddressInfo = {};
        AddressInfo.ai_addr = (sockaddr*)&Address;
        AddressInfo.ai_addrlen = sizeof(Address);
        *res = &AddressInfo;
        return 0;
    }
    void SYS(freeaddrinfo)(addrinfo*)
    {}
    const char* SYS(gai_strerror)(int)
    {
        return "";
    }
}
class TPlainPort: public TFileDescriptorPort
{
public:
    void Open() override
    {
        Fd = FD;
        ++Io.Opened;
    }
    microseconds GetSendTimeBytes(double n) const override
    {
        return microseconds(0);
    }
    microseconds GetSendTimeBits(size_t n) const override
    {
        return microseconds(0);
    }
    std::string GetDescription(bool) const override
    {
        return "plain";
    }
};
static const int Speeds[] = {110, 300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200};
static const char Parities[] = {'N', 'E', 'O'};
enum
{
    PLAIN,
    SERIAL,
    TCP,
    FEATURE
};
static PPort OpenedPort(int kind)
{
    PPort p;
    if (kind == PLAIN)
        p = std::make_shared<TPlainPort>();
    else if (kind == TCP)
        p = std::make_shared<TTcpPort>(TTcpPortSettings("h", 1));
    else
        p = std::make_shared<TSerialPort>(TSerialPortSettings("nowhere/line", TSerialPortConnectionSettings(9600, 'N', 8, 2)));
    if (kind == FEATURE)
        p = std::make_shared<TFeaturePort>(p, false);
    p->Open();
    symx_assert(p->IsOpen(), "the port is open");
    return p;
}
// chunks of a reply arrive at any time; what ReadFrame may and must return
HARNESS h_read_frame()
{
    Reset();
    int kind = (int)Pick("port", (uint64_t)symx_param("k0", 0), (uint64_t)symx_param("k1", 3));
    auto port = OpenedPort(kind);
    int64_t start = symx_clock_ns;
    int minimal = kind != PLAIN && symx_param("minimal", 0) ? (int)SymRange("minimal response timeout", 0, 2000000) - 1 : -1;
    int64_t response = (int64_t)SymRange("response timeout", kind == PLAIN ? 1 : 0, 2000000);
    if (kind != PLAIN) {
        port->SetMinimalResponseTimeout(microseconds(minimal));
        response -= 1;
    }
    int64_t frame = (int64_t)SymRange("frame timeout", kind == PLAIN ? 1 : 0, 500000);
    size_t n = Pick("chunks", 0, (uint64_t)symx_param("chunks", 3)), size = Pick("buffer", 1, (uint64_t)symx_param("size", 4));
    std::vector<uint8_t> stream;
    std::vector<int64_t> at;    // time of every byte
    std::vector<size_t> ends;   // amount of data after every chunk
    int64_t t = start;
    for (size_t i = 0; i < n; ++i) {
        t += (int64_t)SymRange("pause", 0, 3000000) * US;
        TChunk c{t, SymBytes("data", Pick("length", 1, (uint64_t)symx_param("length", 2)))};
        for (auto b: c.Data) {
            stream.push_back(b);
            at.push_back(t);
        }
        ends.push_back(stream.size());
        Io.Coming.push_back(c);
    }
    int complete = (int)Pick("complete", 0, 2);
    size_t k = complete == 1 ? Pick("complete after", 1, 4) : 0;
    auto isComplete = [&](const uint8_t* b, size_t len) {
        if (complete == 2)
            return len && b[len - 1] == 0x0d;
        return complete == 1 && len >= k;
    };
    TPort::TFrameCompletePred pred;
    if (complete)
        pred = [&](uint8_t* b, int len) { return isComplete(b, (size_t)len); };
    std::vector<uint8_t> buf(size + 2, 0xA5);
    // what has to be waited for, and some time more
    const int64_t more = 700000;
    int64_t firstMin = response > minimal ? response : minimal;
    if (firstMin < 0)
        firstMin = 500000;
    size_t got = 0;
    try {
        auto res = port->ReadFrame(buf.data(), size, microseconds(response), microseconds(frame), pred);
        got = res.Count;
        symx_assert(got > 0, "a frame has data");
        symx_assert(res.ResponseTime == microseconds((at[0] - start) / US), "the response time is that of the first data");
    } catch (const TResponseTimeoutException&) {
        symx_assert(stream.empty() || at[0] - start > firstMin * US, "data that comes in time is received");
        symx_assert(symx_clock_ns - start >= firstMin * US && symx_clock_ns - start <= (firstMin + more) * US, "the response is waited for as long as requested");
        symx_reach("silence");
        return;
    }
    symx_assert(got <= size && got <= stream.size(), "not more than the buffer holds");
    for (size_t i = 0; i < size + 2; ++i)
        symx_assert(buf[i] == (i < got ? stream[i] : 0xA5), "exactly the received bytes");
    symx_assert(at[0] - start <= (firstMin + more) * US, "a late response is not waited for");
    // a byte inside a chunk that has arrived belongs to the frame
    for (size_t i = 1; i < got; ++i)
        symx_assert(at[i] - at[i - 1] <= (frame + more) * US, "a pause ends the frame");
    bool full = got == size, over = isComplete(stream.data(), got);
    if (got < stream.size() && !full && !over)
        symx_assert(at[got] - at[got - 1] > frame * US, "a frame lasts until a pause");
    if (!full && !over) {
        symx_assert(symx_clock_ns - at[got - 1] >= frame * US, "the end of the frame is waited for");
        symx_assert(symx_clock_ns - at[got - 1] <= (frame + more) * US, "the end of the frame is not waited for too long");
        symx_reach("pause");
    } else
        symx_assert(symx_clock_ns - at[got - 1] <= 200 * US, "a complete frame is returned at once");
    // nothing is read beyond a complete frame if the rest came later
    for (size_t i = 0; i + 1 < ends.size(); ++i)
        if (ends[i] < got && at[ends[i]] != at[ends[i] - 1])
            symx_assert(!isComplete(stream.data(), ends[i]), "reading ends when the frame is complete");
    if (over)
        symx_reach("complete");
    if (full)
        symx_reach("full");
    // the silence before the next request is counted from the end of the frame
    int64_t end = symx_clock_ns, wait = (int64_t)SymRange("silence", 0, 100000), busy = (int64_t)SymRange("busy", 0, 100000);
    symx_clock_ns += busy * US;
    port->SleepSinceLastInteraction(microseconds(wait));
    symx_assert(symx_clock_ns - end >= wait * US, "the silence before a request is kept");
    symx_assert(symx_clock_ns - end <= (wait > busy ? wait : busy) * US, "and not longer than needed");
}
// the descriptor is ready without data: a closed socket
HARNESS h_ready_empty()
{
    Reset();
    int kind = (int)Pick("port", 0, 2);
    auto port = OpenedPort(kind);
    size_t before = Pick("bytes before", 0, 1);
    int64_t t = symx_clock_ns;
    if (before)
        Io.Coming.push_back({t, {Sym8("first")}});
    Io.Coming.push_back({t + 1000 * US, {}});
    uint8_t b = Sym8("second");
    Io.Coming.push_back({t + 2000 * US, {b}});
    uint8_t buf[4] = {};
    bool closed = false;
    size_t got = 0;
    try {
        got = port->ReadFrame(buf, 4, microseconds(10000), microseconds(10000)).Count;
    } catch (const TSerialDeviceTransientErrorException&) {
        closed = true;
    }
    symx_assert(closed == (kind == TCP) && port->IsOpen() != closed && (Io.Closed == 1) == closed, "a socket closed by the other side is closed and reported");
    if (!closed) {
        symx_assert(got == before + 1 && buf[before] == b, "the data that follows is received");
        symx_reach("ignored");
        return;
    }
    symx_reach("closed");
    port->WriteBytes(buf, 2);
    symx_assert(Io.Written.empty(), "nothing is written to a closed socket");
    symx_assert(port->ReadFrame(buf, 4, microseconds(10), microseconds(10)).Count == 0, "nothing is read from a closed socket");
    bool thrown = false;
    try {
        port->ReadByte(microseconds(10));
    } catch (const TSerialDeviceException&) {
        thrown = true;
    }
    symx_assert(thrown, "reading a byte from a closed socket is an error");
}
HARNESS h_read_byte()
{
    Reset();
    int kind = (int)Pick("port", 0, 3);
    auto port = OpenedPort(kind);
    int64_t start = symx_clock_ns, timeout = (int64_t)SymRange("timeout", 1, 3000000), pause = (int64_t)SymRange("pause", 0, 5000000);
    uint8_t b = Sym8("data");
    if (SymBool("answer"))
        Io.Coming.push_back({start + pause * US, {b, 1}});
    else
        pause = FOREVER / US;
    try {
        uint8_t r = port->ReadByte(microseconds(timeout));
        symx_assert(r == b, "the received byte is returned");
        symx_assert(pause <= timeout + 700000, "a late byte is not waited for");
        symx_assert(Io.Coming.size() == 1 && Io.Coming.front().Data.size() == 1, "only one byte is taken");
        symx_reach("byte");
    } catch (const TSerialDeviceTransientErrorException&) {
        symx_assert(pause > timeout, "a byte that comes in time is received");
        symx_assert(symx_clock_ns - start >= timeout * US && symx_clock_ns - start <= (timeout + 700000) * US, "the byte is waited for as long as requested");
        symx_reach("timeout");
    }
}
HARNESS h_write_bytes()
{
    Reset();
    int kind = (int)Pick("port", 0, 3);
    auto port = OpenedPort(kind);
    auto data = SymBytes("data", Pick("length", 1, 4));
    int r = (int)Pick("result", 0, 3); // all, a part, an error, closed by the other side
    if (r == 1)
        Io.WriteResult = (int)data.size() - 1;
    if (r >= 2) {
        Io.WriteResult = -1;
        errno = r == 3 ? EPIPE : EIO;
    }
    int64_t start = symx_clock_ns;
    bool thrown = false;
    try {
        port->WriteBytes(data.data(), (int)data.size());
    } catch (const TSerialDeviceException&) {
        thrown = true;
    }
    symx_assert(thrown == (r != 0), "a write that is not complete is an error");
    symx_assert(port->IsOpen() == (r != 3), "a connection closed by the other side is closed");
    if (r)
        return;
    symx_assert(Io.Written == data, "exactly the given bytes are written");
    int64_t line = kind == SERIAL || kind == FEATURE ? ((int64_t)data.size() * 11 * 1000000 + 9599) / 9600 * US : 0;
    symx_assert(symx_clock_ns - start == line, "a write to a line lasts until the data is sent");
    int64_t wait = (int64_t)SymRange("silence", 0, 100000);
    port->SleepSinceLastInteraction(microseconds(wait));
    symx_assert(symx_clock_ns - start == line + wait * US, "the silence is counted from the end of the data");
    symx_reach("written");
}
// unsolicited data is dropped; data that does not end reopens the port
HARNESS h_skip_noise()
{
    Reset();
    int kind = (int)Pick("port", 0, 2);
    auto port = OpenedPort(kind);
    size_t n = (size_t)symx_param("chunks", 4);
    std::vector<int64_t> at;
    int64_t t = symx_clock_ns;
    for (size_t i = 0; i < n; ++i) {
        t += (int64_t)SymRange("pause", 0, 60000) * US;
        at.push_back(t);
        Io.Coming.push_back({t, {1, 2}});
    }
    int opened = Io.Opened;
    try {
        port->SkipNoise();
    } catch (const TSerialDeviceTransientErrorException&) {
        symx_assert(false, "data with pauses is not an endless flow");
    }
    symx_assert(port->IsOpen() && Io.Opened - Io.Closed == 1, "the port stays open");
    symx_assert(Io.Coming.empty() || Io.Coming.front().At >= symx_clock_ns, "everything that has come is dropped");
    if (!Io.Coming.empty()) {
        size_t k = n - Io.Coming.size();
        int64_t last = k ? at[k - 1] : 0;
        symx_assert(at[k] - last >= 1000 * US, "data is dropped until a pause");
        symx_reach("rest");
    } else
        symx_reach("dropped");
    symx_assert(Io.Opened == opened, "the port is reopened only when the data does not end");
}
// data that does not end
HARNESS h_endless_noise()
{
    Reset();
    int kind = (int)Pick("port", 0, 1);
    auto port = OpenedPort(kind);
    int64_t pause = (int64_t)SymRange("pause", 800, 999), start = symx_clock_ns;
    for (int64_t i = 0; i < 1300; ++i)
        Io.Coming.push_back({start + i * pause * US, {1}});
    int opened = Io.Opened;
    try {
        port->SkipNoise();
    } catch (const TSerialDeviceTransientErrorException&) {
        symx_assert(Io.Opened > opened && Io.Opened - opened <= 3 && Io.Opened - Io.Closed == 1, "the port is reopened several times");
        symx_assert(symx_clock_ns - start > 100000 * US, "it is not considered endless at once");
        symx_reach("reported");
        return;
    }
    symx_assert(false, "an endless flow of data is reported");
}
// every way to open a port: it is open with the requested settings, or an error and nothing stays open
HARNESS h_open_serial()
{
    Reset();
    Io.Line.c_cc[0] = 77; // settings of the line before
    Io.OpenFails = SymBool("cannot open");
    Io.AttrFails = (int)Pick("failure", 0, 3);
    int speed = (int)Pick("speed", 0, 10), bits = (int)Pick("data bits", 5, 8), stop = (int)Pick("stop bits", 1, 2);
    char parity = Parities[Pick("parity", 0, 2)];
    TSerialPort port(TSerialPortSettings("nowhere/line", TSerialPortConnectionSettings(Speeds[speed], parity, bits, stop)));
    bool thrown = false;
    try {
        port.Open();
    } catch (const TSerialDeviceException&) {
        thrown = true;
    }
    bool fails = Io.OpenFails || Io.AttrFails;
    symx_assert(thrown == fails && port.IsOpen() != fails, "a port that cannot be set up is not open");
    symx_assert(Io.Opened - Io.Closed == (fails ? 0 : 1), "descriptors are not lost");
    if (fails)
        return;
    static const unsigned Bauds[] = {B110, B300, B600, B1200, B2400, B4800, B9600, B19200, B38400, B57600, B115200};
    static const unsigned Bits[] = {CS5, CS6, CS7, CS8};
    auto check = [&](int speed, int bits, int stop, char parity) {
        auto& l = Io.Line;
        symx_assert(l.c_ospeed == Bauds[speed] && l.c_ispeed == Bauds[speed], "the line has the configured speed");
        symx_assert((l.c_cflag & CSIZE) == Bits[bits - 5], "the line has the configured data bits");
        symx_assert(((l.c_cflag & CSTOPB) != 0) == (stop == 2), "the line has the configured stop bits");
        symx_assert(((l.c_cflag & PARENB) != 0) == (parity != 'N') && (parity == 'N' || ((l.c_cflag & PARODD) != 0) == (parity == 'O')), "the line has the configured parity");
        symx_assert(!(l.c_lflag & (ICANON | ECHO)) && !(l.c_oflag & OPOST) && !(l.c_iflag & (IXON | IXOFF | ICRNL | INLCR | ISTRIP)) && (l.c_cflag & CREAD), "bytes pass unchanged");
        symx_assert(l.c_cc[VMIN] == 0 && l.c_cc[VTIME] == 0, "reading does not wait in the driver");
    };
    check(speed, bits, stop, parity);
    symx_assert(Io.Flushed > 0, "old data is dropped");
    symx_reach("open");
    int speed2 = (int)Pick("other speed", 0, 10);
    port.ApplySerialPortSettings(TSerialPortConnectionSettings(Speeds[speed2], 'E', 7, 1));
    check(speed2, 7, 1, 'E');
    symx_assert(port.GetSendTimeBits(1) == microseconds((1000000 + Speeds[speed2] - 1) / Speeds[speed2]), "times follow the new speed");
    port.ResetSerialPortSettings();
    check(speed, bits, stop, parity);
    symx_assert(port.GetSendTimeBits(1) == microseconds((1000000 + Speeds[speed] - 1) / Speeds[speed]), "times follow the restored speed");
    port.Close();
    symx_assert(!port.IsOpen() && Io.Opened == Io.Closed && Io.Line.c_cc[0] == 77, "closing restores the line");
}
HARNESS h_open_tcp()
{
    Reset();
    Io.OpenFails = SymBool("no socket");
    static const int Errors[] = {0, EINPROGRESS, ECONNREFUSED};
    Io.ConnectError = Errors[Pick("connect", 0, 2)];
    Io.SelectResult = (int)Pick("wait", 0, 2) - 1;
    Io.SocketError = Pick("socket error", 0, 1) ? ECONNREFUSED : 0;
    bool ok = !Io.OpenFails && (!Io.ConnectError || (Io.ConnectError == EINPROGRESS && Io.SelectResult > 0 && !Io.SocketError));
    TTcpPort port(TTcpPortSettings("h", 502));
    bool thrown = false;
    try {
        port.Open();
    } catch (const TSerialDeviceException&) {
        thrown = true;
    }
    symx_assert(thrown != ok && port.IsOpen() == ok, "a port is open if and only if the connection is established");
    symx_assert(Io.Opened - Io.Closed == (ok ? 1 : 0), "descriptors are not lost");
    symx_assert(!ok || !Io.NonBlocking, "writing to the socket blocks");
    symx_reach(ok ? "open" : "failed");
}
// C45
HARNESS h_send_time()
{
    Reset();
    int speed = Speeds[Pick("speed", 0, 10)], bits = (int)Pick("data bits", 5, 8), stop = (int)Pick("stop bits", 1, 2);
    char parity = Parities[Pick("parity", 0, 2)];
    TSerialPort port(TSerialPortSettings("nowhere/line", TSerialPortConnectionSettings(speed, parity, bits, stop)));
    int64_t perByte = 1 + bits + stop + (parity != 'N');
    int64_t n = (int64_t)SymRange("bytes", 0, (uint64_t)symx_param("bytes", 300));
    int64_t t = port.GetSendTimeBytes((double)n).count();
    // exactly the true time rounded up to a microsecond
    symx_assert(t * speed >= n * perByte * 1000000 && (t - 1) * speed < n * perByte * 1000000, "the time to send bytes is the true one rounded up");
    int64_t b = port.GetSendTimeBits((size_t)n).count();
    symx_assert(b * speed >= n * 1000000 && (b - 1) * speed < n * 1000000, "the time to send bits is the true one rounded up");
    int64_t h = port.GetSendTimeBytes(3.5).count();
    symx_assert(h * speed * 2 >= 7 * perByte * 1000000 && (h - 1) * speed < (7 * perByte + 1) / 2 * 1000000, "the time of 3.5 bytes is not too short");
    symx_reach("done");
}
HARNESS h_send_time_tcp()
{
    TTcpPort tcp(TTcpPortSettings("h", 502));
    int64_t n = (int64_t)SymRange("bytes", 0, 300), t = tcp.GetSendTimeBytes((double)n).count(), b = tcp.GetSendTimeBits((size_t)n).count();
    symx_assert(t * 9600 >= n * 11 * 1000000 && (t - 1) * 9600 < n * 11 * 1000000, "a gateway line is taken for 9600 8N2");
    symx_assert(b * 9600 >= n * 1000000 && (b - 1) * 9600 < n * 1000000, "a gateway line is taken for 9600 bits per second");
    symx_reach("done");
}
// effective timeouts
HARNESS h_timeouts()
{
    Reset();
    int speed = Speeds[Pick("speed", 0, 10)];
    auto base = std::make_shared<TSerialPort>(TSerialPortSettings("nowhere/line", TSerialPortConnectionSettings(speed, 'E', 8, 2)));
    TFeaturePort port(base, false);
    int64_t call = (int64_t)SymRange("requested", 0, 0xFFFFFFFFF) - 1, min = (int64_t)SymRange("minimal", 0, 0xFFFFFFFFF) - 1;
    port.SetMinimalResponseTimeout(microseconds(min));
    int64_t r = port.CalcResponseTimeout(microseconds(call)).count();
    symx_assert(r >= call && r >= min, "the response timeout is not below the requested and the minimal ones");
    symx_assert(r == call || r == min || (call < 0 && min < 0 && r == 500000), "the response timeout is one of them or the default");
    symx_assert(r >= 0, "the response timeout is known");
    int64_t frame = (int64_t)SymRange("frame timeout", 0, 1000000);
    auto c = std::make_shared<TDeviceConfig>("dev", "1", "modbus");
    c->FrameTimeout = milliseconds(frame);
    c->ResponseTimeout = milliseconds(7);
    int64_t line = (int64_t)(12 * 7 * 1000000LL + 2 * speed - 1) / (2 * speed); // 3.5 symbols
    TSerialDeviceFactory factory;
    TModbusDevice::Register(factory);
    TLLSDevice::Register(factory);
    Dooya::TDevice::Register(factory);
    static const char* Names[] = {"modbus", "lls", "dooya"};
    const char* name = Names[Pick("protocol", 0, 2)];
    PSerialDevice dev;
    if (*name == 'm') {
        TModbusDeviceConfig mc;
        mc.CommonConfig = c;
        dev = std::make_shared<TModbusDevice>(std::make_unique<Modbus::TModbusRTUTraits>(), mc, factory.GetProtocol("modbus"));
    } else if (*name == 'l')
        dev = std::make_shared<TLLSDevice>(c, factory.GetProtocol("lls"));
    else
        dev = std::make_shared<Dooya::TDevice>(c, factory.GetProtocol("dooya"));
    int64_t f = dev->GetFrameTimeout(port).count() * 1000;
    symx_assert(f >= frame * 1000 && f >= line, "the frame timeout is not below the configured one and 3.5 symbols");
    symx_assert(f <= frame * 1000 || f < line + 3000, "the frame timeout is one of them");
    symx_assert(dev->GetResponseTimeout(port) == milliseconds(7), "the response timeout of the device is passed to the port");
    symx_reach("done");
}
