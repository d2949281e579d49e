// Native side of harness/symx.h: replays one concrete assignment of the symbolic inputs against the real code
// (compiled by clang++ with ASan+UBSan, real libstdc++), or prints what the run observed for validation.
#include "symx.h"
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <pthread.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

static std::map<std::string, uint64_t> Inputs;
static std::map<std::string, int64_t> Params;
static std::map<std::string, int> Count;

[[noreturn]] static void Finish(int code)
{
    fflush(stdout);
    _exit(code);
}

extern "C" {
int64_t symx_clock_ns = 1000000000000ll;
int64_t symx_sysclock_ns = 1700000000000000000ll;
__attribute__((weak)) void symx_on_sleep(int64_t ns)
{
    symx_clock_ns += ns;
}
__attribute__((weak)) bool symx_on_wait(int64_t deadlineNs)
{
    if (deadlineNs > symx_clock_ns)
        symx_clock_ns = deadlineNs;
    return false;
}
uint64_t symx_var(const char* name, unsigned bits)
{
    std::string n(name);
    int k = Count[n]++;
    if (k)
        n += "#" + std::to_string(k);
    auto it = Inputs.find(n);
    uint64_t v = it == Inputs.end() ? 0 : it->second;
    return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void symx_assume(bool c)
{
    if (!c) {
        printf("ASSUMPTION VIOLATED\n");
        Finish(78);
    }
}
void symx_assert(bool c, const char* msg)
{
    if (!c) {
        printf("ASSERT %s\n", msg);
        Finish(77);
    }
}
void symx_fail(const char* msg)
{
    symx_assert(false, msg);
}
void symx_reach(const char*)
{}
void symx_observe(const char* name, uint64_t v)
{
    printf("OBS %s %lu\n", name, v);
}
uint64_t symx_choose(uint64_t v)
{
    return v;
}
bool symx_is_symbolic(uint64_t)
{
    return false;
}
void symx_prune()
{
    Finish(79);
}
int64_t symx_param(const char* name, int64_t d)
{
    auto it = Params.find(name);
    return it == Params.end() ? d : it->second;
}
void symx_print(const char* name, uint64_t v)
{
    fprintf(stderr, "PRINT %s = %lu (0x%lx)\n", name, v, v);
}
void symx_no_uninit_check(int)
{}
uint64_t symx_ite(uint64_t c, uint64_t a, uint64_t b)
{
    return c ? a : b;
}
bool symx_known_eq(uint64_t a, uint64_t b)
{
    return a == b;
}
// virtual time: these definitions in the executable take precedence over libc/libstdc++
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const struct timespec* t)
{
    pthread_mutex_unlock(m);
    bool woken = symx_on_wait(t->tv_sec * 1000000000ll + t->tv_nsec);
    pthread_mutex_lock(m);
    return woken ? 0 : ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const struct timespec* t)
{
    pthread_mutex_unlock(m);
    bool woken = symx_on_wait(t->tv_sec * 1000000000ll + t->tv_nsec);
    pthread_mutex_lock(m);
    return woken ? 0 : ETIMEDOUT;
}
int nanosleep(const struct timespec* t, struct timespec*)
{
    symx_on_sleep(t->tv_sec * 1000000000ll + t->tv_nsec);
    return 0;
}
int usleep(useconds_t us)
{
    symx_on_sleep((int64_t)us * 1000);
    return 0;
}
}
namespace std::chrono
{
    inline namespace _V2
    {
        steady_clock::time_point steady_clock::now() noexcept
        {
            return time_point(duration(symx_clock_ns));
        }
        system_clock::time_point system_clock::now() noexcept
        {
            return time_point(duration(symx_sysclock_ns));
        }
    }
}

int main(int argc, char** argv)
{
    if (argc < 3)
        return 2;
    FILE* f = fopen(argv[2], "r");
    if (!f)
        return 2;
    char line[4096];
    unsigned long long v;
    while (fgets(line, sizeof line, f)) {
        // "V name value" / "P name value"; names may contain spaces
        char* last = strrchr(line, ' ');
        if (!last || last < line + 2)
            continue;
        v = strtoull(last + 1, nullptr, 10);
        std::string n(line + 2, last);
        if (line[0] == 'V')
            Inputs[n] = v;
        else if (line[0] == 'P')
            Params[n] = (int64_t)v;
    }
    fclose(f);
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) {
        fprintf(stderr, "no entry %s\n", argv[1]);
        return 2;
    }
    try {
        fn();
    } catch (const std::exception& e) {
        printf("UNCAUGHT %s: %s\n", typeid(e).name(), e.what());
        Finish(76);
    } catch (...) {
        printf("UNCAUGHT\n");
        Finish(76);
    }
    printf("DONE\n");
    Finish(0);
}
