// Runtime for the native drivers: a tracked element type, allocation counting,
// a history log, and failure reporting.  Built with ASan + UBSan.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <unistd.h>
#include <string>
#include <vector>
#include <set>
#include <deque>
#include <map>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>

namespace rt {
inline char* logbuf() { static char b[1 << 16]; return b; }
inline size_t& loglen() { static size_t n = 0; return n; }
inline long& cases() { static long c = 0; return c; }
inline void emit_log(const char* why) {
    char h[128];
    int n = snprintf(h, sizeof h, "\nFAIL %s\nHISTORY ", why);
    (void)!write(1, h, n); (void)!write(1, logbuf(), loglen()); (void)!write(1, "\n", 1);
}
inline void begin(const char* fmt = "") { loglen() = 0; cases()++; }
template<class... A> inline void log(const char* fmt, A... a) {
    size_t& n = loglen();
    if (n + 200 > (1 << 16)) n = 0;
    n += snprintf(logbuf() + n, 190, fmt, a...);
}
inline void log(const char* s) { log("%s", s); }
[[noreturn]] inline void fail(const char* why) { emit_log(why); fflush(stdout); _exit(1); }
#define CHECK(c) do { if (!(c)) rt::fail(#c); } while (0)

inline long& live_blocks() { static long n = 0; return n; }
inline bool& counting() { static bool b = false; return b; }
inline void mh(const volatile void*, size_t) { if (counting()) live_blocks()++; }
inline void fh(const volatile void* p) { if (counting() && p) live_blocks()--; }

// deterministic generator
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    size_t operator()(size_t n) { return n ? (next() >> 11) % n : 0; }
};

// tracked element: every live instance is registered by address
struct Reg { std::set<const void*> live; };
inline Reg& reg() { static Reg* r = new Reg; return *r; }
struct NoCount { bool b; NoCount() : b(counting()) { counting() = false; } ~NoCount() { counting() = b; } };
struct T {
    int v;
    const T* self;
    void in() { NoCount c; self = this; if (!reg().live.insert(this).second) fail("construction over a live element"); }
    static void alive(const T& o) { NoCount c; if (!reg().live.count(&o) || o.self != &o) fail("use of a dead or relocated element"); }
    T() : v(0) { in(); }
    T(int x) : v(x) { in(); }
    T(const T& o) { alive(o); v = o.v; in(); }
    T(T&& o) noexcept { alive(o); v = o.v; o.v = -777; in(); }
    ~T() { alive(*this); NoCount c; reg().live.erase(this); self = nullptr; }
    T& operator=(const T& o) { alive(*this); alive(o); v = o.v; return *this; }
    T& operator=(T&& o) noexcept { alive(*this); alive(o); int x = o.v; if (&o != this) { o.v = -777; } v = x; return *this; }
    int get() const { alive(*this); return v; }
};
inline bool operator==(const T& a, const T& b) { return a.get() == b.get(); }
inline bool operator!=(const T& a, const T& b) { return a.get() != b.get(); }
inline bool operator<(const T& a, const T& b) { return a.get() < b.get(); }
inline bool operator>(const T& a, const T& b) { return a.get() > b.get(); }
inline bool operator<=(const T& a, const T& b) { return a.get() <= b.get(); }
inline bool operator>=(const T& a, const T& b) { return a.get() >= b.get(); }
inline int val(const T& t) { return t.get(); }
inline int val(int t) { return t; }
inline int val(char t) { return t; }
inline int val(double t) { return (int)t; }
inline int val(size_t t) { return (int)t; }

inline void on_alarm(int) { emit_log("does not terminate (alarm)"); _exit(1); }
inline void on_death() { emit_log("sanitizer report"); }
inline void on_abort(int) { emit_log("abort / terminate"); _exit(1); }

// run one scenario; at the end no element and no block may be left
template<class F> void scenario(F f) {
    begin();
    alarm(20);
    long b0;
    { counting() = true; b0 = live_blocks(); }
    f();
    counting() = false;
    if (!reg().live.empty()) fail("elements left alive at the end (leak)");
    if (live_blocks() != b0) fail("heap blocks left at the end (leak)");
    alarm(0);
}
}
extern "C" inline const char* __asan_default_options_() { return ""; }
#define DRIVER_MAIN(body)                                                                   \
    extern "C" const char* __asan_default_options() { return "detect_leaks=0:alloc_dealloc_mismatch=1:new_delete_type_mismatch=1:detect_stack_use_after_return=0:color=never"; } \
    extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:color=never"; } \
    int main(int argc, char** argv) {                                                       \
        __sanitizer_set_death_callback(rt::on_death);                                       \
        __sanitizer_install_malloc_and_free_hooks(rt::mh, rt::fh);                          \
        signal(SIGALRM, rt::on_alarm); signal(SIGABRT, rt::on_abort);                       \
        rt::reg();                                                                          \
        uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;                            \
        int scale = argc > 2 ? atoi(argv[2]) : 1;                                           \
        (void)seed; (void)scale;                                                            \
        body(seed, scale);                                                                  \
        printf("OK cases=%ld\n", rt::cases());                                              \
        return 0;                                                                           \
    }
