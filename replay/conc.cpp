// C15 / C16: the queues between threads and the double buffer.
// Sequential histories against a deque, and threaded runs with yields inside the
// element's copies, spurious wake-ups injected and a watchdog; the TSAN build
// looks for unordered accesses.
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <unistd.h>
#include <signal.h>
#include <deque>
#include <thread>
#include <vector>
#include <atomic>
#include <memory>
#include <functional>
#include "efp/concurrency.hpp"
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TS 1
#endif
#endif
static long cases_ = 0;
static char what_[256] = "";
[[noreturn]] static void fail(const char* why) {
    printf("\nFAIL %s\nHISTORY %s\n", why, what_); fflush(stdout); _exit(1);
}
#define CHECK(c) do { if (!(c)) fail(#c); } while (0)
static void on_alarm(int) { static const char m[] = "\nFAIL a consumer hangs although elements are available (watchdog)\nHISTORY "; (void)!write(1, m, sizeof m - 1); (void)!write(1, what_, __builtin_strlen(what_)); (void)!write(1, "\n", 1); _exit(1); }
template<class... A> static void scene(const char* f, A... a) { snprintf(what_, sizeof what_, f, a...); cases_++; alarm(90); }
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 77) {} uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; } size_t operator()(size_t n) { return (next() >> 11) % n; } };
static thread_local volatile bool sink;
static thread_local Rng tr(1);
static std::atomic<long> live {0};
static std::atomic<bool> busy {false};
static std::atomic<int> waiting {0};
static void jitter() { if (busy.load(std::memory_order_relaxed) && tr(8) == 0) std::this_thread::yield(); }
struct Y {
    int p, i; const Y* self;
    Y() : p(-1), i(-1), self(this) { live++; }
    Y(int a, int b) : p(a), i(b), self(this) { live++; }
    Y(const Y& o) : self(this) { o.ok(); p = o.p; jitter(); i = o.i; live++; }
    Y(Y&& o) noexcept : self(this) { o.ok(); p = o.p; jitter(); i = o.i; o.p = -9; live++; }
    Y& operator=(const Y& o) { ok(); o.ok(); p = o.p; jitter(); i = o.i; return *this; }
    Y& operator=(Y&& o) noexcept { ok(); o.ok(); int a = o.p, b = o.i; jitter(); if (this != &o) o.p = -9; p = a; i = b; return *this; }
    ~Y() { ok(); self = nullptr; live--; }
    void ok() const { if (self != this) fail("use of a dead element"); }
};
#ifndef TS
#include <dlfcn.h>
#include <pthread.h>
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait");
    if (busy.load(std::memory_order_relaxed) && tr(4) == 0) { pthread_mutex_unlock(m); std::this_thread::yield(); pthread_mutex_lock(m); return 0; }   // spurious wake-up
    waiting++;
    int r = real(c, m);
    waiting--;
    return r;
}
#endif
static void threads(uint64_t seed, std::vector<std::function<void()>> fs) {
    std::vector<std::thread> t; int k = 0;
    busy = true;
    for (auto& f : fs) { int id = k++; t.emplace_back([=] { tr = Rng(seed * 131 + id); f(); }); }
    for (auto& x : t) x.join();
    busy = false;
}
struct Seen {   // per consumer: elements of one producer arrive in order, none twice
    std::vector<int> last; std::vector<std::vector<char>>* got; std::atomic<int>* dup;
};
// ---------------------------------------------------------------- C15
template<class Q> struct Deq;
template<class A, size_t N> struct Deq<efp::BlockingQ<A, N>> { static bool get(efp::BlockingQ<A, N>& q, A& o) { o = q.dequeue(); return true; } static const bool blocking = true; };
template<class A, size_t N> struct Deq<efp::NonBlockingQ<A, N>> {
    static bool get(efp::NonBlockingQ<A, N>& q, A& o) { efp::Maybe<A> m = q.dequeue(); if (m.is_nothing()) return false; o = m.move(); return true; }
    static const bool blocking = false;
};
template<class Q> static bool empty_of(Q&, bool m) { return m; }
template<class A, size_t N> static bool empty_of(efp::NonBlockingQ<A, N>& q, bool) { return q.is_empty(); }
template<class Q> static void sequential(const char* nm, size_t cap, uint64_t seed, int n) {
    Rng r(seed);
    for (int it = 0; it < n; it++) {
        scene("%s one thread, history %d of seed %llu", nm, it, (unsigned long long)seed);
        long l0 = live;
        {
            std::unique_ptr<Q> q(new Q); std::deque<int> m; int k = 0; size_t bias = 1 + r(5);
            for (size_t s = 0, e = r(60 + 3 * (cap < 100 ? cap : 10)); s < e; s++) {
                if (r(6) < bias) { Y y(7, k); q->enqueue(y); CHECK(y.i == k && y.p == 7); m.push_back(k++); if (m.size() > cap) m.pop_front(); }
                else if (!m.empty() || !Deq<Q>::blocking) {
                    Y o; bool g = Deq<Q>::get(*q, o);
                    CHECK(g == !m.empty());
                    if (g) { CHECK(o.p == 7 && o.i == m.front()); m.pop_front(); }
                }
                CHECK(empty_of(*q, m.empty()) == m.empty());
            }
        }
        CHECK(live == l0);
    }
}
// every producer's elements arrive once, in order per consumer; nothing lost unless the queue may overflow
template<class Q> static void pump(const char* nm, bool lossy, int P, int C, int K, uint64_t seed) {
    scene("%s producers=%d consumers=%d each=%d seed=%llu", nm, P, C, K, (unsigned long long)seed);
    std::unique_ptr<Q> q(new Q);
    std::vector<std::vector<std::vector<int>>> got(C, std::vector<std::vector<int>>(P));
    std::atomic<int> doneP {0}, stop {0};
    std::vector<std::function<void()>> fs;
    for (int c = 0; c < C; c++) fs.push_back([&, c] {
        int want = P * K / C + (c < (P * K) % C);
        for (int n = 0; Deq<Q>::blocking ? n < want : true;) {
            Y o; bool fin = doneP.load() == P;
            sink = empty_of(*q, false);
            if (Deq<Q>::get(*q, o)) { if (o.p < 0 || o.p >= P || o.i < 0 || o.i >= K) fail("an element that was never enqueued"); got[c][o.p].push_back(o.i); n++; }
            else { if (fin) break; std::this_thread::yield(); }
        }
    });
    for (int p = 0; p < P; p++) fs.push_back([&, p] { for (int i = 0; i < K; i++) { q->enqueue(Y(p, i)); jitter(); } doneP++; });
    threads(seed, fs);
    for (int p = 0; p < P; p++) {
        std::vector<int> cnt(K, 0);
        for (int c = 0; c < C; c++) { for (size_t j = 0; j < got[c][p].size(); j++) { cnt[got[c][p][j]]++; CHECK(j == 0 || got[c][p][j - 1] < got[c][p][j]); } }
        for (int i = 0; i < K; i++) { CHECK(cnt[i] <= 1); CHECK(lossy || cnt[i] == 1); }
    }
}
// consumers already wait when the elements come: each enqueue must wake one
template<class Q> static void wake(const char* nm, int C, int rounds, uint64_t seed) {
    scene("%s %d waiting consumers, %d rounds", nm, C, rounds);
    for (int r = 0; r < rounds; r++) {
        alarm(60);
        std::unique_ptr<Q> q(new Q); std::atomic<int> sum {0};
        std::vector<std::thread> t;
        for (int c = 0; c < C; c++) t.emplace_back([&] { Y y = q->dequeue(); sum += y.i; });
#ifdef TS
        usleep(500);
#else
        for (int w = 0; w < 100000 && waiting.load() < C; w++) std::this_thread::yield();
#endif
        for (int c = 0; c < C; c++) q->enqueue(Y(0, 1 << c));
        for (auto& x : t) x.join();
        CHECK(sum == (1 << C) - 1);
        cases_++;
    }
}
// ---------------------------------------------------------------- C16
template<size_t N> static void db_sequential(uint64_t seed, int n) {
    using D = efp::DoubleBuffer<Y, N>;
    Rng r(seed);
    for (int it = 0; it < n; it++) {
        scene("DoubleBuffer<%zu> one thread, history %d of seed %llu", N, it, (unsigned long long)seed);
        long l0 = live;
        {
            std::unique_ptr<D> q(new D); std::deque<int> a, b, *rd = &a, *wr = &b; int k = 0; size_t bias = 1 + r(6);
            for (size_t s = 0, e = r(80); s < e; s++) {
                size_t o = r(10);
                if (o < bias) { Y y(3, k); q->enqueue(y); CHECK(y.i == k); wr->push_back(k++); if (wr->size() > N) wr->pop_front(); }
                else if (o == 9) { q->swap_buffer(); std::swap(rd, wr); }
                else if (!rd->empty()) { Y y = q->dequeue(); CHECK(y.p == 3 && y.i == rd->front()); rd->pop_front(); }
                CHECK(q->empty() == rd->empty());
            }
        }
        CHECK(live == l0);
    }
}
// producers write, the consumer swaps and drains: once each, in order, none lost while the capacity suffices
template<size_t N> static void db_threads(bool lossy, int P, int K, bool third, uint64_t seed) {
    using D = efp::DoubleBuffer<Y, N>;
    scene("DoubleBuffer<%zu> producers=%d each=%d%s seed=%llu", N, P, K, third ? " (swaps from a third thread)" : "", (unsigned long long)seed);
    std::unique_ptr<D> q(new D); std::atomic<int> doneP {0}, stopped {third ? 0 : 1}, fin {0}; std::vector<std::vector<int>> got(P);
    std::vector<std::function<void()>> fs;
    fs.push_back([&] {
        for (int idle = 0; idle < 4;) {
            bool last = doneP.load() == P && stopped.load();   // nobody else swaps any more: not empty stays not empty
            if (!third || last) q->swap_buffer();
            bool any = false;
            if (third && !last) { sink = q->empty(); std::this_thread::yield(); continue; }
            while (!q->empty()) { Y y = q->dequeue(); any = true; if (y.p < 0 || y.p >= P || y.i < 0 || y.i >= K) fail("an element that was never enqueued"); got[y.p].push_back(y.i); }
            if (last && !any) idle++;
        }
        fin = 1;
    });
    for (int p = 0; p < P; p++) fs.push_back([&, p] { for (int i = 0; i < K; i++) { q->enqueue(Y(p, i)); jitter(); } doneP++; });
    if (third) fs.push_back([&] { while (doneP.load() < P) { q->swap_buffer(); std::this_thread::yield(); } stopped = 1; });
    threads(seed, fs);
    for (int p = 0; p < P; p++) {
        if (!third) for (size_t j = 1; j < got[p].size(); j++) CHECK(got[p][j - 1] < got[p][j]);
        std::vector<int> c(K, 0); for (int x : got[p]) c[x]++;
        for (int i = 0; i < K; i++) { CHECK(c[i] <= 1); CHECK(lossy || c[i] == 1); }
    }
}
// both sides hold enough: a consumer dequeues while another thread swaps and a third enqueues
static void db_swapping(uint64_t seed) {
    using D = efp::DoubleBuffer<Y, 2048>;
    scene("DoubleBuffer<2048> both sides filled with 300, 100 dequeues while another thread swaps, seed=%llu", (unsigned long long)seed);
    std::unique_ptr<D> q(new D); std::vector<int> got;
    for (int i = 0; i < 300; i++) q->enqueue(Y(0, i));
    q->swap_buffer();
    for (int i = 300; i < 600; i++) q->enqueue(Y(0, i));
    threads(seed, {[&] { for (int i = 0; i < 100; i++) { Y y = q->dequeue(); if (y.p != 0) fail("an element that was never enqueued"); got.push_back(y.i); sink = q->empty(); } },
                   [&] { for (int i = 0; i < 100; i++) { q->swap_buffer(); jitter(); } }, [&] { for (int i = 600; i < 700; i++) { q->enqueue(Y(0, i)); jitter(); } }});
    std::vector<int> c(700, 0); for (int x : got) { CHECK(x >= 0 && x < 700); CHECK(++c[x] == 1); }
}
int main(int argc, char** argv) {
    signal(SIGALRM, on_alarm);
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1; int scale = argc > 2 ? atoi(argv[2]) : 1;
#ifdef TS
    int R = 20 * scale, K = 150;
#else
    int R = 60 * scale, K = 300;
#endif
#ifndef DB
    using namespace efp;
#ifndef TS
    sequential<BlockingQ<Y>>("BlockingQ<dyn>", 1u << 30, seed, 800 * scale); sequential<NonBlockingQ<Y>>("NonBlockingQ<dyn>", 1u << 30, seed, 800 * scale);
    sequential<BlockingQ<Y, 1>>("BlockingQ<1>", 1, seed, 800 * scale); sequential<NonBlockingQ<Y, 1>>("NonBlockingQ<1>", 1, seed, 800 * scale);
    sequential<BlockingQ<Y, 3>>("BlockingQ<3>", 3, seed, 800 * scale); sequential<NonBlockingQ<Y, 3>>("NonBlockingQ<3>", 3, seed, 800 * scale);
    sequential<BlockingQ<Y, 8>>("BlockingQ<8>", 8, seed, 800 * scale); sequential<NonBlockingQ<Y, 8>>("NonBlockingQ<8>", 8, seed, 800 * scale);
#endif
    wake<BlockingQ<Y>>("BlockingQ<dyn>", 3, 20 * R, seed); wake<BlockingQ<Y, 8>>("BlockingQ<8>", 3, 20 * R, seed); wake<BlockingQ<Y, 8>>("BlockingQ<8>", 1, 5 * R, seed);
    for (int i = 0; i < R; i++) {
        int P = 1 + i % 3, C = 1 + (i / 2) % 3; uint64_t s = seed * 1000 + i;
        pump<BlockingQ<Y>>("BlockingQ<dyn>", false, P, C, K, s); pump<BlockingQ<Y, 4096>>("BlockingQ<4096>", false, P, C, K, s);
        pump<NonBlockingQ<Y>>("NonBlockingQ<dyn>", false, P, C, K, s); pump<NonBlockingQ<Y, 4096>>("NonBlockingQ<4096>", false, P, C, K, s);
        pump<NonBlockingQ<Y, 3>>("NonBlockingQ<3>", true, P, C, K, s);
    }
#else
#ifndef TS
    db_sequential<1>(seed, 800 * scale); db_sequential<3>(seed, 800 * scale); db_sequential<8>(seed, 800 * scale);
#endif
    for (int i = 0; i < R; i++) {
        uint64_t s = seed * 1000 + i;
        db_swapping(s); db_threads<2048>(false, 1 + i % 3, K, false, s); db_threads<3>(true, 1 + i % 3, K, false, s); db_threads<2048>(false, 2, K, true, s); db_threads<2>(true, 1, K, true, s);
    }
#endif
    alarm(0);
    printf("OK cases=%ld\n", cases_);
    return 0;
}
