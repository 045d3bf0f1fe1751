// Enum (default) or Maybe (-DMAYBE): lifetimes, discriminants, get/match/compare,
// combinators and laws, over tracked and plain alternatives.
#include "rt.hpp"
#include "efp.hpp"
using namespace rt;
template<class F> static bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
// alternative K: a tracked value padded to one of several sizes and alignments
template<int K, int P> struct Pad { unsigned char pad[P]; Pad() { memset(pad, K + 1, P); } bool ok() const { for (int i = 0; i < P; i++) if (pad[i] != (unsigned char)(K + 1)) return false; return true; } };
template<int K> struct Alt : T, Pad<K, 1 + (K % 5) * 7> {
    Alt() : T(100 + K) {}
    Alt(int x) : T(x) {}
    int get() const { if (!this->ok()) fail("alternative read through another type"); return T::get(); }
};
template<int K> bool operator==(const Alt<K>& a, const Alt<K>& b) { return a.get() == b.get(); }
template<int N, typename... As> struct Mk : Mk<N - 1, Alt<N - 1>, As...> {};
template<typename... As> struct Mk<0, As...> { using T = efp::Enum<As...>; };
template<int N> using EN = typename Mk<N>::T;
static int g_hit, g_arg, g_cnt;
template<int K> struct B { int operator()(const Alt<K>& x) const { g_cnt++; g_hit = K; g_arg = x.get(); return K * 1000 + 7; } };
struct W { int operator()() const { g_cnt++; g_hit = -1; return -5; } };
template<int N, int K, typename... Bs> struct MatchAll : MatchAll<N, K - 1, B<K - 1>, Bs...> {};
template<int N> struct MatchAll<N, 0> { static int go(const EN<N>&) { return 0; } };
template<int N, typename... Bs> struct MatchAll<N, 0, Bs...> { static int go(const EN<N>& e) { return e.match(Bs {}...); } };
// runtime index -> alternative
template<int N, int K> struct At {
    static void set(EN<N>& e, int k, int v, bool mv) {
        if (k == K) { Alt<K> x(v); if (mv) e = efp::move(x); else { e = x; CHECK(x.get() == v); } }
        else At<N, K + 1>::set(e, k, v, mv);
    }
    static void make(EN<N>* p, int k, int v, bool mv) {
        if (k == K) { Alt<K> x(v); if (mv) new (p) EN<N>(efp::move(x)); else { new (p) EN<N>(x); CHECK(x.get() == v); } }
        else At<N, K + 1>::make(p, k, v, mv);
    }
    static void see(const EN<N>& ce, int k, int v) {
        EN<N>& e = const_cast<EN<N>&>(ce);
        if (k == K) {
            CHECK(ce.template get<Alt<K>>().get() == v); CHECK(e.template get<Alt<K>>().get() == v);
            CHECK(ce.template get<(uint8_t)K>().get() == v); CHECK(e.template get<(uint8_t)K>().get() == v);
            Alt<K>&& r = e.template move<Alt<K>>(); CHECK(&r == &e.template get<Alt<K>>());
            Alt<K>&& q = e.template move<(uint8_t)K>(); CHECK(&q == &r);
        } else {
            CHECK(throws([&] { (void)ce.template get<Alt<K>>(); })); CHECK(throws([&] { (void)e.template get<Alt<K>>(); }));
            CHECK(throws([&] { (void)ce.template get<(uint8_t)K>(); })); CHECK(throws([&] { (void)e.template get<(uint8_t)K>(); }));
            CHECK(throws([&] { (void)e.template move<Alt<K>>(); })); CHECK(throws([&] { (void)e.template move<(uint8_t)K>(); }));
        }
        At<N, K + 1>::see(ce, k, v);
    }
};
template<int N> struct At<N, N> {
    static void set(EN<N>&, int, int, bool) {} static void make(EN<N>*, int, int, bool) {} static void see(const EN<N>&, int, int) {}
};
template<int N> struct Box { alignas(EN<N>) unsigned char b[sizeof(EN<N>)]; EN<N>& e() { return *(EN<N>*)b; }
    Box(int k, int v, bool mv) { At<N, 0>::make(&e(), k, v, mv); } ~Box() { e().~EN<N>(); } };
template<int N> static void chk(const EN<N>& e, int k, int v) {
    CHECK(e.index() == k); At<N, 0>::see(e, k, v);
    if (N > 20) return;
    g_cnt = 0; int r = MatchAll<N, (N > 20 ? 0 : N)>::go(e); CHECK(g_cnt == 1); CHECK(g_hit == k); CHECK(g_arg == v); CHECK(r == k * 1000 + 7);
}
template<int N, bool = (N > 2)> struct Wild { static void go(const EN<N>&, int) {} };
template<int N> struct Wild<N, true> { static void go(const EN<N>& e, int k) {
    g_cnt = 0; int r = e.match(B<0> {}, B<N / 2> {}, W {}); bool h = k == 0 || k == N / 2; CHECK(g_cnt == 1); CHECK(g_hit == (h ? k : -1)); CHECK(r == (h ? k * 1000 + 7 : -5));
    g_cnt = 0; r = e.match(B<N - 1> {}, W {}); h = k == N - 1; CHECK(g_cnt == 1); CHECK(g_hit == (h ? k : -1)); CHECK(r == (h ? k * 1000 + 7 : -5));
} };
template<int N> static void pairs(Rng& r, int many) {
    int tot = N * N, step = tot > many ? tot / many : 1; if (step > 1 && step % N == 0) step++;
    if (step > 1 && N % step == 0) step++;
    for (int x = 0; x < tot; x += step) { int k = x / N, l = x % N; scenario([&] {
        log("Enum<%d alternatives> %d,%d ", N, k, l);
        int a = int(r(50)), b = r(2) ? a : int(r(50));
        Box<N> p(k, a, r(2)), q(l, b, r(2));
        EN<N>&e = p.e(), &f = q.e();
        chk<N>(e, k, a); chk<N>(f, l, b); Wild<N>::go(e, k);
        bool eq = k == l && a == b; CHECK((e == f) == eq); CHECK((f == e) == eq); CHECK((e != f) == !eq); CHECK((f != e) == !eq); CHECK(e == e);
        log("copy "); { EN<N> c(e); chk<N>(c, k, a); chk<N>(e, k, a); CHECK(c == e); log("move "); EN<N> d(efp::move(c)); chk<N>(d, k, a); CHECK(c.index() == k); }
        log("assign "); { EN<N> c(e); CHECK(&(c = f) == &c); chk<N>(c, l, b); chk<N>(f, l, b); c = e; chk<N>(c, k, a); }
        log("move-assign "); { EN<N> c(e), d(f); CHECK(&(c = efp::move(d)) == &c); chk<N>(c, l, b); CHECK(d.index() == l); d = e; chk<N>(d, k, a); }
        log("set "); { EN<N> c(e); At<N, 0>::set(c, l, b + 1, false); chk<N>(c, l, b + 1); At<N, 0>::set(c, k, a + 2, true); chk<N>(c, k, a + 2); }
        log("self "); { EN<N>& s = e; e = s; chk<N>(e, k, a); e = efp::move(s); chk<N>(e, k, a); }
        { EN<N> d; chk<N>(d, 0, 100); }
    }); }
}
#ifndef MAYBE
static void plain() {
    scenario([&] {
        log("plain types "); typedef efp::Enum<int, double, char, bool> E4;
        E4 a(3), b(2.5), c('x'), d(true), z;
        CHECK(a.index() == 0 && a.get<int>() == 3); CHECK(b.index() == 1 && b.get<double>() == 2.5); CHECK(c.index() == 2 && c.get<char>() == 'x'); CHECK(d.index() == 3 && d.get<bool>());
        CHECK(z.index() == 0); a = 'y'; CHECK(a.index() == 2 && a.get<char>() == 'y'); a = b; CHECK(a == b && !(a == c)); b = 7; CHECK(b.get<int>() == 7);
        CHECK(throws([&] { a.get<int>(); }));
        struct Holder { char c; efp::Enum<char, double, long double> e; } h; CHECK(alignof(efp::Enum<char, double, long double>) >= alignof(long double)); CHECK(alignof(efp::Enum<char, double>) >= alignof(double));
        h.e = (long double)1.5; CHECK((uintptr_t)&h.e.get<long double>() % alignof(long double) == 0); CHECK(h.e.get<long double>() == 1.5L);
        struct Big { char b[300]; }; CHECK(sizeof(efp::Enum<char, Big>) > sizeof(Big)); CHECK(sizeof(efp::Enum<Big, char>) > sizeof(Big));
    });
}
static void body(uint64_t seed, int scale) {
    Rng r(seed);
    for (int i = 0; i < 3 * scale; i++) { pairs<1>(r, 9); pairs<2>(r, 9); pairs<3>(r, 9); pairs<4>(r, 16); pairs<5>(r, 25); pairs<8>(r, 64); pairs<9>(r, 81); }
    pairs<16>(r, 256 * scale); pairs<17>(r, 200 * scale); pairs<33>(r, 400 * scale); pairs<70>(r, 500 * scale);
    plain();
}
#else
typedef efp::Maybe<T> Mb;
static int g_calls;
static T inc(const T& x) { g_calls++; return T(x.get() + 1); }
static T dbl(const T& x) { g_calls++; return T(x.get() * 2); }
struct Inc { T operator()(const T& x) const { return inc(x); } };
struct Str { std::string operator()(const T& x) const { g_calls++; return std::to_string(x.get()) + " is a long enough string to live on the heap"; } };
struct K1 { Mb operator()(const T& x) const { g_calls++; if (x.get() % 3) return T(x.get() * 10); return efp::nothing; } };
struct K2 { Mb operator()(const T& x) const { g_calls++; if (x.get() % 4) return T(x.get() + 5); return efp::nothing; } };
struct Ks { efp::Maybe<std::string> operator()(const T& x) const { g_calls++; if (x.get() % 3) return std::string("a string that is long enough for the heap"); return efp::nothing; } };
struct Ret { Mb operator()(const T& x) const { return Mb(x); } };
struct Id { T operator()(const T& x) const { return x; } };
static Mb mk(int k, int v) { if (k) return Mb(T(v)); return Mb(efp::nothing); }
static void is(const Mb& m, int k, int v) {
    CHECK(m.is_nothing() == !k); CHECK(m.has_value() == !!k); CHECK(bool(m) == !!k); CHECK(m.index() == k);
    if (k) { CHECK(m.value().get() == v); CHECK(m.get<T>().get() == v); } else { CHECK(throws([&] { (void)m.value(); })); CHECK(throws([&] { (void)m.get<T>(); })); CHECK(throws([&] { (void)const_cast<Mb&>(m).move(); })); }
    int n = 0, s = 0; int r = m.match([&](const efp::Nothing&) { n++; return 1; }, [&](const T& x) { s++; CHECK(x.get() == v); return 2; });
    CHECK(n == !k && s == !!k && r == (k ? 2 : 1));
    n = s = 0; r = m.match([&](const T& x) { s++; return x.get(); }, [&]() { n++; return -9; }); CHECK(n == !k && s == !!k && r == (k ? v : -9));
}
static bool same(const Mb& a, const Mb& b) { return a.has_value() == b.has_value() && (!a.has_value() || a.value() == b.value()); }
static void body(uint64_t seed, int scale) {
    Rng r(seed);
    for (int it = 0; it < 400 * scale; it++) scenario([&] {
        int k = r(2), l = r(2), v = int(r(40)), w = int(r(40));
        log("Maybe %s(%d) %s(%d) ", k ? "just" : "nothing", v, l ? "just" : "nothing", w);
        Mb a = mk(k, v), b = mk(l, w); is(a, k, v); is(b, l, w); { Mb z; is(z, 0, 0); Mb p = efp::pure<Mb>(T(v)); is(p, 1, v); is(Mb::pure<Inc>(T(w)), 1, w); }
        const Mb& ca = a;
        log("copy "); { Mb c(a); is(c, k, v); is(a, k, v); c = b; is(c, l, w); is(b, l, w); c = a; is(c, k, v); c = T(w); is(c, 1, w); c = efp::nothing; is(c, 0, 0); T x(v); c = x; is(c, 1, v); CHECK(x.get() == v); Mb& s = c; c = s; is(c, 1, v); c = efp::move(s); is(c, 1, v); }
        log("move "); { Mb c(a); Mb d(efp::move(c)); is(d, k, v); CHECK(c.has_value() == !!k); Mb e(b); e = efp::move(d); is(e, k, v); if (k) { T t(e.move()); CHECK(t.get() == v); CHECK(e.has_value()); } }
        log("fmap "); g_calls = 0; { Mb c = ca.fmap(Inc {}); is(c, k, v + 1); is(a, k, v); CHECK(g_calls == k); Mb d = efp::fmap(Inc {}, ca); is(d, k, v + 1); CHECK(g_calls == 2 * k);
            Mb e = efp::fmap(inc, ca); is(e, k, v + 1);
            auto s = ca.fmap(Str {}); CHECK(s.has_value() == !!k); auto u = efp::fmap(Str {}, ca); CHECK(u.has_value() == !!k); if (k) { CHECK(s.value() == Str {}(T(v))); CHECK(u.value() == s.value()); } }
        log("ap "); { g_calls = 0; efp::Maybe<Inc> f; if (l) f = Inc {}; Mb c = ca.ap(f); is(c, k & l, v + 1); CHECK(g_calls == (k & l)); Mb d = efp::ap(f, ca); is(d, k & l, v + 1); CHECK(g_calls == 2 * (k & l)); is(a, k, v); }
        log("bind "); { int p = k && v % 3; g_calls = 0; Mb c = ca.bind(K1 {}); is(c, p, v * 10); CHECK(g_calls == k); Mb d = (ca >>= K1 {}); is(d, p, v * 10); CHECK(g_calls == 2 * k); Mb e = efp::bind(ca, K1 {}); is(e, p, v * 10); CHECK(g_calls == 3 * k); is(a, k, v);
            auto s = ca.bind(Ks {}); CHECK(s.has_value() == !!p); auto t = (ca >>= Ks {}); CHECK(t.has_value() == !!p); auto u = efp::bind(ca, Ks {}); CHECK(u.has_value() == !!p); }
        log("laws ");
        CHECK(same(efp::fmap(Id {}, a), a)); CHECK(same(ca.fmap(Id {}), a)); CHECK(same(efp::fmap(dbl, efp::fmap(inc, a)), efp::fmap([](const T& x) { return T((x.get() + 1) * 2); }, a)));
        CHECK(same(efp::bind(a, Ret {}), a)); CHECK(same(ca >>= Ret {}, a)); CHECK(same(efp::bind(Mb(T(v)), K1 {}), K1 {}(T(v))));
        CHECK(same(efp::bind(efp::bind(a, K1 {}), K2 {}), efp::bind(a, [](const T& x) -> Mb { return efp::bind(K1 {}(x), K2 {}); })));
        CHECK(same((ca >>= K1 {}) >>= K2 {}, efp::bind(efp::bind(a, K1 {}), K2 {})));
    });
    for (int it = 0; it < 50 * scale; it++) scenario([&] { log("Maybe<string/int> ");
        efp::Maybe<std::string> s(std::string(40, 'a')), t, u(s); CHECK(u.value() == s.value()); t = s; CHECK(t.value() == std::string(40, 'a')); s = efp::nothing; CHECK(!s && t); s = efp::move(t); CHECK(s.value() == std::string(40, 'a')); efp::Maybe<std::string> w(efp::move(s)); CHECK(w.value() == std::string(40, 'a')); s = w; w = efp::nothing; CHECK(s.value() == std::string(40, 'a'));
        efp::Maybe<int> i(5), j; CHECK(i.value() == 5 && !j); j = i; i = efp::nothing; CHECK(j.value() == 5 && !i); CHECK(efp::fmap([](int x) { return x * 0.5; }, j).value() == 2.5); i = 0; CHECK(i && i.value() == 0); efp::Maybe<bool> bb(false); CHECK(bb && !bb.value()); });
}
#endif
DRIVER_MAIN(body)
