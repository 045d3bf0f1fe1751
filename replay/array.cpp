// C03: Array against a plain vector
#include "rt.hpp"
#include "efp/sequence.hpp"
#include "efp/prelude.hpp"
using namespace rt;
template<class F> static bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
template<class A, size_t N> struct R {
    using S = efp::Array<A, N>;
    static void same(const S& s, const int* m) {
        CHECK(s.size() == N); CHECK(s.capacity() == N); CHECK(size_t(efp::length(s)) == N);
        CHECK(s.empty() == (N == 0));
        CHECK(s.data() == s.begin()); CHECK(size_t(s.end() - s.begin()) == N); CHECK(efp::data(s) == s.data());
        CHECK((const char*)s.data() >= (const char*)&s && (const char*)s.end() <= (const char*)(&s + 1));
        size_t k = 0;
        for (const A& x : s) { CHECK(val(x) == m[k]); k++; }
        CHECK(k == N);
        for (size_t i = 0; i < N; i++) { CHECK(val(s[i]) == m[i]); CHECK(val(efp::nth(i, s)) == m[i]); CHECK(&s[i] == s.data() + i); }
    }
    static void same_mut(S& s) {
        CHECK(s.data() == s.begin()); CHECK(size_t(s.end() - s.begin()) == N); CHECK(efp::data(s) == s.data());
        for (size_t i = 0; i < N; i++) { CHECK(&s[i] == s.data() + i); CHECK(&efp::nth(i, s) == s.data() + i); }
    }
    static void list(S& s, const int* m) { for (size_t i = 0; i < N; i++) s[i] = A(m[i]); }
    static void all(Rng& r, int iters) {
        for (int it = 0; it < iters; it++) scenario([&] {
            log("Array<%zu> ", N);
            int m[N + 1], m2[N + 1];
            for (size_t i = 0; i < N; i++) { m[i] = int(r(9)); m2[i] = it % 3 ? int(r(9)) : m[i]; }
            if (N && it % 3 == 1) { for (size_t i = 0; i < N; i++) m2[i] = m[i]; m2[r(N)]++; }
            S s, s2;
            list(s, m); list(s2, m2); same(s, m); same(s2, m2); same_mut(s);
            bool eq = std::equal(m, m + N, m2);
            CHECK((s == s2) == eq); CHECK((s2 == s) == eq);
            log("copy "); S c(s); same(c, m); same(s, m); if (N) CHECK(c.data() != s.data());
            if (N) { c[0] = A(77); same(s, m); c[0] = A(m[0]); }
            log("move "); S d(efp::move(c)); same(d, m);
            log("assign "); CHECK(&(c = s2) == &c); same(c, m2); same(s2, m2);
            log("move-assign "); CHECK(&(s = efp::move(d)) == &s); same(s, m);
            d = s; same(d, m);
            log("self-assign "); S& q = s; s = q; same(s, m); s = efp::move(q); same(s, m);
            log("resize ");
            for (size_t k = 0; k < N + 3; k++) { CHECK(throws([&] { s.resize(k); }) == (k != N)); CHECK(throws([&] { s.reserve(k); }) == (k > N)); same(s, m); }
        });
    }
};
template<class A> static void lists() {
    using S = efp::Array<A, 3>;
    scenario([&] {
        log("list ");
        S s {A(1), A(2), A(3)}; int m[] = {1, 2, 3}; R<A, 3>::same(s, m);
        CHECK(throws([&] { S t {A(1), A(2)}; (void)t; }));
        CHECK(throws([&] { S t {A(1), A(2), A(3), A(4)}; (void)t; }));
        CHECK(throws([&] { S t {A(1)}; (void)t; }));
        efp::Array<A, 1> o {A(5)}; int m1[] = {5}; R<A, 1>::same(o, m1);
        efp::Array<A, 4> z; int m0[] = {0, 0, 0, 0}; R<A, 4>::same(z, m0);
    });
}
static void body(uint64_t seed, int scale) {
    Rng r(seed);
    R<T, 1>::all(r, 200 * scale); R<T, 2>::all(r, 200 * scale); R<T, 3>::all(r, 400 * scale); R<T, 8>::all(r, 400 * scale); R<T, 100>::all(r, 60 * scale);
    R<int, 1>::all(r, 200 * scale); R<int, 3>::all(r, 400 * scale); R<int, 16>::all(r, 400 * scale); R<int, 257>::all(r, 60 * scale);
    R<double, 5>::all(r, 300 * scale);
    lists<T>(); lists<int>();
}
DRIVER_MAIN(body)
