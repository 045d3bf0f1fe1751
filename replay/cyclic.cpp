// C06 / C07: Vcb and Vcq against a plain deque
#include "rt.hpp"
#include "efp/cyclic.hpp"
#include "efp/prelude.hpp"
using namespace rt;
using M = std::deque<int>;
#ifdef QUEUE
template<class A, size_t N> using Seq = efp::Vcq<A, N>;
static const bool Q = true;
#else
template<class A, size_t N> using Seq = efp::Vcb<A, N>;
static const bool Q = false;
#endif
template<class A, size_t N> struct H {
    using S = Seq<A, N>;
    static void same(S& s0, const M& m) {
        const S& s = s0;
        CHECK(s.size() == m.size()); CHECK(size_t(efp::length(s)) == m.size());
        CHECK(s.empty() == m.empty());
        CHECK(s.data() == s.begin()); CHECK(size_t(s.end() - s.begin()) == m.size()); CHECK(efp::data(s) == s.data());
        CHECK(s0.data() == s.data()); CHECK(s0.begin() == s.begin()); CHECK(s0.end() == s.end()); CHECK(efp::data(s0) == s.data());
        CHECK((const char*)s.data() >= (const char*)&s && (const char*)s.end() <= (const char*)(&s + 1));
        size_t k = 0;
        for (const A& x : s) { CHECK(val(x) == m[k]); k++; }
        CHECK(k == m.size());
        for (size_t i = 0; i < m.size(); i++) {
            CHECK(val(s[i]) == m[i]); CHECK(val(efp::nth(i, s)) == m[i]); CHECK(&s[i] == s.data() + i);
            CHECK(&s0[i] == s.data() + i); CHECK(&efp::nth(i, s0) == s.data() + i);
        }
    }
    static M fresh() { return Q ? M() : M(N, 0); }
    static void push(M& m, int v) { if (Q) { m.push_back(v); if (m.size() > N) m.pop_front(); } else { m.push_back(v); m.pop_front(); } }
#ifdef QUEUE
    static void pop(S& s, M& m) { log("pop "); int v = val(s.pop_front()); CHECK(v == m.front()); m.pop_front(); }
#else
    static void pop(S&, M&) {}
#endif
    static const int NOPS = 11;
    static void op(int k, S& s, M& m, S& t, M& tm, size_t x) {
        log("%d(%zu) ", k, x);
        switch (k) {
            case 0: case 1: case 2: { A a(int(x + 1)); s.push_back(a); CHECK(val(a) == int(x + 1)); push(m, int(x + 1)); break; }
            case 3: { if (m.empty()) return; size_t i = x % m.size(); int v = m[i]; s.push_back(s[i]); push(m, v); break; }
            case 4: case 5: if (!m.empty()) pop(s, m); break;
            case 6: { S c(s); same(c, m); A a(int(x + 5)); c.push_back(a); M cm = m; push(cm, int(x + 5)); same(c, cm); break; }
            case 7: { S c(efp::move(s)); same(c, m); S d(c); s = d; break; }
            case 8: { t = s; tm = m; break; }
            case 9: { S c(t); s = efp::move(c); m = tm; same(s, m); A a(3); c = s; same(c, m); c.push_back(a); break; }
            case 10: { S& r = s; s = r; same(s, m); if (x % 2) s = efp::move(r); break; }
        }
        same(s, m); same(t, tm);
    }
    static void all(uint64_t seed, int scale) {
        // every (position, size, second position, second size), then each operation and a run of pushes and pops
        for (int k = 0; k < NOPS; k++) for (size_t a = 0; a <= 2 * N + 1; a++) for (size_t b = 0; b <= N; b++) for (size_t c = 0; c <= 2 * N + 1; c++) for (size_t d = 0; d <= N; d++) {
            if (N > 4 && (a * 7 + b * 5 + c * 3 + d + k) % (N * N)) continue;
            scenario([&] {
                log("N=%zu a=%zu b=%zu c=%zu d=%zu: ", N, a, b, c, d);
                counting() = false;
                S s, t; M m = fresh(), tm = fresh();
                same(s, m);
                for (size_t i = 0; i < a; i++) { A e(int(i + 1)); s.push_back(e); push(m, int(i + 1)); if (Q && m.size() > b) pop(s, m); }
                for (size_t i = 0; i < c; i++) { A e(int(i + 100)); t.push_back(e); push(tm, int(i + 100)); if (Q && tm.size() > d) pop(t, tm); }
                same(s, m); same(t, tm);
                op(k, s, m, t, tm, a + c);
                for (size_t i = 0; i < N + 1; i++) { A e(int(i + 200)); s.push_back(e); push(m, int(i + 200)); same(s, m); }
                if (Q) while (!m.empty()) { pop(s, m); same(s, m); }
            });
        }
        Rng r(seed);
        for (int it = 0; it < 1500 * scale; it++) scenario([&] {
            counting() = false;
            log("N=%zu ", N);
            S s, t; M m = fresh(), tm = fresh();
            size_t len = 3 + r(80);
            for (size_t i = 0; i < len; i++) op(int(r(NOPS)), s, m, t, tm, r(1000));
        });
    }
};
static void body(uint64_t seed, int scale) {
    H<T, 1>::all(seed, scale); H<T, 2>::all(seed, scale); H<T, 3>::all(seed, scale); H<T, 4>::all(seed, scale); H<T, 7>::all(seed, scale);
    H<int, 3>::all(seed, scale); H<int, 8>::all(seed, scale); H<T, 33>::all(seed, scale);
}
DRIVER_MAIN(body)
