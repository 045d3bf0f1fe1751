// C01 / C02: Vector and ArrVec against std::vector
#include "rt.hpp"
#include "efp/sequence.hpp"
using namespace rt;
#ifdef ARRVEC
template<class A> using Seq = efp::ArrVec<A, 6>;
static const size_t CAP = 6;
#else
template<class A> using Seq = efp::Vector<A>;
static const size_t CAP = size_t(-1);
#endif
using M = std::vector<int>;

template<class A> struct H {
    using S = Seq<A>;
    static void same(const S& s, const M& m) {
        CHECK(s.size() == m.size());
        CHECK(s.size() <= s.capacity());
        CHECK(s.empty() == m.empty());
        CHECK(efp::length(s) == m.size());
        CHECK(size_t(s.end() - s.begin()) == m.size());
        CHECK(s.data() == s.begin());
        for (size_t i = 0; i < m.size(); i++) {
            CHECK(val(s[i]) == m[i]);
            CHECK(&s[i] == s.begin() + i);
            CHECK(val(efp::nth(i, s)) == m[i]);
        }
        size_t k = 0;
        for (const A& x : s) { CHECK(val(x) == m[k]); k++; }
    }
    static void fill(S& s, M& m, size_t n, size_t slack) {
        NoCount* nc = nullptr; (void)nc;
        for (size_t i = 0; i < n; i++) { s.push_back(A(int(i + 1))); m.push_back(int(i + 1)); }
#ifndef ARRVEC
        if (slack == 1) s.reserve(n + 3);
        if (slack == 2) s.shrink_to_fit();
        if (slack == 3) s.reserve(n);
#endif
    }
    template<class F> static bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
    static const int NOPS = 22;
    // one operation with arguments x, y; returns false if not applicable
    static bool op(int k, S& s, M& m, S& s2, M& m2, size_t x, size_t y) {
        size_t n = m.size();
        log("%d(%zu,%zu) ", k, x, y);
        switch (k) {
            case 0: { bool t = throws([&] { s.push_back(A(int(100 + x))); }); CHECK(t == (n >= CAP)); if (!t) m.push_back(100 + x); break; }
            case 1: { A a(int(100 + x)); const A& r = a; bool t = throws([&] { s.push_back(r); }); CHECK(t == (n >= CAP)); if (!t) m.push_back(100 + x); CHECK(val(a) == int(100 + x)); break; }
            case 2: { if (!n) return false; size_t i = x % n; const A& r = s[i]; bool t = throws([&] { s.push_back(r); }); CHECK(t == (n >= CAP)); if (!t) { int v = m[i]; m.push_back(v); } break; }
            case 3: {
#ifndef ARRVEC
                if (!n) return false; size_t i = x % n; s.emplace_back(s[i]); int v = m[i]; m.push_back(v);
#else
                return false;
#endif
                break; }
            case 4: { bool t = throws([&] { s.pop_back(); }); CHECK(t == (n == 0)); if (!t) m.pop_back(); break; }
            case 5: { size_t i = x % (n + 3); A a(int(200 + y)); bool t = throws([&] { s.insert(i, a); }); CHECK(t == (i > n || n >= CAP)); if (!t) m.insert(m.begin() + i, 200 + y); break; }
            case 6: { if (!n) return false; size_t i = x % (n + 1), j = y % n; const A& r = s[j]; bool t = throws([&] { s.insert(i, r); }); CHECK(t == (n >= CAP)); if (!t) { int v = m[j]; m.insert(m.begin() + i, v); } break; }
            case 7: { size_t i = x % (n + 2); bool t = throws([&] { s.erase(i); }); CHECK(t == (i >= n)); if (!t) m.erase(m.begin() + i); break; }
            case 8: { size_t k2 = x % (n + 6); bool t = throws([&] { s.resize(k2); }); CHECK(t == (k2 > CAP)); if (!t) {
                if (k2 <= n) m.resize(k2);
                else { size_t old = n; m.resize(k2); for (size_t i = old; i < k2; i++) { s[i] = A(int(300 + i)); m[i] = 300 + i; } } }
                break; }
            case 9: s.clear(); m.clear(); break;
            case 10: { S c(s); same(c, m); CHECK(c.data() != s.data() || n == 0); if (n) { c[x % n] = A(999); } break; }
            case 11: { S c(efp::move(s)); same(c, m); s = efp::move(c); break; }
            case 12: { s = s2; m = m2; break; }
            case 13: { s2 = s; m2 = m; break; }
            case 14: { s2 = efp::move(s); m2 = m; same(s2, m2); s = s2; break; }
            case 15: { S& r = s; s = r; break; }
            case 16: { S& r = s; s = efp::move(r); break; }
            case 17: { bool e = (s == s2); CHECK(e == (m == m2)); bool e2 = (s2 == s); CHECK(e2 == e); break; }
#ifndef ARRVEC
            case 18: { size_t c = x % 12; s.reserve(c); CHECK(s.capacity() >= c); break; }
            case 19: s.shrink_to_fit(); break;
#endif
            case 20: { S c {A(1), A(2), A(3)}; M cm {1, 2, 3}; same(c, cm); s = efp::move(c); m = cm; break; }
            case 21: { if (!n) return false; s[x % n] = A(int(400 + y)); m[x % n] = 400 + y; break; }
            default: return false;
        }
        same(s, m); same(s2, m2);
        return true;
    }
    static void all(uint64_t seed, int scale) {
        for (int k = 0; k < NOPS; k++)
            for (size_t n = 0; n <= 6; n++)
                for (size_t sl = 0; sl < 4; sl++)
                    for (size_t x = 0; x < 12; x++)
                        for (size_t y = 0; y < 4; y++)
                            scenario([&] {
                                log("fill(%zu,%zu) ", n, sl);
                                S s, s2; M m, m2;
                                { NoCount c; m.reserve(64); m2.reserve(64); }
                                counting() = false; m.reserve(64); m2.reserve(64); counting() = true;
                                fill(s, m, n, sl); fill(s2, m2, y, (sl + y) % 4);
                                op(k, s, m, s2, m2, x, y);
                                counting() = false; M().swap(m); M().swap(m2); counting() = true;
                            });
        Rng r(seed);
        for (int it = 0; it < 1500 * scale; it++)
            scenario([&] {
                S s, s2; M m, m2;
                size_t len = 5 + r(60), big = it % 7 == 0 ? 300 : 1;
                counting() = false; m.reserve(1024); m2.reserve(1024); counting() = true;
                for (size_t i = 0; i < len; i++) {
                    size_t reps = 1 + r(big);
                    int k = r(NOPS);
                    if (reps > 1) k = r(2);
                    for (size_t j = 0; j < reps && m.size() < 900; j++) op(k, s, m, s2, m2, r(1000), r(1000));
                }
                counting() = false; M().swap(m); M().swap(m2); counting() = true;
            });
    }
};
template<class A> static void conv() {
    for (int n = 0; n <= 5; n++) scenario([&] {
        log("conversions n=%d ", n);
        efp::ArrVec<A, 5> av;
        for (int i = 0; i < n; i++) av.push_back(A(i + 1));
        efp::Array<A, 5> ar {A(1), A(2), A(3), A(4), A(5)};
#ifdef ARRVEC
        efp::ArrVec<A, 9> c(av);
        efp::ArrVec<A, 7> d {A(1), A(2), A(3), A(4), A(5)};
#else
        efp::Vector<A> c(av);
        efp::Vector<A> d(ar);
#endif
        CHECK(c.size() == size_t(n)); for (int i = 0; i < n; i++) CHECK(val(c[i]) == i + 1);
        CHECK(d.size() == 5); for (int i = 0; i < 5; i++) CHECK(val(d[i]) == i + 1);
        CHECK(av.size() == size_t(n)); for (int i = 0; i < n; i++) CHECK(val(av[i]) == i + 1);
        c.push_back(A(77)); CHECK(c.size() == size_t(n) + 1 && val(c[n]) == 77);
        d.push_back(A(78)); CHECK(d.size() == 6 && val(d[5]) == 78);
    });
}
static void body(uint64_t seed, int scale) {
    H<T>::all(seed, scale);
    H<int>::all(seed + 1, scale);
    conv<T>(); conv<int>();
}
DRIVER_MAIN(body)
