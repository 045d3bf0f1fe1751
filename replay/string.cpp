// C04: BasicString against std::basic_string
#include "rt.hpp"
#include "efp/string.hpp"
using namespace rt;
template<class C> struct H {
    using S = efp::BasicString<C>;
    using V = efp::BasicStringView<C>;
    using M = std::basic_string<C>;
    static C ch(size_t i) { static const int t[] = {'a', 'b', 0, 'z', 0x80, 0xff, 'a', 'a'}; return C(t[i % 8]); }
    static C nz(size_t i) { C c = ch(i); return c ? c : C('q'); }
    static int sgn(int x) { return (x > 0) - (x < 0); }
    static M cs(size_t n, size_t k) { M m; for (size_t i = 0; i < n; i++) m += nz(i + k); return m; }
    template<class F> static bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
    static void same(const S& s, const M& m) {
        CHECK(s.size() == m.size() && efp::length(s) == m.size());
        CHECK(s.empty() == m.empty());
        CHECK(size_t(s.end() - s.begin()) == m.size());
        for (size_t i = 0; i < m.size(); i++) { CHECK(s[i] == m[i]); CHECK(s.at(i) == m[i]); CHECK(&s[i] == s.begin() + i); }
        CHECK(throws([&] { s.at(m.size()); }));
        CHECK(throws([&] { s.at(m.size() + 3); }));
        CHECK(throws([&] { s.at(size_t(-1)); }));
        if (!m.empty()) { CHECK(s.front() == m.front()); CHECK(s.back() == m.back()); }
        const C* c = s.c_str();
        for (size_t i = 0; i < m.size(); i++) CHECK(c[i] == m[i]);
        CHECK(c[m.size()] == C());
        V v(s); CHECK(v.size() == m.size()); CHECK(m.empty() || v.data() == s.data());
        V v2 = static_cast<V>(s); CHECK(v2.size() == m.size()); CHECK(m.empty() || v2.data() == s.data());
        bool zeros = m.find(C()) != M::npos;
        CHECK((s == m.c_str()) == !zeros);
        if (s.data()) CHECK((v == m.c_str()) == !zeros);
        CHECK(!(s == static_cast<const C*>(nullptr)) || m.empty());
    }
    static void fill(S& s, M& m, size_t n, size_t slack) {
        for (size_t i = 0; i < n; i++) { s.push_back(ch(i + slack)); m.push_back(ch(i + slack)); }
        if (slack == 1) s.reserve(n + 3);
        if (slack == 2) s.shrink_to_fit();
        if (slack == 3) s.reserve(n);
    }
    static const int NOPS = 32;
    static bool op(int k, S& s, M& m, S& s2, M& m2, size_t x, size_t y) {
        size_t n = m.size();
        log("%d(%zu,%zu) ", k, x, y);
        switch (k) {
            case 0: s.push_back(ch(x)); m.push_back(ch(x)); break;
            case 1: if (!n) return false; s.push_back(s[x % n]); m.push_back(m[x % n]); break;
            case 2: CHECK(throws([&] { s.pop_back(); }) == (n == 0)); if (n) m.pop_back(); break;
            case 3: { size_t i = x % (n + 2); CHECK(throws([&] { s.erase(i); }) == (i >= n)); if (i < n) m.erase(i, 1); break; }
            case 4: { size_t k2 = x % (n + 9); s.resize(k2); m.resize(k2); break; }
            case 5: s.clear(); m.clear(); break;
            case 6: { S c(s); same(c, m); CHECK(c.data() != s.data() || !n); if (n) c[x % n] = C('#'); break; }
            case 7: { S c(efp::move(s)); same(c, m); s = efp::move(c); break; }
            case 8: s = s2; m = m2; break;
            case 9: s2 = s; m2 = m; break;
            case 10: s2 = efp::move(s); m2 = m; same(s2, m2); s = s2; break;
            case 11: { S& r = s; s = r; s = efp::move(r); break; }
            case 12: CHECK((s == s2) == (m == m2)); CHECK((s2 == s) == (m == m2)); break;
            case 13: s.reserve(x % 12); break;
            case 14: s.shrink_to_fit(); break;
            case 15: CHECK(&(s += s2) == &s); m += m2; break;
            case 16: s += s; m += M(m); break;
            case 17: { M a = cs(x % 9, y); CHECK(&s.append(a.c_str()) == &s); m.append(a); break; }
            case 18: { size_t i = x % (n + 1); const C* p = s.c_str() + i; M a(m.c_str() + i); s.append(p); m.append(a); break; }
            case 19: CHECK(&s.append(x % 9, ch(y)) == &s); m.append(x % 9, ch(y)); break;
            case 20: { M a = cs(x % 9, y); CHECK(&s.assign(a.c_str()) == &s); m.assign(a); break; }
            case 21: { size_t i = x % (n + 1); const C* p = s.c_str() + i; M a(m.c_str() + i); s.assign(p); m.assign(a); break; }
            case 22: s.assign(x % 9, ch(y)); m.assign(x % 9, ch(y)); break;
            case 23: { size_t i = x % (n + 2); M a = cs(y % 7, x); CHECK(throws([&] { s.insert(i, a.c_str()); }) == (i > n)); if (i <= n) m.insert(i, a); break; }
            case 24: { size_t i = x % (n + 2); C b[5] = {ch(y), ch(y + 1), ch(y + 2), ch(y + 3), ch(y + 4)}; size_t c = y % 6; CHECK(throws([&] { s.insert(i, b, c); }) == (i > n)); if (i <= n) m.insert(i, b, c); break; }
            case 25: { size_t i = x % (n + 1), f = y % (n + 1); const C* p = s.c_str() + f; M a(m.c_str() + f); s.insert(i, p); m.insert(i, a); break; }
            case 26: { if (!n) return false; size_t i = x % (n + 1), f = y % n, c = (x / 2) % (n - f + 1); M a(m, f, c); s.insert(i, s.data() + f, c); m.insert(i, a); break; }
            case 27: { size_t i = x % (n + 2), l = y == 3 ? size_t(-1) : y; S r; bool t = throws([&] { r = s.substr(i, l); }); CHECK(t == (i > n)); if (!t) { same(r, m.substr(i, l)); if (r.size()) CHECK(r.data() != s.data()); } if (i == 0) same(s.substr(), m); break; }
            case 28: { size_t i = x % (n + 2), l = y == 3 ? size_t(-1) : y; C b[2000]; for (C& c : b) c = C('!'); if (n > 1900) return false; size_t g = 0; bool t = throws([&] { g = s.copy(b, l, i); }); CHECK(t == (i > n)); if (t) g = 0; else { CHECK(g == std::min(l, n - i)); for (size_t j = 0; j < g; j++) CHECK(b[j] == m[i + j]); } for (size_t j = g; j < 2000; j++) CHECK(b[j] == C('!')); break; }
            case 29: CHECK(sgn(s.compare(s2)) == sgn(m.compare(m2))); CHECK(sgn(s2.compare(s)) == sgn(m2.compare(m))); CHECK(s.compare(s) == 0); break;
            case 30: { size_t i = x % (n + 2), l = y == 3 ? size_t(-1) : y; int g = 0; bool t = throws([&] { g = s.compare(i, l, s2); }); CHECK(t == (i > n)); if (!t) CHECK(sgn(g) == sgn(m.compare(i, l, m2))); break; }
            case 31: { if (!n) return false; s[x % n] = ch(y); m[x % n] = ch(y); break; }
        }
        same(s, m); same(s2, m2);
        return true;
    }
    static void ctors() {
        for (size_t n = 0; n <= 300; n = n < 9 ? n + 1 : n * 4) for (size_t k = 0; k < 8; k++) scenario([&] {
            log("ctor n=%zu k=%zu ", n, k);
            M a = cs(n, k); S s(a.c_str()); same(s, a); V v(a.c_str()); CHECK(v.size() == n && v.data() == a.c_str()); CHECK(v.c_str() == a.c_str()); CHECK(v == a.c_str());
            if (n) { M b = a; b[n - 1] = C('%'); CHECK(!(v == b.c_str())); CHECK(!(s == b.c_str())); b = a; b[0] = C('%'); CHECK(!(v == b.c_str())); CHECK(!(s == b.c_str())); b = a.substr(1); CHECK(!(s == b.c_str()) || b == a); CHECK(!(v == b.c_str()) || b == a); }
            { M b = a + C('x'); CHECK(!(s == b.c_str())); CHECK(!(v == b.c_str())); }
            M e; for (size_t i = 0; i < n; i++) e += ch(i + k);
            S p(e.data(), n); same(p, e); p.push_back(C('r'));
            S f(n, ch(k)); same(f, M(n, ch(k))); f.push_back(C('r'));
            S g(e.data(), e.data() + n); same(g, e); g.push_back(C('r'));
            S l {ch(k), ch(k + 1), ch(k + 2)}; M lm; lm += ch(k); lm += ch(k + 1); lm += ch(k + 2); same(l, lm);
        });
    }
    static void all(uint64_t seed, int scale) {
        ctors();
        for (int k = 0; k < NOPS; k++) for (size_t n = 0; n <= 7; n++) for (size_t sl = 0; sl < 4; sl++) for (size_t x = 0; x < 10; x++) for (size_t y = 0; y < 4; y++)
            scenario([&] { log("fill(%zu,%zu) ", n, sl); S s, s2; M m, m2; fill(s, m, n, sl); fill(s2, m2, y ? n + 3 - y : 0, (sl + y) % 4); op(k, s, m, s2, m2, x, y); });
        Rng r(seed);
        for (int it = 0; it < 600 * scale; it++) scenario([&] {
            S s, s2; M m, m2;
            size_t len = 5 + r(40), big = it % 7 == 0 ? 300 : 1;
            for (size_t i = 0; i < len; i++) {
                size_t reps = 1 + r(big); int k = r(NOPS);
                if (reps > 1) k = r(2);
                if (m.size() > 400 || m2.size() > 400) { s.clear(); m.clear(); s2.clear(); m2.clear(); }
                if (m.size() > 60) reps = 1;
                for (size_t j = 0; j < reps; j++) op(k, s, m, s2, m2, r(1000), r(5));
            }
        });
    }
};
static void body(uint64_t seed, int scale) {
    H<char>::all(seed, scale); H<wchar_t>::all(seed, scale); H<char16_t>::all(seed, scale); H<char32_t>::all(seed, scale);
    scenario([] { efp::String s("abc\xff"); std::string t = s; CHECK(t == "abc\xff"); efp::StringView v(s); std::string u = v; CHECK(u == "abc\xff"); });
}
DRIVER_MAIN(body)
