// C18: Tuple and swap against plain values
#include "rt.hpp"
#include "efp/meta.hpp"
using namespace rt;
using efp::Tuple; using efp::tuple;
template<int I> static int at(const Tuple<T, T, T>& t) { return val(t.get<I>()); }
static void is(Tuple<T, T, T>& t, int a, int b, int c) {
    const Tuple<T, T, T>& k = t;
    CHECK(at<0>(k) == a); CHECK(at<1>(k) == b); CHECK(at<2>(k) == c);
    CHECK(&efp::get<0>(k) == &k.get<0>() && &efp::get<1>(k) == &k.get<1>() && &efp::get<2>(k) == &k.get<2>());
    CHECK(&efp::get<0>(t) == &k.get<0>() && &efp::get<1>(t) == &k.get<1>() && &efp::get<2>(t) == &k.get<2>());
    CHECK(&efp::p<0>(k) == &k.get<0>() && &efp::p<1>(k) == &k.get<1>() && &efp::p<2>(k) == &k.get<2>());
    CHECK(&efp::p<0>(t) == &t.get<0>() && &efp::p<1>(t) == &t.get<1>() && &efp::p<2>(t) == &t.get<2>());
    CHECK(&efp::fst(k) == &k.get<0>() && &efp::snd(k) == &k.get<1>() && &efp::fst(t) == &k.get<0>() && &efp::snd(t) == &k.get<1>());
    int calls = 0;
    int r = k.match([&](const T& x, const T& y, const T& z) { calls++; CHECK(val(x) == a && val(y) == b && val(z) == c); CHECK(&x == &k.get<0>() && &y == &k.get<1>() && &z == &k.get<2>()); return a * 100 + b * 10 + c; });
    CHECK(calls == 1 && r == a * 100 + b * 10 + c);
}
static int twice(int x) { return 2 * x; }
static void body(uint64_t seed, int scale) {
    for (int a = -2; a < 3; a++) for (int b = -2; b < 3; b++) for (int c = -2; c < 3; c++) for (int d = 0; d < 8; d++) scenario([&] {
        log("(%d,%d,%d) d=%d ", a, b, c, d);
        int x = a + (d & 1), y = b + (d >> 1 & 1), z = c + (d >> 2 & 1);
        Tuple<T, T, T> s {T(a), T(b), T(c)}, t = tuple(T(x), T(y), T(z));
        is(s, a, b, c); is(t, x, y, z);
        CHECK((s == t) == (d == 0)); CHECK((s != t) == (d != 0));
        Tuple<T, T, T> u(s); is(u, a, b, c); is(s, a, b, c); CHECK(u == s);
        u = t; is(u, x, y, z); is(t, x, y, z);
        auto& ru = u; u = ru; is(u, x, y, z);
        u.get<1>() = T(9); is(u, x, 9, z); CHECK((u == t) == (y == 9)); is(t, x, y, z);
        efp::snd(u) = T(8); is(u, x, 8, z); efp::p<2>(u) = T(7); is(u, x, 8, 7); efp::fst(u) = T(6); is(u, 6, 8, 7);
        Tuple<T, T, T> v(efp::move(u)); is(v, 6, 8, 7);
        Tuple<T, T, T> w(t); w = efp::move(v); is(w, 6, 8, 7);
        efp::swap(w, t); is(w, x, y, z); is(t, 6, 8, 7);
        T p(a), q(b); efp::swap(p, q); CHECK(val(p) == b && val(q) == a); efp::swap(p, p); CHECK(val(p) == b);
    });
    double ds[] = {0.0, -1.5, 3.25, 1e300, -0.5};
    for (double d : ds) for (double e : ds) for (int i : {0, 1, -2147483647 - 1, 2147483647}) scenario([&] {
        log("%g %g %d ", d, e, i);
        auto t = tuple(d, i, 'x', e, size_t(i), true), s = tuple(e, i, 'x', e, size_t(i), true);
        CHECK(efp::get<0>(t) == d && efp::get<1>(t) == i && efp::get<2>(t) == 'x' && efp::get<3>(t) == e && efp::get<4>(t) == size_t(i) && efp::get<5>(t));
        CHECK((t == s) == (d == e)); auto u = t; u.get<5>() = false; CHECK(u != t); u = t; u.get<4>()++; CHECK(u != t); u = t; u.get<2>() = 'y'; CHECK(u != t); u = t; u.get<3>() = 77; CHECK(u != t); u = t; CHECK(u == t);
        CHECK(t.match([](double a, int b, char c, double f, size_t g, bool h) { return a + f + (b == int(g)) + c + h; }) == d + e + 1 + 'x' + 1);
        int x = i, y = 5; efp::swap(x, y); CHECK(x == 5 && y == i); efp::swap(d, e); efp::swap(d, e);
    });
    scenario([&] {
        counting() = false;
        std::string a(40, 'a'), b(40, 'b');
        auto t = tuple(a, b); auto u = t; CHECK(u == t); u.get<0>() += "x"; CHECK(u != t && t.get<0>() == a); efp::swap(u, t); CHECK(t.get<0>() == a + "x" && u.get<0>() == a && u.get<1>() == b);
        CHECK(t.match([](const std::string& p, const std::string& q) { return p + q; }) == a + "x" + b);
        auto f = tuple(twice, 3); CHECK(efp::fst(f)(efp::snd(f)) == 6);
        Tuple<int> one {4}; CHECK(one.get<0>() == 4 && one == Tuple<int> {4} && one != Tuple<int> {5});
        Tuple<> none {}; CHECK(none == Tuple<> {}); CHECK(!(none != Tuple<> {}));
    });
    Rng r(seed);
    for (int k = 0; k < 300 * scale; k++) scenario([&] {
        int m[2][5]; for (auto& x : m) for (int& y : x) y = int(r(3));
        log("%d%d%d%d%d %d%d%d%d%d ", m[0][0], m[0][1], m[0][2], m[0][3], m[0][4], m[1][0], m[1][1], m[1][2], m[1][3], m[1][4]);
        Tuple<T, T, T, T, T> a(m[0][0], m[0][1], m[0][2], m[0][3], m[0][4]), b(m[1][0], m[1][1], m[1][2], m[1][3], m[1][4]);
        CHECK((a == b) == std::equal(m[0], m[0] + 5, m[1])); CHECK((a != b) != (a == b));
        efp::swap(a, b); CHECK(val(a.get<4>()) == m[1][4] && val(a.get<3>()) == m[1][3] && val(b.get<0>()) == m[0][0] && val(b.get<2>()) == m[0][2]);
    });
}
DRIVER_MAIN(body)
