// C19: reductions and scalar helpers against exact arithmetic
#include "rt.hpp"
#include <limits>
#include <vector>
#include "efp/numeric.hpp"
using namespace rt;
using namespace efp;
typedef __int128 W;
template<class T> static std::vector<T> pool() {
    std::vector<T> r; const T lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max();
    for (T x : {T(0), T(1), T(2), T(3), T(5), T(100), T(7), lo, hi, T(lo + 1), T(hi - 1), T(hi / 2)}) r.push_back(x);
    if (std::numeric_limits<T>::is_signed) for (int x : {-1, -2, -3, -5, -100, -7}) r.push_back(T(x));
    if (!std::numeric_limits<T>::is_integer) for (double x : {0.5, -0.5, -1e-300, 1e-300, -1e30, 1e30, 2.25, -3.75}) r.push_back(T(x));
    if (!std::numeric_limits<T>::is_integer) { r.push_back(std::numeric_limits<T>::min()); r.push_back(-std::numeric_limits<T>::min()); r.push_back(std::numeric_limits<T>::epsilon()); }
    return r;
}
template<class T> struct Wide { typedef W t; };
template<> struct Wide<double> { typedef double t; };
template<> struct Wide<float> { typedef float t; };
template<class T, bool I = std::numeric_limits<T>::is_integer> struct Fits { static bool ok(W x) { return x >= (W)std::numeric_limits<T>::lowest() && x <= (W)std::numeric_limits<T>::max(); } };
template<class T> struct Fits<T, false> { static bool ok(double x) { return x - x == 0 && x <= (double)std::numeric_limits<T>::max() && -x <= (double)std::numeric_limits<T>::max(); } };
static bool mul(W a, W b, W& r) { return !__builtin_mul_overflow(a, b, &r); }
static bool mul(double a, double b, double& r) { r = a * b; return true; }
static bool mul(float a, float b, float& r) { r = a * b; return true; }
template<class S, class T> static void seq(const S& a, const std::vector<T>& x) {
    typedef typename Wide<T>::t U;
    for (size_t i = 0; i < x.size(); i++) CHECK(a[i] == x[i]);
    if (!x.empty()) {
        T mx = x[0], mn = x[0]; for (T e : x) { if (e > mx) mx = e; if (e < mn) mn = e; }
        CHECK(max_elem(a) == mx); CHECK(min_elem(a) == mn);
        U d = (U)mx - (U)mn; if (Fits<T>::ok(d)) CHECK(max_min(a) == (T)d);
    }
    U s = 0; bool ok = true; for (T e : x) { s = s + (U)e; ok = ok && Fits<T>::ok(s); }
    if (ok) CHECK(sum(a) == (T)s);
    U p = 1; ok = true; for (T e : x) { if (ok) ok = mul(p, (U)e, p); ok = ok && Fits<T>::ok(p); }
    if (ok) CHECK(product(a) == (T)p);
}
template<class T> static void show(const std::vector<T>& x) { log("["); for (size_t i = 0; i < x.size() && i < 12; i++) log("%.9g ", (double)x[i]); log("] n=%zu ", x.size()); }
template<class T, size_t N> static void arr(const std::vector<T>& x) { Array<T, N> r; for (size_t i = 0; i < N; i++) r[i] = x[i]; seq(r, x); }
template<class T> static void run(const std::vector<T>& x) {
    scenario([&] {
        show(x);
        Vector<T> v; for (T e : x) v.push_back(e);
        seq(v, x); seq(VectorView<T>(v.data(), v.size()), x);
        if (x.size() <= 70) { ArrVec<T, 70> a; for (T e : x) a.push_back(e); seq(a, x); }
        switch (x.size()) { case 1: arr<T, 1>(x); break; case 2: arr<T, 2>(x); break; case 3: arr<T, 3>(x); break; case 4: arr<T, 4>(x); break; case 9: arr<T, 9>(x); break; case 64: arr<T, 64>(x); break; }
    });
}
template<class T> static void scalars() {
    typedef typename Wide<T>::t U; auto p = pool<T>();
    for (T a : p) for (T b : p) scenario([&] {
        log("a=%.17g b=%.17g ", (double)a, (double)b);
        const T c = a, d = b;
        CHECK(efp::max(a, b) == (a > b ? a : b)); CHECK(efp::min(a, b) == (a < b ? a : b)); CHECK(efp::max(c, d) == (a > b ? a : b)); CHECK(efp::min(c, d) == (a < b ? a : b));
        CHECK(efp::max(a, a) == a && efp::min(a, a) == a);
        CHECK(op_eq(a, b) == (a == b)); CHECK(op_neq(a, b) == (a != b)); CHECK(op_lt(a, b) == (a < b)); CHECK(op_gt(a, b) == (a > b)); CHECK(op_leq(a, b) == (a <= b)); CHECK(op_geq(a, b) == (a >= b));
        U x = (U)a, y = (U)b;
        if (Fits<T>::ok(x + y)) CHECK(op_add(a, b) == (T)(x + y));
        if (Fits<T>::ok(x - y)) CHECK(op_sub(a, b) == (T)(x - y));
        U z; if (mul(x, y, z) && Fits<T>::ok(z)) CHECK(op_mul(a, b) == (T)z);
        if (y != 0 && Fits<T>::ok(x / y)) CHECK(op_div(a, b) == (T)(x / y));
        if (Fits<T>::ok(-x)) { CHECK(op_neg(a) == (T)-x); CHECK(efp::abs(a) == (a < T(0) ? (T)-x : a)); } else if (!(a < T(0))) CHECK(efp::abs(a) == a);
        if (mul(x, x, z) && Fits<T>::ok(z)) CHECK(square(a) == (T)z);
        for (T l : {p[0], p[3], p[7], p[10], p.back()}) if (!(b < l)) { T w = a < l ? l : a > b ? b : a; CHECK(efp::clamp(l, b, a) == w); }
    });
}
template<class T> static void ints() {
    auto p = pool<T>(); typedef typename Wide<T>::t U;
    for (T a : p) for (T b : p) if (b != 0 && Fits<T>::ok((U)a / (U)b)) scenario([&] { log("mod a=%.17g b=%.17g ", (double)a, (double)b); CHECK(op_mod(a, b) == (T)((U)a % (U)b)); });
}
template<class T> static void all(uint64_t seed, int scale) {
    auto p = pool<T>();
    run(std::vector<T>());
    for (T a : p) run(std::vector<T>{a});
    for (T a : p) for (T b : p) run(std::vector<T>{a, b});
    for (T a : p) for (T b : p) for (T c : p) if (scale > 1 || seed) run(std::vector<T>{a, b, c});
    Rng g(seed * 17 + sizeof(T));
    for (int k = 0; k < 400 * scale; k++) {
        size_t n = 4 + g.next() % (k % 10 == 0 ? 600 : 9); if (k % 17 == 0) n = 64; std::vector<T> x;
        int mode = (int)(g.next() % 6);
        for (size_t i = 0; i < n; i++) switch (mode) { case 0: x.push_back(p[g.next() % p.size()]); break; case 1: x.push_back(T(1 + g.next() % 3)); break;
            case 2: x.push_back(std::numeric_limits<T>::is_signed ? T(-(int)(1 + g.next() % 50)) : T(g.next() % 50)); break; case 3: x.push_back(T(g.next() % 100)); break;
            case 4: x.push_back(i == k % n ? std::numeric_limits<T>::lowest() : T(5)); break; default: x.push_back(std::numeric_limits<T>::is_signed ? (T)((int)(g.next() % 5) - 2) : T(g.next() % 2)); }
        run(x);
    }
    scalars<T>();
}
static void approx() {
    double e = std::numeric_limits<double>::epsilon(); float ef = std::numeric_limits<float>::epsilon();
    for (double a : {0.0, 0.5, -0.25, 0.1, -0.1}) for (double d : {0.0, e / 4, -e / 4, e, -e, 4 * e, -4 * e, 1.0, -1.0, 0.001, -0.001}) scenario([&] {
        double b = a + d, df = a - b; log("is_approx %.17g %.17g ", a, b); CHECK((is_approx(a, b) != 0) == ((df < 0 ? -df : df) <= e)); });
    for (float a : {0.f, .5f, -.25f}) for (float d : {0.f, ef / 4, -ef / 4, ef, -ef, 4 * ef, -4 * ef, 1.f, -1.f}) scenario([&] {
        float b = a + d, df = a - b; log("is_approx float %.9g %.9g ", a, b); CHECK((is_approx(a, b) != 0) == ((df < 0 ? -df : df) <= ef));
        double dd = (double)a - (double)b; CHECK((is_approx(a, (double)b) != 0) == ((dd < 0 ? -dd : dd) <= e)); CHECK((is_approx((double)a, b) != 0) == ((dd < 0 ? -dd : dd) <= e)); });
    for (bool a : {false, true}) for (bool b : {false, true}) { CHECK(op_not(a) == !a); CHECK(op_and(a, b) == (a && b)); CHECK(op_or(a, b) == (a || b)); }
}
static void body(uint64_t seed, int scale) {
    all<int>(seed, scale); all<size_t>(seed, scale); all<double>(seed, scale); all<long long>(seed, scale); all<float>(seed, scale); all<unsigned>(seed, scale);
    ints<int>(); ints<size_t>(); ints<long long>(); approx();
}
DRIVER_MAIN(body)
