// C20: the statistics against plain long double formulas
#include "rt.hpp"
#include <cmath>
#include <vector>
#include "efp/scientific.hpp"
using namespace rt;
using namespace efp;
typedef long double L;
static void near(L got, L want, L scale, L eps, const char* what) {
    if (!(fabsl(got - want) <= eps * (fabsl(want) + scale))) { log("%s: got %.17Lg want %.17Lg ", what, got, want); fail(what); }
}
#define NEAR(e, w, sc) near((L)(e), (w), (sc), eps, #e)
struct Sm {
    std::vector<L> x; size_t n; L s = 0, m = 0, ss = 0, mx = 0, mi = 0, big = 0;
    template<class S> explicit Sm(const S& a) {
        n = a.size(); for (size_t i = 0; i < n; i++) x.push_back((L)a[i]);
        mx = mi = x[0];
        for (L v : x) { s += v; ss += v * v; if (v > mx) mx = v; if (v < mi) mi = v; if (fabsl(v) > big) big = fabsl(v); }
        m = s / n;
    }
    L acov(size_t lag) const { L r = 0; for (size_t i = 0; i + lag < n; i++) r += (x[i] - m) * (x[i + lag] - m); return r; }
    L cross(const Sm& o) const { L r = 0; for (size_t i = 0; i < n; i++) r += (x[i] - m) * (o.x[i] - o.m); return r; }
    L sse(const Sm& o) const { L r = 0; for (size_t i = 0; i < n; i++) r += (x[i] - o.x[i]) * (x[i] - o.x[i]); return r; }
    void reg(L& b1, L& b2) const { L mi = (n - 1) / (L)2, a = 0, b = 0; for (size_t i = 0; i < n; i++) { a += (i - mi) * (x[i] - m); b += (i - mi) * (i - mi); } b1 = a / b; b2 = m - b1 * mi; }
};
template<class R, class S> static void one(const S& a, L eps, int lags) {
    Sm q(a); size_t n = q.n; L sd2 = q.acov(0) / n, spread = sqrtl(sd2) + 1e-3L * q.big + 1e-6L;
    NEAR((mean<R>(a)), q.m, q.big);
    NEAR((variance<R>(a)), sd2, spread * spread);
    NEAR((standard_deviation<R>(a)), sqrtl(sd2), spread);
    auto dc = remove_dc<R>(a); CHECK(dc.size() == n);
    for (size_t i = 0; i < n; i++) NEAR(dc[i], q.x[i] - q.m, q.big);
    if (n < 2) return;
    NEAR((variance<R, true>(a)), q.acov(0) / (n - 1), spread * spread);
    NEAR((standard_deviation<R, true>(a)), sqrtl(q.acov(0) / (n - 1)), spread);
    for (int k = 0; k < lags; k++) {
        size_t lag = k < 12 ? k : k == 12 ? n / 2 : k == 13 ? n - 2 : k == 14 ? n - 1 : k == 15 ? n : (size_t)k * 7919 % n;
        if (lag > n) continue;
        log("lag=%zu ", lag);
        L c = q.acov(lag), sc = spread * spread, v = sd2, vb = q.acov(0) / (n - 1); int l = (int)lag;
        NEAR((autocovariance<R>(a, l)), c / n, sc);
        NEAR((autocovariance<R, true>(a, l)), c / (n - 1), sc);
        bool ok = sd2 > 1e-3L * q.big * q.big * 1e-3L && sd2 > 0;
        if (ok) { NEAR((autocorrelation<R>(a, l)), c / n / v, sc / v); NEAR((autocorrelation<R, true>(a, l)), c / (n - 1) / vb, sc / v); }
        if (lag < n) { NEAR((autocovariance<R, false, true>(a, l)), c / (n - lag), sc * n); if (ok) NEAR((autocorrelation<R, false, true>(a, l)), c / (n - lag) / v, sc * n / v); }
        if (lag + 1 < n) { NEAR((autocovariance<R, true, true>(a, l)), c / (n - lag - 1), sc * n); if (ok) NEAR((autocorrelation<R, true, true>(a, l)), c / (n - lag - 1) / vb, sc * n / v); }
    }
    L b1, b2; q.reg(b1, b2); auto t = linear_regression_with_index<R>(a);
    NEAR(get<0>(t), b1, spread / n); NEAR(get<1>(t), b2, q.big);
    auto d = detrend<R>(a); CHECK(d.size() == n);
    for (size_t i = 0; i < n; i++) NEAR(d[i], q.x[i] - (b1 * i + b2), q.big);
}
template<class R, class S, class W> static void two(const S& a, const W& b, L eps) {
    Sm x(a), y(b); size_t n = x.n; L e = x.sse(y), big = x.big + y.big + 1e-6L;
    NEAR((sse<R>(a, b)), e, big * big); NEAR((mse<R>(a, b)), e / n, big * big); NEAR((rmse<R>(a, b)), sqrtl(e / n), big);
    if (fabsl(y.m) > 1e-2L * big) NEAR((nrmse_mean<R>(a, b)), sqrtl(e / n) / y.m, big / fabsl(y.m) * 10);
    if (y.mx - y.mi > 1e-2L * big) NEAR((nrmse_max_min<R>(a, b)), sqrtl(e / n) / (y.mx - y.mi), big / (y.mx - y.mi) * 10);
    if (n < 2) return;
    L c = x.cross(y), vx = x.acov(0), vy = y.acov(0);
    NEAR((covariance<R>(a, b)), c / n, big * big); NEAR((covariance<R, true>(a, b)), c / (n - 1), big * big);
    if (vx > 1e-4L * big * big && vy > 1e-4L * big * big) { NEAR((correlation<R>(a, b)), c / sqrtl(vx * vy), 100); NEAR((correlation<R, true>(a, b)), c / sqrtl(vx * vy), 100); }
    if (vx > 1e-3L * big * big) { auto t = linear_regression<R>(a, b); L b1 = c / vx; NEAR(get<0>(t), b1, 100); NEAR(get<1>(t), y.m - b1 * x.m, 100 * big); }
}
template<class R, class S> static void rms_(const S& a, L eps) { Sm q(a); NEAR((rms<R>(a)), sqrtl(q.ss / q.n), q.big + 1e-6L); }
static double gen(Rng& g, int kind) {
    double u = (double)(g.next() % 200001) / 1000.0 - 100.0;
    switch (kind) { case 0: return u; case 1: return (double)((int)(g.next() % 7) - 3); case 2: return 1e8 + u; case 3: return -1e6 + u / 10; case 4: return -100.0 - fabs(u); case 5: return fabs(u) + 1; default: return g.next() % 5 ? 0.0 : u; }
}
template<class S, class T> static void fill(S& v, const std::vector<T>& x) { for (auto e : x) v.push_back(e); }
template<size_t N> static void fixed(uint64_t seed, int kind) {
    Rng g(seed * 131 + N * 7 + kind);
    Array<double, N> r, s; Array<int, N> k; Vector<double> v;
    for (size_t i = 0; i < N; i++) { r[i] = gen(g, kind); s[i] = gen(g, (kind + 1) % 7); k[i] = (int)gen(g, kind == 2 ? 0 : kind); v.push_back(s[i]); }
    scenario([&] { log("Array n=%zu kind=%d ", N, kind); one<double>(r, 1e-8L, 16); one<double>(k, 1e-8L, 16); rms_<double>(r, 1e-8L); two<double>(r, s, 1e-8L); two<double>(v, r, 1e-8L); two<double>(r, r, 1e-8L); });
}
static void body(uint64_t seed, int scale) {
    std::vector<size_t> lens; for (size_t n = 1; n <= 24; n++) lens.push_back(n);
    for (size_t n : {40, 97, 128, 255, 256, 257, 1000, 1025, 1291, 1400, 2048}) lens.push_back(n);
    for (size_t n : lens) for (int kind = 0; kind < 7; kind++) for (int rep = 0; rep < (n < 25 ? 2 * scale : 1); rep++) {
        Rng g(seed * 977 + n * 31 + kind * 7 + rep * 1000003);
        std::vector<double> x, y; std::vector<int> k; std::vector<float> f;
        for (size_t i = 0; i < n; i++) { x.push_back(gen(g, kind)); y.push_back(gen(g, (kind * 3 + 1) % 7)); k.push_back((int)gen(g, kind == 2 ? 0 : kind)); f.push_back((float)gen(g, kind == 2 || kind == 3 ? 0 : kind)); }
        scenario([&] {
            log("n=%zu kind=%d rep=%d ", n, kind, rep);
            Vector<double> v, w; fill(v, x); fill(w, y); Vector<int> vi; fill(vi, k);
            one<double>(v, 1e-8L, 20); one<double>(vi, 1e-8L, 16); rms_<double>(v, 1e-8L); two<double>(v, w, 1e-8L); two<double>(w, v, 1e-8L); two<double>(v, v, 1e-8L);
            if (kind != 2 && kind != 3) two<double>(vi, vi, 1e-8L);
            Vector<float> vf; fill(vf, f); one<double>(vf, 1e-6L, 16);
            for (size_t i = 0; i < n; i++) CHECK(v[i] == x[i] && w[i] == y[i] && vi[i] == k[i]);
            if (n <= 300) { ArrVec<double, 300> a, b; fill(a, x); fill(b, y); one<double>(a, 1e-8L, 16); rms_<double>(a, 1e-8L); two<double>(a, b, 1e-8L); two<double>(v, b, 1e-8L); }
        });
    }
    for (size_t n : {46341, 70000}) scenario([&] {
        log("long n=%zu ", n);
        Rng g(seed + n); Vector<double> v; Vector<int> k; for (size_t i = 0; i < n; i++) { v.push_back(gen(g, 0) + (double)i / 100); k.push_back((int)(g.next() % 2001) - 1000); }
        one<double>(v, 1e-7L, 3); one<double>(k, 1e-7L, 3); two<double>(v, v, 1e-7L);
    });
    for (int kind = 0; kind < 7; kind++) { fixed<1>(seed, kind); fixed<2>(seed, kind); fixed<3>(seed, kind); fixed<5>(seed, kind); fixed<8>(seed, kind); fixed<33>(seed, kind); fixed<300>(seed, kind); fixed<1500>(seed, kind); }
}
DRIVER_MAIN(body)
