// C05, C10, C11, C12: the sequence functions against their mathematical definitions
#include "seqdrv.hpp"
#ifdef P_MAP
template<class A> void maps(Rng& r, size_t n, int k) {
    M m = rnd(r, n, k);
    scenario([&] {
        show("map/filter/fold ", m);
        sources<A>(m, [&](const auto& s) {
            using S = efp::Decay<decltype(s)>;
            M x; for (int v : m) x.push_back(v * 3 + 1);
            CHECK(eq(efp::map([](const A& a) { return A(val(a) * 3 + 1); }, s), x)); CHECK(eq(s, m));
            std::vector<long> o; for (int v : m) o.push_back(v); 
            auto lo = efp::map([](const A& a) { return long(val(a)) << 33; }, s); CHECK(efp::length(lo) == m.size());
            for (size_t i = 0; i < m.size(); i++) CHECK(efp::nth(i, lo) == o[i] << 33);
            for (int t = 0; t <= k; t += k > 4 ? k / 3 + 1 : 1) {
                x.clear(); int calls = 0; for (int v : m) if (v < t) x.push_back(v);
                CHECK(eq(efp::filter([&](const A& a) { calls++; return val(a) < t; }, s), x)); CHECK(eq(s, m)); CHECK(calls == int(m.size()));
                x.clear(); for (int v : m) if (v >= t) x.push_back(v);
                CHECK(eq(efp::filter([&](const A& a) { return val(a) >= t; }, s), x));
            }
            if (m.size() <= 300) {
                NoCount nc; std::string f1, g1 = "z";
                for (int v : m) f1 = "(" + f1 + std::to_string(v) + ")";
                for (size_t i = m.size(); i > 0; i--) g1 = "(" + std::to_string(m[i - 1]) + g1 + ")";
                CHECK(f1 == efp::foldl([](const std::string& a, const A& b) { return "(" + a + std::to_string(val(b)) + ")"; }, std::string(), s));
                CHECK(g1 == efp::foldr([](const A& b, const std::string& a) { return "(" + std::to_string(val(b)) + a + ")"; }, std::string("z"), s));
            }
            CHECK(efp::foldl([](uint64_t a, const A& b) -> uint64_t { return a * 7 + val(b); }, uint64_t(5), s) == [&] { uint64_t a = 5; for (int v : m) a = a * 7 + v; return a; }());
            CHECK(efp::foldr([](const A& b, uint64_t a) -> uint64_t { return a * 7 + val(b); }, uint64_t(5), s) == [&] { uint64_t a = 5; for (size_t i = m.size(); i > 0; i--) a = a * 7 + m[i - 1]; return a; }());
            { NoCount nc; M seen; efp::for_each([&](const A& a) { seen.push_back(val(a)); }, s); CHECK(seen == m);
              std::vector<size_t> is; seen.clear(); efp::for_each_with_index([&](size_t i, const A& a) { is.push_back(i); seen.push_back(val(a)); }, s); CHECK(seen == m); CHECK(is.size() == m.size()); for (size_t i = 0; i < is.size(); i++) CHECK(is[i] == i); }
            x.clear(); for (size_t i = 0; i < m.size(); i++) x.push_back(int(i) * 2 - m[i]);
            CHECK(eq(efp::map_with_index([](size_t i, const A& a) { return A(int(i) * 2 - val(a)); }, s), x)); CHECK(eq(s, m));
        });
        owners<A>(m, [&](auto& s) {
            M x(m); for (auto& v : x) v += 10;
            efp::for_each_mut([](A& a) { a = A(val(a) + 10); }, s); CHECK(eq(s, x));
            for (size_t i = 0; i < x.size(); i++) x[i] = x[i] * 2 + int(i);
            efp::for_each_with_index_mut([](size_t i, A& a) { a = A(val(a) * 2 + int(i)); }, s); CHECK(eq(s, x));
        });
    });
}
template<class A> void maps2(Rng& r, size_t n, size_t n2) {
    M m = rnd(r, n, 9), m2 = rnd(r, n2, 9);
    scenario([&] {
        show("binary ", m); show("", m2);
        size_t k = std::min(n, n2);
        owners<A>(m, [&](auto& s) {
            auto go = [&](auto& t) {
                M x; for (size_t i = 0; i < k; i++) x.push_back(m[i] * 10 + m2[i]);
                CHECK(eq(efp::map([](const A& a, const A& b) { return A(val(a) * 10 + val(b)); }, s, t), x)); CHECK(eq(s, m)); CHECK(eq(t, m2));
                { NoCount nc; M seen; efp::for_each([&](const A& a, const A& b) { seen.push_back(val(a) * 10 + val(b)); }, s, t); CHECK(seen == x); }
                M y; for (size_t i = 0; i < k; i++) y.push_back(m[i] * 10 + m2[i] + int(i) * 100);
                CHECK(eq(efp::map_with_index([](size_t i, const A& a, const A& b) { return A(int(i) * 100 + val(a) * 10 + val(b)); }, s, t), y));
                { NoCount nc; M seen; efp::for_each_with_index([&](size_t i, const A& a, const A& b) { seen.push_back(int(i) * 100 + val(a) * 10 + val(b)); }, s, t); CHECK(seen == y); }
                CHECK(eq(efp::map([](const A& a, const A& b, const A& c) { return A(val(a) * 100 + val(b) * 10 + val(c)); }, s, t, s), [&] { M z; for (size_t i = 0; i < k; i++) z.push_back(m[i] * 101 + m2[i] * 10); return z; }()));
                M a2(m), b2(m2); for (size_t i = 0; i < k; i++) { a2[i] = m2[i] + 1; b2[i] = m[i] + 2; }
                auto sc = s; auto tc = t;
                efp::for_each_mut([](A& a, A& b) { int u = val(a), v = val(b); a = A(v + 1); b = A(u + 2); }, sc, tc); CHECK(eq(sc, a2)); CHECK(eq(tc, b2));
            };
            { auto t = mkV<A>(m2); go(t); }
            if (n2 <= 8) { auto t = mkA<A, 8>(m2); go(t); }
            if (n2 == 3) { auto t = mkR<A, 3>(m2); go(t); }
        });
    });
}
template<class A> void tab() {
    for (size_t n : {0, 1, 2, 7, 300, 70000}) scenario([&] {
        if (n > 300 && sizeof(A) > 4) return;
        log("from_function %zu ", n);
        auto v = efp::from_function(n, [](size_t i) { return A(int(i) * 2 + 1); });
        CHECK(v.size() == n); for (size_t i = 0; i < n; i++) CHECK(val(v[i]) == int(i) * 2 + 1);
        auto w = efp::from_function(efp::Size<4> {}, [](size_t i) { return A(int(i) * 2 + 1); });
        CHECK(efp::length(w) == 4); for (size_t i = 0; i < 4; i++) CHECK(val(w[i]) == int(i) * 2 + 1);
        NoCount nc; std::vector<size_t> is; efp::for_index([&](size_t i) { is.push_back(i); }, n); CHECK(is.size() == n); for (size_t i = 0; i < n; i++) CHECK(is[i] == i);
    });
    scenario([&] {
        log("compose ");
        auto f = [](int x) { return x * 3; }; auto g = [](int x) { return x + 5; }; auto h = [](int x) { return x - 100; };
        for (int x = -5; x < 6; x++) { CHECK(efp::compose(f, g)(x) == (x + 5) * 3); CHECK(efp::compose(f, g, h)(x) == (x - 95) * 3); CHECK(efp::id(x) == x); }
    });
}
static void body(uint64_t seed, int scale) {
    Rng r(seed);
    for (int it = 0; it < 6 * scale; it++) for (size_t n : lens()) { maps<T>(r, n, 5); maps<int>(r, n, 5); }
    maps<int>(r, 300, 40); maps<T>(r, 300, 40); maps<int>(r, 257, 40); maps<int>(r, 40000, 9); maps<int>(r, 70000, 9);
    for (size_t n : lens()) for (size_t n2 : lens()) { maps2<T>(r, n, n2); maps2<int>(r, n, n2); }
    maps2<int>(r, 300, 299); maps2<int>(r, 299, 300); maps2<int>(r, 300, 300); maps2<int>(r, 70000, 66000);
    tab<T>(); tab<int>();
}
#endif
#ifdef P_FIND
template<class A> void finds(const M& m, int k) {
    scenario([&] {
        show("elem/find ", m);
        sources<A>(m, [&](const auto& s) {
            auto chk = [&](const M& all, auto e, auto ei, auto es) {
                CHECK(e == !all.empty());
                CHECK(ei.has_value() == !all.empty()); CHECK(ei.is_nothing() == all.empty());
                if (!all.empty()) CHECK(int(ei.value()) == all[0]);
                CHECK(eq(es, all));
            };
            for (int t = -1; t <= k; t++) {
                M all; for (size_t i = 0; i < m.size(); i++) if (m[i] == t) all.push_back(int(i));
                chk(all, efp::elem(A(t), s), efp::elem_index(A(t), s), efp::elem_indices(A(t), s));
                auto p = [&](const A& a) { return val(a) == t; };
                chk(all, efp::find(p, s), efp::find_index(p, s), efp::find_indices(p, s));
                M ge; for (size_t i = 0; i < m.size(); i++) if (m[i] >= t) ge.push_back(int(i));
                auto q = [&](const A& a) { return val(a) >= t; };
                chk(ge, efp::find(q, s), efp::find_index(q, s), efp::find_indices(q, s));
            }
            CHECK(eq(s, m));
        });
    });
}
static void body(uint64_t seed, int scale) {
    Rng r(seed);
    // every content over {0,1} up to length 6, {0,1,2} up to 4
    for (size_t n = 0; n <= 6; n++) for (int b = 0; b < (1 << n); b++) { M m; for (size_t i = 0; i < n; i++) m.push_back(b >> i & 1); finds<int>(m, 2); if (n <= 5) finds<T>(m, 2); }
    for (int it = 0; it < 10 * scale; it++) for (size_t n : lens()) finds<T>(rnd(r, n, 4), 4);
    finds<int>(rnd(r, 300, 5), 5); finds<int>(rnd(r, 257, 300), 5); finds<T>(rnd(r, 300, 60), 5);
    for (size_t n : {260u, 33000u, 70000u}) { M m(n, 7); m[n - 1] = 1; m[n / 2] = 0; finds<int>(m, 3); M z(n, 7); finds<int>(z, 2); }
    scenario([&] { log("chars "); efp::Vector<char> v; for (int i = 0; i < 5; i++) v.push_back(char('a' + i % 3)); CHECK(efp::elem('b', v)); CHECK(!efp::elem('z', v)); CHECK(efp::elem_index('c', v).value() == 2); CHECK(eq(efp::elem_indices('a', v), M{0, 3})); });
    scenario([&] { log("double "); efp::Vector<double> v; for (double d : {0.5, -0.0, 1.5, 0.0}) v.push_back(d); CHECK(eq(efp::elem_indices(0.0, v), M{1, 3})); CHECK(efp::elem_index(1.5, v).value() == 2); });
}
#endif
#ifdef P_VIEW
template<class W, class B> void rng(const W& w, const B* base, size_t lo, size_t n, const M& m) {
    CHECK(size_t(efp::length(w)) == n); CHECK(w.size() == n); CHECK(w.empty() == (n == 0)); CHECK(size_t(w.end() - w.begin()) == n);
    if (n) { CHECK((const void*)w.data() == (const void*)(base + lo)); CHECK((const void*)efp::data(w) == (const void*)(base + lo)); }
    for (size_t i = 0; i < n; i++) { CHECK(val(w[i]) == m[lo + i]); CHECK(val(efp::nth(i, w)) == m[lo + i]); }
    W c(w); CHECK(c == w); W d; d = w; CHECK(d == w); CHECK(w == W(w.data(), w.size()));
}
template<class A> void views(Rng& r, size_t n, bool deep) {
    M m = rnd(r, n, 4);
    scenario([&] {
        show("views ", m);
        auto go = [&](auto& s) {
            const A* b = efp::data(s);
            std::vector<size_t> ks; if (deep) for (size_t k = 0; k <= n + 2; k++) ks.push_back(k); else ks = {0, 1, n / 2, n - 1, n, n + 1};
            ks.push_back(size_t(-1)); ks.push_back(size_t(1) << 63); ks.push_back((size_t(1) << 32) + 1);
            for (size_t k : ks) {
                size_t c = std::min(k, n);
                log("take/drop %zu ", k);
                rng(efp::take(k, s), b, 0, c, m); rng(efp::drop(k, s), b, c, n - c, m);
                if (k <= n) { rng(efp::take_unsafe(k, s), b, 0, k, m); rng(efp::drop_unsafe(k, s), b, k, n - k, m); }
                for (size_t e : ks) { size_t ce = std::max(std::min(e, n), c); rng(efp::slice(k, e, s), b, c, ce - c, m); if (k <= e && e <= n) rng(efp::slice_unsafe(k, e, s), b, k, e - k, m); }
            }
            rng(efp::take(efp::Size<2> {}, s), b, 0, std::min<size_t>(2, n), m); rng(efp::drop(efp::Size<2> {}, s), b, std::min<size_t>(2, n), n - std::min<size_t>(2, n), m);
            rng(efp::slice(efp::Size<1> {}, efp::Size<3> {}, s), b, std::min<size_t>(1, n), std::min<size_t>(3, n) - std::min<size_t>(1, n), m);
            CHECK(efp::is_null(s) == (n == 0));
            if (n) { rng(efp::tail(s), b, 1, n - 1, m); rng(efp::init(s), b, 0, n - 1, m); CHECK(&efp::head(s) == b); CHECK(&efp::last(s) == b + n - 1); }
            else { CHECK(throws([&] { efp::tail(s); })); CHECK(throws([&] { efp::init(s); })); CHECK(throws([&] { efp::head(s); })); CHECK(throws([&] { efp::last(s); })); }
            for (int t = 0; t < 5; t++) { size_t k = 0; while (k < n && m[k] < t) k++;
                auto p = [&](const A& a) { return val(a) < t; };
                rng(efp::take_while(p, s), b, 0, k, m); rng(efp::drop_while(p, s), b, k, n - k, m); }
            CHECK(eq(s, m));
        };
        owners<A>(m, [&](auto& s) { go(s); const auto& c = s; go(c); });
        M pad(m); pad.insert(pad.begin(), -5); pad.push_back(-6); auto src = mkV<A>(pad);
        { const efp::VectorView<const A> w(src.data() + 1, n); go(w); efp::VectorView<const A> w2(w); CHECK(w2 == w); if (n) { CHECK(!(w == efp::VectorView<const A>(src.data() + 1, n - 1))); CHECK(!(w == efp::VectorView<const A>(src.data(), n)) || pad[0] == pad[1]); } }
        if (n <= 8) { efp::ArrVecView<const A, 8> w(src.data() + 1, n); go(w); efp::VectorView<const A> v(w); rng(v, src.data() + 1, 0, n, m); CHECK(v == efp::VectorView<const A>(src.data() + 1, n)); if (n) CHECK(!(w == efp::ArrVecView<const A, 8>(src.data() + 1, n - 1))); }
        if (n == 3) { efp::ArrayView<const A, 3> w(src.data() + 1); go(w); efp::VectorView<const A> v(w); rng(v, src.data() + 1, 0, n, m); CHECK(v == efp::VectorView<const A>(src.data() + 1, n)); efp::ArrVecView<const A, 3> x(w); rng(x, src.data() + 1, 0, n, m); CHECK(w == (efp::ArrayView<const A, 3>(src.data() + 1))); }
        if (n) CHECK(throws([&] { efp::VectorView<A> z(nullptr, n); }));
    });
}
template<size_t N> void statics(Rng& r) {
    M m = rnd(r, N, 4);
    scenario([&] {
        log("Array<%zu> compile-time slices ", N);
        auto s = mkR<int, N>(m); auto a = mkA<int, N + 2>(m); const int *b = efp::data(s), *c = efp::data(a);
        auto mn = [](size_t x) { return std::min(x, N); };
        rng(efp::take(efp::Size<7> {}, s), b, 0, mn(7), m); rng(efp::drop(efp::Size<7> {}, s), b, mn(7), N - mn(7), m); rng(efp::take(efp::Size<0> {}, s), b, 0, 0, m); rng(efp::drop(efp::Size<0> {}, s), b, 0, N, m);
        rng(efp::take(efp::Size<7> {}, a), c, 0, mn(7), m); rng(efp::drop(efp::Size<7> {}, a), c, mn(7), N - mn(7), m);
        rng(efp::slice(efp::Size<2> {}, efp::Size<9> {}, s), b, mn(2), mn(9) - mn(2), m); rng(efp::slice(efp::Size<2> {}, efp::Size<9> {}, a), c, mn(2), mn(9) - mn(2), m);
        rng(efp::slice(efp::Size<1> {}, size_t(4), s), b, mn(1), mn(4) - mn(1), m); rng(efp::slice(size_t(1), efp::Size<4> {}, s), b, mn(1), mn(4) - mn(1), m);
    });
}
static void body(uint64_t seed, int scale) {
    Rng r(seed);
    for (int it = 0; it < 3 * scale; it++) for (size_t n : lens()) { views<T>(r, n, true); views<int>(r, n, true); }
    views<int>(r, 300, false); views<int>(r, 70000, false); views<T>(r, 300, false);
    statics<1>(r); statics<2>(r); statics<3>(r); statics<5>(r); statics<7>(r); statics<8>(r); statics<12>(r);
    scenario([&] {
        log("StringView ");
        const char* t = "hello"; efp::StringView a(t), b(t), c(t, 3); CHECK(a == b); CHECK(a == "hello"); CHECK(!(a == c)); CHECK(c == "hel"); CHECK(!(c == "hello")); CHECK(!(c == "he")); CHECK(c.size() == 3); CHECK(a.size() == 5); CHECK(c.data() == t);
        efp::String s("hello"); efp::StringView v(s), w(s); CHECK(v == w); CHECK(v.size() == 5); CHECK(v.data() == s.data()); CHECK(v == "hello"); efp::StringView u(s); CHECK(u == v); CHECK(v == efp::StringView(s.data(), 5)); CHECK(u.size() == 5);
        CHECK(std::string(u) == "hello");
    });
}
#endif
#ifdef P_APPEND
template<class I> static std::vector<M> nest(Rng& r, size_t outer, I inner) { std::vector<M> v; for (size_t i = 0; i < outer; i++) v.push_back(rnd(r, inner(), 9)); return v; }
static M flat(const std::vector<M>& v, const M* delim = nullptr) { M o; for (size_t i = 0; i < v.size(); i++) { if (i && delim) o.insert(o.end(), delim->begin(), delim->end()); o.insert(o.end(), v[i].begin(), v[i].end()); } return o; }
template<class A> void apps(Rng& r, size_t n, size_t n2, size_t n3) {
    M a = rnd(r, n, 9), b = rnd(r, n2, 9), c = rnd(r, n3, 9);
    scenario([&] {
        show("append/cartesian ", a); show("", b); show("", c);
        M ab = flat({a, b}), abc = flat({a, b, c}), ba = flat({b, a});
        M prod, prod3; for (int x : a) for (int y : b) { prod.push_back(x * 10 + y); for (int z : c) prod3.push_back(x * 100 + y * 10 + z); }
        owners<A>(a, [&](auto& s) {
            CHECK(eq(efp::append(s), a));
            auto two = [&](auto& t) {
                CHECK(eq(efp::append(s, t), ab)); CHECK(eq(efp::append(t, s), ba)); CHECK(eq(s, a)); CHECK(eq(t, b)); CHECK(eq(efp::append(s, s), flat({a, a})));
                auto v = mkV<A>(c); CHECK(eq(efp::append(s, t, v), abc)); CHECK(eq(efp::append(s, t, v, s), flat({a, b, c, a})));
                CHECK(eq(efp::cartesian_map([](const A& x, const A& y) { return A(val(x) * 10 + val(y)); }, s, t), prod));
                CHECK(eq(efp::cartesian_map([](const A& x, const A& y, const A& z) { return A(val(x) * 100 + val(y) * 10 + val(z)); }, s, t, v), prod3));
                { NoCount nc; M seen; efp::cartesian_for_each([&](const A& x, const A& y) { seen.push_back(val(x) * 10 + val(y)); }, s, t); CHECK(seen == prod);
                  seen.clear(); efp::cartesian_for_each([&](const A& x, const A& y, const A& z) { seen.push_back(val(x) * 100 + val(y) * 10 + val(z)); }, s, t, v); CHECK(seen == prod3);
                  seen.clear(); efp::cartesian_for_each([&](const A& x) { seen.push_back(val(x)); }, s); CHECK(seen == a); }
                M wa(a), wb(b); if (n * n2 < 64 && n < 20) for (auto& x : wa) for (auto& y : wb) { x += 1; y = y * 2 + x; }
                auto sc = s; auto tc = t;
                efp::cartesian_for_each_mut([](A& x, A& y) { x = A(val(x) + 1); y = A(int(unsigned(val(y)) * 2u + unsigned(val(x)))); }, sc, tc); 
                if (n * n2 < 64 && n < 20) { CHECK(eq(sc, wa)); CHECK(eq(tc, wb)); }
            };
            { auto t = mkV<A>(b); two(t); } if (n2 <= 4) { auto t = mkA<A, 4>(b); two(t); } if (n2 == 3) { auto t = mkR<A, 3>(b); two(t); }
        });
        NoCount nc; std::vector<size_t> is, want; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n2; j++) for (size_t k = 0; k < n3; k++) want.push_back(i * 10000 + j * 100 + k);
        efp::cartesian_for_index([&](size_t i, size_t j, size_t k) { is.push_back(i * 10000 + j * 100 + k); }, n, n2, n3); CHECK(is == want);
        is.clear(); want.clear(); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n2; j++) want.push_back(i * 10000 + j * 100);
        efp::cartesian_for_index([&](size_t i, size_t j) { is.push_back(i * 10000 + j * 100); }, n, n2); CHECK(is == want);
    });
}
template<class A> void nests(Rng& r, size_t outer, size_t maxin, size_t dl) {
    auto v = nest(r, outer, [&] { return r(maxin + 1); }); M d = rnd(r, dl, 9); for (auto& x : d) x += 100;
    scenario([&] {
        log("concat/intercalate outer=%zu ", outer); show("delimiter ", d); for (auto& x : v) show("", x);
        M fl = flat(v), fd = flat(v, &d);
        auto go = [&](const auto& ass) {
            CHECK(eq(efp::concat(ass), fl));
            { auto e = mkV<A>(d); CHECK(eq(efp::intercalate(e, ass), fd)); CHECK(eq(e, d)); }
            if (dl <= 4) { auto e = mkA<A, 4>(d); CHECK(eq(efp::intercalate(e, ass), fd)); }
            if (dl == 2) { auto e = mkR<A, 2>(d); CHECK(eq(efp::intercalate(e, ass), fd)); }
            for (size_t i = 0; i < outer; i++) CHECK(eq(efp::nth(i, ass), v[i]));
        };
        log("Vector<Vector> "); { efp::Vector<efp::Vector<A>> x; for (auto& y : v) x.push_back(mkV<A>(y)); go(x); }
        if (maxin <= 6) { log("Vector<ArrVec> "); efp::Vector<efp::ArrVec<A, 6>> x; for (auto& y : v) x.push_back(mkA<A, 6>(y)); go(x); }
        if (maxin <= 6 && outer <= 5) { log("ArrVec<ArrVec> "); efp::ArrVec<efp::ArrVec<A, 6>, 5> x; for (auto& y : v) x.push_back(mkA<A, 6>(y)); go(x); }
        if (outer <= 5) { log("ArrVec<Vector> "); efp::ArrVec<efp::Vector<A>, 5> x; for (auto& y : v) x.push_back(mkV<A>(y)); go(x); }
        if (outer == 3 && maxin <= 6) { log("Array<ArrVec> "); efp::Array<efp::ArrVec<A, 6>, 3> x; for (size_t i = 0; i < 3; i++) x[i] = mkA<A, 6>(v[i]); go(x); }
        if (outer == 3) { log("Array<Vector> "); efp::Array<efp::Vector<A>, 3> x; for (size_t i = 0; i < 3; i++) x[i] = mkV<A>(v[i]); go(x); }
    });
    if (maxin >= 2) { auto w = nest(r, outer, [] { return size_t(2); }); scenario([&] {
        log("concat/intercalate of pairs outer=%zu ", outer); show("delimiter ", d); for (auto& x : w) show("", x);
        M fl = flat(w), fd = flat(w, &d);
        auto go = [&](const auto& ass) {
            CHECK(eq(efp::concat(ass), fl)); { auto e = mkV<A>(d); CHECK(eq(efp::intercalate(e, ass), fd)); }
            if (dl <= 4) { auto e = mkA<A, 4>(d); CHECK(eq(efp::intercalate(e, ass), fd)); } if (dl == 2) { auto e = mkR<A, 2>(d); CHECK(eq(efp::intercalate(e, ass), fd)); }
        };
        { efp::Vector<efp::Array<A, 2>> x; for (auto& y : w) x.push_back(mkR<A, 2>(y)); go(x); }
        if (outer <= 5) { efp::ArrVec<efp::Array<A, 2>, 5> x; for (auto& y : w) x.push_back(mkR<A, 2>(y)); go(x); }
        if (outer == 3) { efp::Array<efp::Array<A, 2>, 3> x; for (size_t i = 0; i < 3; i++) x[i] = mkR<A, 2>(w[i]); go(x); }
    }); }
}
static void body(uint64_t seed, int scale) {
    Rng r(seed);
    for (size_t n = 0; n <= 4; n++) for (size_t n2 = 0; n2 <= 4; n2++) for (size_t n3 = 0; n3 <= 3; n3++) { apps<T>(r, n, n2, n3); apps<int>(r, n, n2, n3); }
    apps<int>(r, 300, 3, 2); apps<int>(r, 3, 300, 1); apps<int>(r, 300, 300, 1);
    for (int it = 0; it < 4 * scale; it++) for (size_t o = 0; o <= 6; o++) for (size_t mi : {0, 1, 2, 4, 6, 9}) for (size_t dl = 0; dl <= 3; dl++) { if (it % 2) nests<T>(r, o, mi, dl); else nests<int>(r, o, mi, dl); }
    nests<int>(r, 300, 3, 2); nests<int>(r, 3, 400, 300); nests<int>(r, 70, 1000, 3);
}
#endif
DRIVER_MAIN(body)
