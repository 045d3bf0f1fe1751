// C13 (ordered permutation) and, with -DSTABLE, C14 (stability) of every sort, on real vectors
#include "rt.hpp"
#include "efp/prelude.hpp"
#include "efp/sort.hpp"
using namespace rt;
struct K : T {                       // a tracked element with a key and an identity
    int id;
    K() : T(0), id(-1) {}
    K(int k, int i) : T(k), id(i) {}
    K(const K& o) : T(o), id(o.id) {}
    K(K&& o) noexcept : T(static_cast<T&&>(o)), id(o.id) { o.id = -777; }
    K& operator=(const K& o) { T::operator=(o); id = o.id; return *this; }
    K& operator=(K&& o) noexcept { int x = o.id; T::operator=(static_cast<T&&>(o)); if (&o != this) o.id = -777; id = x; return *this; }
};
inline bool operator<(const K& a, const K& b) { return a.get() < b.get(); }
inline bool operator>(const K& a, const K& b) { return a.get() > b.get(); }
static bool by_less(const K& a, const K& b) { return a.get() < b.get(); }
static bool by_greater(const K& a, const K& b) { return a.get() > b.get(); }
using In = std::vector<int>;
struct Fn { const char* name; bool stable, down, range; std::function<void(efp::Vector<K>&, size_t, size_t)> f; };
static bool cap(int t, const K& a, const K& b) { return a.get() / t < b.get() / t; }
static std::vector<Fn>& fns() {
    static std::vector<Fn> v;
    if (v.empty()) {
        auto up = [](const K& a, const K& b) { return a.get() < b.get(); };
        auto dn = [](const K& a, const K& b) { return a.get() > b.get(); };
#define WHOLE(n, st) v.push_back({#n, st, false, false, [=](efp::Vector<K>& a, size_t, size_t) { efp::n(a); }});
#define BY(n, st) v.push_back({#n " up", st, false, false, [=](efp::Vector<K>& a, size_t, size_t) { efp::n(a, up); }}); \
                  v.push_back({#n " down", st, true, false, [=](efp::Vector<K>& a, size_t, size_t) { efp::n(a, dn); }}); \
                  v.push_back({#n " fptr", st, true, false, [=](efp::Vector<K>& a, size_t, size_t) { efp::n(a, by_greater); }});
#define RANGE(n, st) v.push_back({#n " range", st, false, true, [=](efp::Vector<K>& a, size_t l, size_t r) { efp::n(a, l, r, up); }}); \
                     v.push_back({#n " range down", st, true, true, [=](efp::Vector<K>& a, size_t l, size_t r) { efp::n(a, l, r, by_greater); }});
        WHOLE(sort, true) WHOLE(timsort, true) WHOLE(insertion_sort, true)
        BY(sort_by, true) BY(timsort_by, true) BY(insertion_sort_by, true)
        RANGE(merge_sort_by, true)
        WHOLE(sort_unstable, false) WHOLE(size_trosort, false) WHOLE(quicksort, false) WHOLE(heapsort, false)
        BY(sort_unstable_by, false) BY(size_trosort_by, false) BY(heapsort_by, false)
        RANGE(quicksort_by, false)
    }
    return v;
}
static void run(const Fn& fn, const In& in, size_t l, size_t r) {
    if (fn.range && (l > r || r >= in.size())) return;
    if (!fn.range) { l = 0; r = in.empty() ? 0 : in.size() - 1; }
    scenario([&] {
        log("%s [%zu..%zu] n=%zu: ", fn.name, l, r, in.size());
        for (size_t i = 0; i < in.size() && i < 400; i++) log("%d ", in[i]);
        efp::Vector<K> a; a.reserve(in.size() + 1);
        for (size_t i = 0; i < in.size(); i++) a.push_back(K(in[i], int(i)));
        fn.f(a, l, r);
        CHECK(a.size() == in.size());
        NoCount nc; std::vector<char> seen(in.size(), 0);
        for (size_t i = 0; i < in.size(); i++) {
            int id = a[i].id; CHECK(id >= 0 && size_t(id) < in.size()); CHECK(!seen[id]); seen[id] = 1; CHECK(a[i].get() == in[id]);
            if (i < l || i > r) CHECK(id == int(i));
            if (i > l && i <= r) {
                int x = a[i - 1].get(), y = a[i].get(); CHECK(fn.down ? x >= y : x <= y);
#ifdef STABLE
                if (fn.stable && x == y) CHECK(a[i - 1].id < id);
#endif
            }
        }
    });
}
static void each(const In& in, size_t l, size_t r) {
    for (auto& f : fns()) {
#ifdef STABLE
        if (!f.stable) continue;
#endif
        run(f, in, l, r);
    }
}
static void body(uint64_t seed, int scale) {
    Rng r(seed);
    // every sequence over 3 keys up to length 6, and over 2 keys up to length 9
    for (int b = 2; b <= 3; b++)
        for (size_t n = 0; n <= (b == 2 ? 7u : 5u); n++) {
            In in(n, 0);
            for (;;) {
                size_t l = r(n + 1), h = r(n + 1); each(in, std::min(l, h), std::max(l, h));
                if (n > 1) each(in, 0, n - 1);
                size_t i = 0; while (i < n && ++in[i] == b) in[i++] = 0;
                if (i == n) break;
            }
        }
    for (int it = 0; it < 500 * scale; it++) {
        size_t n = it < 300 ? size_t(it) : it % 50 == 0 ? 1000 + r(3000) : r(200);
        int k = r(3) == 0 ? 2 : r(2) ? 1 + int(n / 3) : 5;
        In in(n); for (auto& x : in) x = int(r(k));
        int shape = int(r(6));
        if (shape == 0) std::sort(in.begin(), in.end());
        if (shape == 1) std::sort(in.begin(), in.end(), std::greater<int>());
        if (shape == 2) for (size_t i = 0; i < n; i++) in[i] = int(i % 33);
        size_t l = r(n + 1), h = r(n + 1);
        if (r(3) == 0) { l = 0; h = n ? n - 1 : 0; }
        if (n > 900) { const Fn& f = fns()[r(fns().size())]; run(f, in, 0, n - 1); continue; }
        each(in, std::min(l, h), std::max(l, h));
    }
}
DRIVER_MAIN(body)
