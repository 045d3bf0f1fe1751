#include "seqs.hpp"
using VV = VectorView<E>;
using AW = ArrVecView<E, CAP>;
using RW = ArrayView<E, CAP>;
#define OUT const E** d, size_t* s
template<class W> static void put(const W& w, OUT) { *d = w.data(); *s = w.size(); }
// T: name suffix, P: parameters giving a const source, D: declarations, X: the source expression
#define OPS(T, P, D, X)                                                                                     \
    void take_##T(size_t n, P, OUT) { D put(take(n, X), d, s); }                                            \
    void drop_##T(size_t n, P, OUT) { D put(drop(n, X), d, s); }                                            \
    void slice_##T(size_t n, size_t m, P, OUT) { D put(slice(n, m, X), d, s); }                             \
    void takeu_##T(size_t n, P, OUT) { D put(take_unsafe(n, X), d, s); }                                    \
    void dropu_##T(size_t n, P, OUT) { D put(drop_unsafe(n, X), d, s); }                                    \
    void sliceu_##T(size_t n, size_t m, P, OUT) { D put(slice_unsafe(n, m, X), d, s); }                     \
    void tail_##T(P, OUT) { D put(tail(X), d, s); }                                                         \
    void init_##T(P, OUT) { D put(init(X), d, s); }                                                         \
    void take2_##T(P, OUT) { D put(take(Size<2> {}, X), d, s); }                                            \
    void drop2_##T(P, OUT) { D put(drop(Size<2> {}, X), d, s); }                                            \
    const E* head_##T(P) { D return &head(X); }                                                             \
    const E* last_##T(P) { D return &last(X); }                                                             \
    bool isnull_##T(P) { D return is_null(X); }
#define CT(T, P, D, X)                                                                                      \
    void takebig_##T(P, OUT) { D put(take(Size<CAP + 3> {}, X), d, s); }                                    \
    void dropbig_##T(P, OUT) { D put(drop(Size<CAP + 3> {}, X), d, s); }                                    \
    void slice13_##T(P, OUT) { D put(slice(Size<1> {}, Size<3> {}, X), d, s); }                             \
    void slicebig_##T(P, OUT) { D put(slice(Size<CAP - 1> {}, Size<CAP + 4> {}, X), d, s); }                \
    void slicedyn_##T(size_t m, P, OUT) { D put(slice(Size<1> {}, m, X), d, s); }
#define WHILE(T, P, D, X)                                                                                   \
    void takew_##T(P, OUT) { D put(take_while([](const E& e) -> bool { return pr(e); }, X), d, s); }        \
    void dropw_##T(P, OUT) { D put(drop_while([](const E& e) -> bool { return pr(e); }, X), d, s); }
// a view built by its constructor, through its public observers
#define VIEW(T, W, MK)                                                                                      \
    void mk_##T(const E* p, size_t n, OUT) { W w MK; put(w, d, s); }                                        \
    void copy_##T(const E* p, size_t n, OUT) { W w MK; W c(w); put(c, d, s); }                              \
    void asg_##T(const E* p, size_t n, OUT) { W w MK; W c; c = w; put(c, d, s); }                           \
    void asgself_##T(const E* p, size_t n, OUT) { W w MK; W& r = w; w = r; put(w, d, s); }                  \
    void def_##T(OUT) { W c; put(c, d, s); }                                                                \
    const E* idx_##T(const E* p, size_t n, size_t i) { W w MK; return &w[i]; }                              \
    const E* idxc_##T(const E* p, size_t n, size_t i) { const W w MK; return &w[i]; }                       \
    const E* nth_##T(const E* p, size_t n, size_t i) { W w MK; return &nth(i, w); }                         \
    const E* nthc_##T(const E* p, size_t n, size_t i) { const W w MK; return &nth(i, w); }                  \
    const E* begin_##T(const E* p, size_t n) { W w MK; return w.begin(); }                                  \
    const E* beginc_##T(const E* p, size_t n) { const W w MK; return w.begin(); }                           \
    const E* end_##T(const E* p, size_t n) { W w MK; return w.end(); }                                      \
    const E* endc_##T(const E* p, size_t n) { const W w MK; return w.end(); }                               \
    const E* dataf_##T(const E* p, size_t n) { W w MK; return data(w); }                                    \
    const E* datafc_##T(const E* p, size_t n) { const W w MK; return data(w); }                             \
    const E* datam_##T(const E* p, size_t n) { W w MK; return w.data(); }                                   \
    size_t len_##T(const E* p, size_t n) { W w MK; return length(w); }                                      \
    bool empty_##T(const E* p, size_t n) { W w MK; return w.empty(); }
extern "C" {
OPS(V, const V& a, , a) OPS(A, const A& a, , a) OPS(R, const R& a, , a)
OPS(Vm, V& a, , a) OPS(Am, A& a, , a) OPS(Rm, R& a, , a)
#define PP const E *p, size_t n0
OPS(VV, PP, const VV a(p, n0);, a) OPS(AW, PP, const AW a(p, n0);, a) OPS(RW, PP, const RW a(p);, a)
CT(V, const V& a, , a) CT(A, const A& a, , a) CT(R, const R& a, , a) CT(Rm, R& a, , a)
WHILE(Vm, V& a, , a) WHILE(Am, A& a, , a) WHILE(Rm, R& a, , a)
WHILE(VV, PP, const VV a(p, n0);, a)
VIEW(VV, VV, (p, n)) VIEW(AW, AW, (p, n)) VIEW(RW, RW, (p))
bool eq_VV(const E* p, size_t n, const E* q, size_t m) { return VV(p, n) == VV(q, m); }
bool eq_AW(const E* p, size_t n, const E* q, size_t m) { return AW(p, n) == AW(q, m); }
bool eq_RW(const E* p, size_t n, const E* q, size_t m) { return RW(p) == RW(q); }
void conv_RA(const E* p, size_t n, OUT) { RW w(p); AW c(w); put(c, d, s); }
void conv_RV(const E* p, size_t n, OUT) { RW w(p); VV c(w); put(c, d, s); }
void conv_AV(const E* p, size_t n, OUT) { AW w(p, n); VV c(w); put(c, d, s); }
bool conveq_AV(const E* p, size_t n) { AW w(p, n); return VV(w) == VV(p, n); }
bool conveq_RV(const E* p, size_t n) { RW w(p); return VV(w) == VV(p, n); }
}
