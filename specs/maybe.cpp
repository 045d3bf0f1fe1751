// Maybe over an opaque element; the functions passed to it are opaque.
#include "elem.hpp"
#include "efp/maybe.hpp"
using namespace efp;
using M = Maybe<E>;
extern "C" {
E fn1(const E&);
E fn2u(const E&);
bool pr(const E&);
bool pr2(const E&);
unsigned long hit(unsigned long, const void*);
}
struct F1_ { E operator()(const E& x) const { return fn1(x); } };
struct F2_ { E operator()(const E& x) const { return fn2u(x); } };
struct F12_ { E operator()(const E& x) const { return fn2u(fn1(x)); } };
struct Id_ { E operator()(const E& x) const { return x; } };
// every Kleisli arrow is of this form: fails on some arguments, gives a value on the others
struct K1_ { M operator()(const E& x) const { if (pr(x)) return M(fn1(x)); return M(nothing); } };
struct K2_ { M operator()(const E& x) const { if (pr2(x)) return M(fn2u(x)); return M(nothing); } };
struct K12_ { M operator()(const E& x) const { return bind(K1_ {}(x), K2_ {}); } };
struct Ret_ { M operator()(const E& x) const { return M(x); } };
using MF = Maybe<F1_>;
struct BN { unsigned long operator()(const Nothing& x) const { return hit(0, &x); } };
struct BE { unsigned long operator()(const E& x) const { return hit(1, &x); } };
struct BW { unsigned long operator()() const { return hit(2, nullptr); } };
extern "C" {
void ty_M() { M x; }
void ty_MF() { MF x; }
void m_dflt(M* o) { new (o) M(); }
void m_none(M* o) { new (o) M(nothing); }
void m_mkc(M* o, const E& x) { new (o) M(x); }
void m_mkm(M* o, E& x) { new (o) M(static_cast<E&&>(x)); }
void m_copy(M* o, const M& a) { new (o) M(a); }
void m_move(M* o, M& a) { new (o) M(static_cast<M&&>(a)); }
void m_assign(M& o, const M& a) { o = a; }
void m_massign(M& o, M& a) { o = static_cast<M&&>(a); }
void m_setc(M& o, const E& x) { o = x; }
void m_setm(M& o, E& x) { o = static_cast<E&&>(x); }
void m_setn(M& o) { o = nothing; }
void m_destroy(M& o) { o.~M(); }
bool m_is_nothing(const M& a) { return a.is_nothing(); }
bool m_has_value(const M& a) { return a.has_value(); }
bool m_bool(const M& a) { return static_cast<bool>(a); }
unsigned char m_index(const M& a) { return a.index(); }
void m_value(E* o, const M& a) { new (o) E(a.value()); }
E* m_mov(M& a) { E&& r = a.move(); return &r; }
void m_take(E* o, M& a) { new (o) E(a.move()); }
const E* m_get(const M& a) { return &a.get<E>(); }
unsigned long m_match(const M& a) { return a.match(BN {}, BE {}); }
unsigned long m_matchr(const M& a) { return a.match(BE {}, BN {}); }
unsigned long m_matchw(const M& a) { return a.match(BE {}, BW {}); }
void m_fmap(M* o, const M& a) { new (o) M(a.fmap(F1_ {})); }
void m_fmapf(M* o, const M& a) { new (o) M(fmap(F1_ {}, a)); }
void m_bind(M* o, const M& a) { new (o) M(a.bind(K1_ {})); }
void m_bindop(M* o, const M& a) { new (o) M(a >>= K1_ {}); }
void m_bindf(M* o, const M& a) { new (o) M(bind(a, K1_ {})); }
void m_pure(M* o, const E& x) { new (o) M(M::pure<F1_>(x)); }
void m_puref(M* o, const E& x) { new (o) M(pure<M>(x)); }
void mf_none(MF* o) { new (o) MF(nothing); }
void mf_some(MF* o) { new (o) MF(F1_ {}); }
void m_ap(M* o, const M& a, const MF& f) { new (o) M(a.ap(f)); }
void m_apf(M* o, const MF& f, const M& a) { new (o) M(ap(f, a)); }
// laws: both sides
void l_fid(M* o, M* w, const M& m) { new (o) M(fmap(Id_ {}, m)); new (w) M(m); }
void l_fcomp(M* o, M* w, const M& m) { new (o) M(fmap(F2_ {}, fmap(F1_ {}, m))); new (w) M(fmap(F12_ {}, m)); }
void l_assoc(M* o, M* w, const M& m) { new (o) M(bind(bind(m, K1_ {}), K2_ {})); new (w) M(bind(m, K12_ {})); }
void l_assocop(M* o, M* w, const M& m) { new (o) M((m >>= K1_ {}) >>= K2_ {}); new (w) M(m >>= K12_ {}); }
void l_right(M* o, M* w, const M& m) { new (o) M(bind(m, Ret_ {})); new (w) M(m); }
void l_left(M* o, M* w, const E& x) { new (o) M(bind(M(x), K1_ {})); new (w) M(K1_ {}(x)); }
}
