// Enum over opaque alternatives X<0>..X<N-1> of three different sizes.
#include "elem.hpp"
#include "efp/enum.hpp"
using namespace efp;
template<int K> struct X {
    unsigned long v[1 + K % 3];
    X();
    X(const X&);
    X(X&&) noexcept;
    ~X();
    X& operator=(const X&);
    X& operator=(X&&) noexcept;
    bool operator==(const X&) const;
};
template<int N, typename... As> struct Mk: Mk<N - 1, X<N - 1>, As...> {};
template<typename... As> struct Mk<0, As...> { using T = Enum<As...>; };
template<int N> using EN = typename Mk<N>::T;
extern "C" unsigned long hit(unsigned long branch, const void* arg);
template<int K> struct B { unsigned long operator()(const X<K>& x) const { return hit(K, &x); } };
struct W { unsigned long operator()() const { return hit(1000, nullptr); } };

template<int N> void e_type() { EN<N> x; }
template<int N> void e_dflt(EN<N>* o) { new (o) EN<N>(); }
template<int N> void e_copy(EN<N>* o, const EN<N>& a) { new (o) EN<N>(a); }
template<int N> void e_move(EN<N>* o, EN<N>& a) { new (o) EN<N>(static_cast<EN<N>&&>(a)); }
template<int N> void e_assign(EN<N>& o, const EN<N>& a) { o = a; }
template<int N> void e_massign(EN<N>& o, EN<N>& a) { o = static_cast<EN<N>&&>(a); }
template<int N> void e_destroy(EN<N>& o) { o.~EN<N>(); }
template<int N> bool e_eq(const EN<N>& a, const EN<N>& b) { return a == b; }
template<int N> bool e_ne(const EN<N>& a, const EN<N>& b) { return a != b; }
template<int N> unsigned char e_index(const EN<N>& a) { return a.index(); }
template<int N, int K> void e_mkc(EN<N>* o, const X<K>& x) { new (o) EN<N>(x); }
template<int N, int K> void e_mkm(EN<N>* o, X<K>& x) { new (o) EN<N>(static_cast<X<K>&&>(x)); }
template<int N, int K> void e_setc(EN<N>& o, const X<K>& x) { o = x; }
template<int N, int K> void e_setm(EN<N>& o, X<K>& x) { o = static_cast<X<K>&&>(x); }
template<int N, int K> const X<K>* e_get(const EN<N>& o) { return &o.template get<X<K>>(); }
template<int N, int K> X<K>* e_getm(EN<N>& o) { return &o.template get<X<K>>(); }
template<int N, int K> const X<K>* e_geti(const EN<N>& o) { return &o.template get<(unsigned char)K>(); }
template<int N, int K> X<K>* e_getmi(EN<N>& o) { return &o.template get<(unsigned char)K>(); }
template<int N, int K> X<K>* e_mov(EN<N>& o) { X<K>&& r = o.template move<X<K>>(); return &r; }
template<int N, int K> X<K>* e_movi(EN<N>& o) { X<K>&& r = o.template move<(unsigned char)K>(); return &r; }
template<int N, int K, typename... Bs> struct MatchAll: MatchAll<N, K - 1, B<K - 1>, Bs...> {};
template<int N, typename... Bs> struct MatchAll<N, 0, Bs...> { static unsigned long go(const EN<N>& e) { return e.match(Bs {}...); } };
template<int N> unsigned long e_match(const EN<N>& e) { return MatchAll<N, N>::go(e); }
template<int N> unsigned long e_matchw(const EN<N>& e) { return e.match(B<0> {}, B<N / 2> {}, W {}); }
template<int N> unsigned long e_matchr(const EN<N>& e) { return e.match(B<N - 1> {}, W {}); }

volatile const void* use_;
#define USE(f) use_ = (const void*)&f
template<int N, int K> struct PerAlt {
    static void go() {
        PerAlt<N, K - 1>::go();
        USE((e_mkc<N, K - 1>)); USE((e_mkm<N, K - 1>)); USE((e_setc<N, K - 1>)); USE((e_setm<N, K - 1>));
        USE((e_get<N, K - 1>)); USE((e_getm<N, K - 1>)); USE((e_geti<N, K - 1>)); USE((e_getmi<N, K - 1>));
        USE((e_mov<N, K - 1>)); USE((e_movi<N, K - 1>));
    }
};
template<int N> struct PerAlt<N, 0> { static void go() {} };
template<int N> void per() {
    USE(e_type<N>); USE(e_dflt<N>); USE(e_copy<N>); USE(e_move<N>); USE(e_assign<N>); USE(e_massign<N>); USE(e_destroy<N>);
    USE(e_eq<N>); USE(e_ne<N>); USE(e_index<N>); USE(e_match<N>);
    PerAlt<N, N>::go();
}
#ifndef NALT
    #define NALT 3
#endif
extern "C" {
void inst() {
    per<NALT>();
#if NALT > 2
    USE(e_matchw<NALT>); USE(e_matchr<NALT>);
#endif
}
}
