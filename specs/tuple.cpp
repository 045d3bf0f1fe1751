// Tuple over opaque components: N components of one type (so that mixing them up
// compiles), and components of different types and sizes; swap.
#include "elem.hpp"
#include "efp/meta.hpp"
using namespace efp;
template<int K> struct X {
    unsigned long v[1 + K % 3];
    X();
    X(const X&);
    X(X&&) noexcept;
    ~X();
    X& operator=(const X&);
    X& operator=(X&&) noexcept;
    bool operator==(const X&) const;
    bool operator!=(const X&) const;
};
#ifdef MIXED
template<int K> using C = X<K>;
#else
template<int K> using C = E;
#endif
template<int N, typename... As> struct Mk: Mk<N - 1, C<N - 1>, As...> {};
template<typename... As> struct Mk<0, As...> { using T = Tuple<As...>; };
#ifndef NC
#define NC 3
#endif
template<int... Is> struct Seq {};
template<int N, int... Is> struct Idx: Idx<N - 1, N - 1, Is...> {};
template<int... Is> struct Idx<0, Is...> { using T = Seq<Is...>; };
using T = typename Mk<NC>::T;
extern "C" unsigned long hit(const void* const* args, unsigned long n);
struct F {
    template<typename... As> unsigned long operator()(const As&... as) const { const void* a[] = {static_cast<const void*>(&as)...}; return hit(a, sizeof...(As)); }
};
// constructors receive the components as an array of addresses
template<int... Is> void mk(T* o, void** a, Seq<Is...>) { new (o) T(*static_cast<const C<Is>*>(a[Is])...); }
template<int... Is> void mkt(T* o, void** a, Seq<Is...>) { new (o) T(tuple(*static_cast<const C<Is>*>(a[Is])...)); }
using S = typename Idx<NC>::T;
template<int I> const void* t_get(const T& t) { return &t.template get<I>(); }
template<int I> void* t_getm(T& t) { return &t.template get<I>(); }
template<int I> const void* t_fget(const T& t) { return &efp::get<I>(t); }
template<int I> void* t_fgetm(T& t) { return &efp::get<I>(t); }
template<int I> const void* t_p(const T& t) { return &efp::p<I>(t); }
template<int I> void* t_pm(T& t) { return &efp::p<I>(t); }
volatile const void* use_;
#define USE(f) use_ = (const void*)&f
template<int I> struct Per { static void go() { Per<I - 1>::go(); USE((t_get<I - 1>)); USE((t_getm<I - 1>)); USE((t_fget<I - 1>)); USE((t_fgetm<I - 1>)); USE((t_p<I - 1>)); USE((t_pm<I - 1>)); } };
template<> struct Per<0> { static void go() {} };
extern "C" {
void inst() { Per<NC>::go(); }
void ty_T(T* o) { T x(*o); }
void t_mk(T* o, void** a) { mk(o, a, S {}); }
void t_mkt(T* o, void** a) { mkt(o, a, S {}); }
void t_copy(T* o, const T& a) { new (o) T(a); }
void t_move(T* o, T& a) { new (o) T(static_cast<T&&>(a)); }
void t_assign(T& o, const T& a) { o = a; }
void t_massign(T& o, T& a) { o = static_cast<T&&>(a); }
void t_destroy(T& o) { o.~T(); }
bool t_eq(const T& a, const T& b) { return a == b; }
bool t_ne(const T& a, const T& b) { return a != b; }
const void* t_fst(const T& t) { return &fst(t); }
void* t_fstm(T& t) { return &fst(t); }
#if NC > 1
const void* t_snd(const T& t) { return &snd(t); }
void* t_sndm(T& t) { return &snd(t); }
#endif
unsigned long t_match(const T& t) { return t.match(F {}); }
void t_swap(T& a, T& b) { efp::swap(a, b); }
void t_swape(E& a, E& b) { efp::swap(a, b); }
}
