#include "seqs.hpp"
// Nested user sequences: only length and nth are known.  N: unbounded, NC: of static capacity.
struct N { unsigned long h; };
struct SC { unsigned long h; };
struct NC { unsigned long h; };
size_t length(const N&);
const S& nth(size_t, const N&);
size_t length(const SC&);
const E& nth(size_t, const SC&);
size_t length(const NC&);
const SC& nth(size_t, const NC&);
namespace efp {
template<> struct ElementImpl<N> { using Type = S; };
template<> struct CtSizeImpl<N> { using Type = Size<dyn>; };
template<> struct CtCapacityImpl<N> { using Type = Size<dyn>; };
template<> struct ElementImpl<SC> { using Type = E; };
template<> struct CtSizeImpl<SC> { using Type = Size<dyn>; };
template<> struct CtCapacityImpl<SC> { using Type = Size<CAP>; };
template<> struct ElementImpl<NC> { using Type = SC; };
template<> struct CtSizeImpl<NC> { using Type = Size<dyn>; };
template<> struct CtCapacityImpl<NC> { using Type = Size<CAP + 1>; };
}
extern "C" {
void visp(E&);
void visp2(E&, E&);
void vis3(const E&, const E&, const E&);
void visx3(size_t, size_t, size_t);
}
using R2 = Array<E, 2 * CAP>;
using A2 = ArrVec<E, 2 * CAP>;
using AN = ArrVec<E, CAP*(CAP + 1)>;
using AI_ = ArrVec<E, (CAP + 1) * (CAP + CAP) - CAP>;
using RR3 = Array<Array<E, 3>, 2>;
using R6 = Array<E, 6>;
using R7 = Array<E, 7>;
using R1 = Array<E, 1>;
using R4 = Array<E, 4>;
using AP = ArrVec<E, CAP * CAP>;
using AV3 = ArrVec<Array<E, 3>, 2>;
using A6 = ArrVec<E, 6>;
#define TY(T) void ty_##T() { T x; } const E* T##_data(const T& v) { return v.data(); }
#define TYS(T) TY(T) size_t T##_size(const T& v) { return v.size(); }
#define APP(T, U, RT) void app_##T##U(RT* o, const T& a, const U& b) { new (o) RT(append(a, b)); }
#define CART(T, U)                                                                                              \
    void ceach_##T##U(const T& a, const U& b) { cartesian_for_each([](const E& x, const E& y) { vis2(x, y); }, a, b); }
#define CARTM(T, U)                                                                                             \
    void ceachm_##T##U(T& a, U& b) { cartesian_for_each_mut([](E& x, E& y) { visp2(x, y); }, a, b); }
#define CMAP(T, U, RT)                                                                                          \
    void cmap_##T##U(RT* o, const T& a, const U& b) { new (o) RT(cartesian_map([](const E& x, const E& y) -> E { return fn2(x, y); }, a, b)); }
extern "C" {
void ty_N() { N x; }
void ty_NC() { NC x; }
TY(R2) TYS(A2) TYS(AN) TYS(AI_) TY(R6) TY(R7) TY(R1) TY(R4) TYS(AP) TYS(A6)
void ty_RR3() { RR3 x; }
void ty_AV3() { AV3 x; }
size_t AV3_size(const AV3& v) { return v.size(); }
APP(V, V, V) APP(V, R, V) APP(R, V, V) APP(A, V, V) APP(S, V, V) APP(V, S, V) APP(A, A, A2) APP(A, R, A2) APP(R, R, R2)
void app1_V(V* o, const V& a) { new (o) V(append(a)); }
void app3_VRV(V* o, const V& a, const R& b, const V& c) { new (o) V(append(a, b, c)); }
void concat_N(V* o, const N& a) { new (o) V(concat(a)); }
void concat_NC(AN* o, const NC& a) { new (o) AN(concat(a)); }
void inter_VN(V* o, const V& d, const N& a) { new (o) V(intercalate(d, a)); }
void inter_RN(V* o, const R& d, const N& a) { new (o) V(intercalate(d, a)); }
void inter_ANC(AI_* o, const A& d, const NC& a) { new (o) AI_(intercalate(d, a)); }
void concat_RR(R6* o, const RR3& a) { new (o) R6(concat(a)); }
void inter_RR(R7* o, const R1& d, const RR3& a) { new (o) R7(intercalate(d, a)); }
CART(V, V) CART(V, R) CART(R, V) CART(A, A) CART(S, V) CART(V, S)
CARTM(V, V) CARTM(A, V) CARTM(R, V) CARTM(V, A) CARTM(S, V)
CMAP(V, V, V) CMAP(S, V, V) CMAP(A, A, AP) CMAP(V, R, V) CMAP(V, A, V)
void cmap_RR(R4* o, const Array<E, 2>& a, const Array<E, 2>& b) { new (o) R4(cartesian_map([](const E& x, const E& y) -> E { return fn2(x, y); }, a, b)); }
void ceach1_V(const V& a) { cartesian_for_each([](const E& x) { vis(x); }, a); }
void ceachm1_V(V& a) { cartesian_for_each_mut([](E& x) { visp(x); }, a); }
void ceach3_VVV(const V& a, const V& b, const V& c) { cartesian_for_each([](const E& x, const E& y, const E& z) { vis3(x, y, z); }, a, b, c); }
void cidx1(size_t n) { cartesian_for_index([](size_t i) { visx(i); }, n); }
void cidx2(size_t n, size_t m) { cartesian_for_index([](size_t i, size_t j) { visx2(i, j); }, n, m); }
void cidx3(size_t n, size_t m, size_t k) { cartesian_for_index([](size_t i, size_t j, size_t l) { visx3(i, j, l); }, n, m, k); }
}
