// Source sequences and opaque functions used by the prelude contracts.
#pragma once
#include "elem.hpp"
#include "efp/prelude.hpp"
using namespace efp;
#ifndef CAP
    #define CAP 5
#endif
using V = Vector<E>;
using A = ArrVec<E, CAP>;
using R = Array<E, CAP>;
// A user's own sequence: only the Sequence interface (length, nth) is known.
struct S { unsigned long h; };
size_t length(const S&);
const E& nth(size_t, const S&);
E& nth(size_t, S&);
namespace efp {
template<> struct ElementImpl<S> { using Type = E; };
template<> struct CtSizeImpl<S> { using Type = Size<dyn>; };
template<> struct CtCapacityImpl<S> { using Type = Size<dyn>; };
}
extern "C" {
E fn1(const E&);
E fn2(const E&, const E&);
E fni(size_t, const E&);
E gen(size_t);
bool pr(const E&);
void vis(const E&);
void vis2(const E&, const E&);
void visi(size_t, const E&);
void visx(size_t);
void visx2(size_t, size_t);
void mut(E&);
void mut2(E&, E&);
void muti(size_t, E&);
void ty_V() { V x; }
void ty_A() { A x; }
void ty_R() { R x; }
void ty_S() { S x; }
size_t cap_() { return CAP; }
size_t V_size(const V& v) { return v.size(); }
size_t V_capacity(const V& v) { return v.capacity(); }
const E* V_data(const V& v) { return v.data(); }
size_t A_size(const A& v) { return v.size(); }
const E* A_data(const A& v) { return v.data(); }
const E* R_data(const R& v) { return v.data(); }
}
