// Builds every kind of source sequence with given contents.
#pragma once
#include "rt.hpp"
#include <initializer_list>
#include "efp.hpp"
using namespace rt;
template<class F> static bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
typedef std::vector<int> M;
template<class A> efp::Vector<A> mkV(const M& m, bool slack = false) {
    efp::Vector<A> v;
    if (slack) v.reserve(m.size() + 3);
    for (size_t i = 0; i < m.size(); i++) v.push_back(A(m[i]));
    return v;
}
template<class A, size_t N> efp::ArrVec<A, N> mkA(const M& m) { efp::ArrVec<A, N> v; for (size_t i = 0; i < m.size(); i++) v.push_back(A(m[i])); return v; }
template<class A, size_t N> efp::Array<A, N> mkR(const M& m) { efp::Array<A, N> v; for (size_t i = 0; i < N; i++) v[i] = A(m[i]); return v; }
template<class S> bool eq(const S& s, const M& m) {
    if (size_t(efp::length(s)) != m.size()) return false;
    for (size_t i = 0; i < m.size(); i++) if (int(val(efp::nth(i, s))) != m[i]) return false;
    return true;
}
inline M rnd(Rng& r, size_t n, int k) { M m(n); for (auto& x : m) x = int(r(k)); return m; }
inline void show(const char* w, const M& m) { log("%s[", w); for (size_t i = 0; i < m.size() && i < 12; i++) log(i ? ",%d" : "%d", m[i]); log(m.size() > 12 ? "..#%zu] " : "] ", m.size()); }
// f(sequence) for every kind of owning sequence that can hold m
template<class A, class F> void owners(const M& m, F f) {
    { log("Vector "); auto v = mkV<A>(m); f(v); }
    { log("Vector+slack "); auto v = mkV<A>(m, true); f(v); }
    if (m.size() <= 8) { log("ArrVec8 "); auto v = mkA<A, 8>(m); f(v); }
    if (m.size() <= 300 && m.size() > 8) { log("ArrVec300 "); auto v = mkA<A, 300>(m); f(v); }
    if (m.size() == 1) { log("Array1 "); auto v = mkR<A, 1>(m); f(v); }
    if (m.size() == 3) { log("Array3 "); auto v = mkR<A, 3>(m); f(v); }
    if (m.size() == 5) { log("Array5 "); auto v = mkR<A, 5>(m); f(v); }
    if (m.size() == 300) { log("Array300 "); auto v = mkR<A, 300>(m); f(v); }
}
template<class A, class F> void sources(const M& m, F f) {
    owners<A>(m, [&](auto& v) { f(v); });
    M pad(m); pad.insert(pad.begin(), -5); pad.push_back(-6);
    { log("VectorView "); auto v = mkV<A>(pad); efp::VectorView<A> w(v.data() + 1, m.size()); f(w); }
    if (m.size() <= 8) { log("ArrVecView8 "); auto v = mkV<A>(pad); efp::ArrVecView<A, 8> w(v.data() + 1, m.size()); f(w); }
    if (m.size() == 3) { log("ArrayView3 "); auto v = mkV<A>(pad); efp::ArrayView<A, 3> w(v.data() + 1); f(w); }
}
inline std::vector<size_t> lens() { return {0, 1, 2, 3, 4, 5, 6, 7, 8, 3, 5}; }
