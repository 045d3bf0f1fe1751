#include "seqs.hpp"
#define ONE(T, RT)                                                                     \
    void map_##T(RT* o, const T& a) { new (o) RT(map([](const E& x) -> E { return fn1(x); }, a)); }                       \
    void mapi_##T(RT* o, const T& a) { new (o) RT(map_with_index([](size_t i, const E& x) -> E { return fni(i, x); }, a)); }            \
    void foldl_##T(E* o, const E& z, const T& a) { new (o) E(foldl([](const E& x, const E& y) -> E { return fn2(x, y); }, z, a)); } \
    void foldr_##T(E* o, const E& z, const T& a) { new (o) E(foldr([](const E& x, const E& y) -> E { return fn2(x, y); }, z, a)); } \
    void each_##T(const T& a) { for_each([](const E& x) { vis(x); }, a); }             \
    void eachi_##T(const T& a) { for_each_with_index([](size_t i, const E& x) { visi(i, x); }, a); } \
    void eachm_##T(T& a) { for_each_mut([](E& x) { mut(x); }, a); }                    \
    void eachim_##T(T& a) { for_each_with_index_mut([](size_t i, E& x) { muti(i, x); }, a); } \
    bool elem_##T(const E& e, const T& a) { return elem(e, a); }                       \
    long elemi_##T(const E& e, const T& a) { auto m = elem_index(e, a); return m.has_value() ? (long)m.value() : -1; } \
    bool find_##T(const T& a) { return find([](const E& x) -> bool { return pr(x); }, a); } \
    long findi_##T(const T& a) { auto m = find_index([](const E& x) -> bool { return pr(x); }, a); return m.has_value() ? (long)m.value() : -1; }
#define TWO(T, U, RT)                                                                  \
    void map2_##T##U(RT* o, const T& a, const U& b) { new (o) RT(map([](const E& x, const E& y) -> E { return fn2(x, y); }, a, b)); } \
    void each2_##T##U(const T& a, const U& b) { for_each([](const E& x, const E& y) { vis2(x, y); }, a, b); } \
    void eachm2_##T##U(T& a, U& b) { for_each_mut([](E& x, E& y) { mut2(x, y); }, a, b); }
#define SEL(T, RT, RI)                                                                     \
    void filter_##T(RT* o, const T& a) { new (o) RT(filter([](const E& x) -> bool { return pr(x); }, a)); }  \
    void elems_##T(RI* o, const E& e, const T& a) { new (o) RI(elem_indices(e, a)); }        \
    void finds_##T(RI* o, const T& a) { new (o) RI(find_indices([](const E& x) -> bool { return pr(x); }, a)); }
using VI = Vector<size_t>;
using AI = ArrVec<size_t, CAP>;
extern "C" {
void ty_VI() { VI x; }
void ty_AI() { AI x; }
size_t VI_size(const VI& v) { return v.size(); }
size_t VI_capacity(const VI& v) { return v.capacity(); }
const size_t* VI_data(const VI& v) { return v.data(); }
size_t AI_size(const AI& v) { return v.size(); }
const size_t* AI_data(const AI& v) { return v.data(); }
ONE(V, V) ONE(A, A) ONE(R, R) ONE(S, V)
TWO(V, V, V) TWO(V, R, V) TWO(A, R, A) TWO(R, R, R) TWO(S, V, V)
SEL(V, V, VI) SEL(A, A, AI) SEL(R, A, AI) SEL(S, V, VI)
void fromf_dyn(V* o, size_t n) { new (o) V(from_function(n, [](size_t i) -> E { return gen(i); })); }
void fromf_ct(R* o) { new (o) R(from_function(Size<CAP> {}, [](size_t i) -> E { return gen(i); })); }
void forindex(size_t n) { for_index([](size_t i) { visx(i); }, n); }
void compose_(E* o, const E& x) {
    const auto f = [](const E& x) -> E { return fn1(x); };
    const auto g = [](const E& x) -> E { return fn2(x, x); };
    new (o) E(compose(f, g)(x));
}
void id_(E* o, const E& x) { new (o) E(id(x)); }
}
