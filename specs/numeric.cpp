// Reductions and scalar helpers over int, size_t and double.
#include <new>
#include <cstddef>
#include "efp/numeric.hpp"
#include "efp/prelude.hpp"
using namespace efp;
#ifndef CAP
    #define CAP 5
#endif
#define SEQ(S, T, C)                                              \
    using S##C = S##_<T>;                                         \
    void ty_##S##C() { S##C x; }                                  \
    const T* S##C##_data(const S##C& v) { return v.data(); }      \
    size_t S##C##_size(const S##C& v) { return v.size(); }        \
    T maxe_##S##C(const S##C& a) { return max_elem(a); }          \
    T mine_##S##C(const S##C& a) { return min_elem(a); }          \
    T mami_##S##C(const S##C& a) { return max_min(a); }           \
    T sum_##S##C(const S##C& a) { return sum(a); }                \
    T prod_##S##C(const S##C& a) { return product(a); }
template<class T> using V_ = Vector<T>;
template<class T> using A_ = ArrVec<T, CAP>;
template<class T> using R_ = Array<T, CAP>;
#define TYPE(T, C)                                                              \
    SEQ(V, T, C) SEQ(A, T, C) SEQ(R, T, C)                                      \
    size_t V##C##_capacity(const V##C& v) { return v.capacity(); }              \
    T s_max_##C(const T& a, const T& b) { return efp::max(a, b); }              \
    T s_min_##C(const T& a, const T& b) { return efp::min(a, b); }              \
    T s_clamp_##C(const T& l, const T& u, const T& x) { return efp::clamp(l, u, x); } \
    T s_square_##C(const T& a) { return efp::square(a); }                       \
    T s_abs_##C(const T& a) { return efp::abs(a); }                             \
    T s_neg_##C(const T& a) { return op_neg(a); }                               \
    T s_add_##C(const T& a, const T& b) { return op_add(a, b); }                \
    T s_sub_##C(const T& a, const T& b) { return op_sub(a, b); }                \
    T s_mul_##C(const T& a, const T& b) { return op_mul(a, b); }                \
    T s_div_##C(const T& a, const T& b) { return op_div(a, b); }                \
    bool s_eq_##C(const T& a, const T& b) { return op_eq(a, b); }               \
    bool s_neq_##C(const T& a, const T& b) { return op_neq(a, b); }             \
    bool s_gt_##C(const T& a, const T& b) { return op_gt(a, b); }               \
    bool s_lt_##C(const T& a, const T& b) { return op_lt(a, b); }               \
    bool s_geq_##C(const T& a, const T& b) { return op_geq(a, b); }             \
    bool s_leq_##C(const T& a, const T& b) { return op_leq(a, b); }
extern "C" {
size_t cap_() { return CAP; }
TYPE(int, i) TYPE(size_t, u) TYPE(double, d)
int s_mod_i(const int& a, const int& b) { return op_mod(a, b); }
size_t s_mod_u(const size_t& a, const size_t& b) { return op_mod(a, b); }
bool s_approx_d(const double& a, const double& b) { return is_approx(a, b) != 0; }
bool s_approx_f(const float& a, const double& b) { return is_approx(a, b) != 0; }
bool s_not(const bool& a) { return op_not(a); }
bool s_and(const bool& a, const bool& b) { return op_and(a, b); }
bool s_or(const bool& a, const bool& b) { return op_or(a, b); }
}
