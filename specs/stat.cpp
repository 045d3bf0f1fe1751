// Statistics over sequences of double (and int samples where that is the use).
#include <new>
#include <cstddef>
#include "efp/scientific.hpp"
using namespace efp;
#ifndef CAP
    #define CAP 5
#endif
template<class T> using V_ = Vector<T>;
template<class T> using A_ = ArrVec<T, CAP>;
template<class T> using R_ = Array<T, CAP>;
#define BASE(S, T, C)                                             \
    using S##C = S##_<T>;                                         \
    void ty_##S##C() { S##C x; }                                  \
    const T* S##C##_data(const S##C& v) { return v.data(); }      \
    size_t S##C##_size(const S##C& v) { return v.size(); }
#define ONE(S, C)                                                                                       \
    double mean_##S##C(const S##C& a) { return mean<double>(a); }                                       \
    double var_##S##C(const S##C& a) { return variance<double>(a); }                                    \
    double varb_##S##C(const S##C& a) { return variance<double, true>(a); }                             \
    double sd_##S##C(const S##C& a) { return standard_deviation<double>(a); }                           \
    double sdb_##S##C(const S##C& a) { return standard_deviation<double, true>(a); }                    \
    void dc_##S##C(S##d* o, const S##C& a) { new (o) S##d(remove_dc<double>(a)); }                      \
    void lri_##S##C(double* o, const S##C& a) { const auto t = linear_regression_with_index<double>(a); o[0] = get<0>(t); o[1] = get<1>(t); } \
    void dt_##S##C(S##d* o, const S##C& a) { new (o) S##d(detrend<double>(a)); }                        \
    double acov_##S##C(const S##C& a, int lag) { return autocovariance<double>(a, lag); }               \
    double acovb_##S##C(const S##C& a, int lag) { return autocovariance<double, true>(a, lag); }        \
    double acova_##S##C(const S##C& a, int lag) { return autocovariance<double, false, true>(a, lag); } \
    double acovba_##S##C(const S##C& a, int lag) { return autocovariance<double, true, true>(a, lag); } \
    double acor_##S##C(const S##C& a, int lag) { return autocorrelation<double>(a, lag); }              \
    double acorb_##S##C(const S##C& a, int lag) { return autocorrelation<double, true>(a, lag); }       \
    double acora_##S##C(const S##C& a, int lag) { return autocorrelation<double, false, true>(a, lag); } \
    double acorba_##S##C(const S##C& a, int lag) { return autocorrelation<double, true, true>(a, lag); }
#define RMS(S) double rms_##S##d(const S##d& a) { return rms<double>(a); }
#define TWO(S, W)                                                                                       \
    double sse_##S##W(const S##d& a, const W##d& b) { return sse<double>(a, b); }                       \
    double mse_##S##W(const S##d& a, const W##d& b) { return mse<double>(a, b); }                       \
    double rmse_##S##W(const S##d& a, const W##d& b) { return rmse<double>(a, b); }                     \
    double nme_##S##W(const S##d& a, const W##d& b) { return nrmse_mean<double>(a, b); }                \
    double nmm_##S##W(const S##d& a, const W##d& b) { return nrmse_max_min<double>(a, b); }             \
    double cov_##S##W(const S##d& a, const W##d& b) { return covariance<double>(a, b); }                \
    double covb_##S##W(const S##d& a, const W##d& b) { return covariance<double, true>(a, b); }         \
    double cor_##S##W(const S##d& a, const W##d& b) { return correlation<double>(a, b); }               \
    double corb_##S##W(const S##d& a, const W##d& b) { return correlation<double, true>(a, b); }        \
    void lr_##S##W(double* o, const S##d& a, const W##d& b) { const auto t = linear_regression<double>(a, b); o[0] = get<0>(t); o[1] = get<1>(t); }
extern "C" {
size_t cap_() { return CAP; }
BASE(V, double, d) BASE(A, double, d) BASE(R, double, d) BASE(V, int, i) BASE(A, int, i) BASE(R, int, i)
size_t Vd_capacity(const Vd& v) { return v.capacity(); }
size_t Vi_capacity(const Vi& v) { return v.capacity(); }
ONE(V, d) ONE(A, d) ONE(R, d) ONE(V, i) ONE(R, i)
RMS(V) RMS(A) RMS(R)
TWO(V, V) TWO(A, A) TWO(R, R) TWO(V, R)
}
