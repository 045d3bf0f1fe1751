#include "elem.hpp"
#include "efp/sequence.hpp"
using namespace efp;
#ifndef CAP
    #define CAP 5
#endif
using AV = ArrVec<E, CAP>;
using AS = ArrVec<E, CAP - 2>;
using AR = Array<E, CAP>;
extern "C" {
void ty_av() { AV x; }
void ty_as() { AS x; }
void ty_ar() { AR x; }
size_t av_size(const AV& v) { return v.size(); }
size_t as_size(const AS& v) { return v.size(); }
const E* as_data(const AS& v) { return v.data(); }
size_t av_capacity(const AV& v) { return v.capacity(); }
const E* av_data(const AV& v) { return v.data(); }
E* av_data_mut(AV& v) { return v.data(); }
const E* av_begin(const AV& v) { return v.begin(); }
const E* av_end(const AV& v) { return v.end(); }
E* av_begin_mut(AV& v) { return v.begin(); }
E* av_end_mut(AV& v) { return v.end(); }
bool av_empty(const AV& v) { return v.empty(); }
const E* av_index(const AV& v, size_t i) { return &v[i]; }
E* av_index_mut(AV& v, size_t i) { return &v[i]; }
size_t av_length(const AV& v) { return length(v); }
const E* av_nth(const AV& v, size_t i) { return &nth(i, v); }
E* av_nth_mut(AV& v, size_t i) { return &nth(i, v); }
const E* av_data_fn(const AV& v) { return data(v); }
E* av_data_fn_mut(AV& v) { return data(v); }
void av_default(AV* p) { new (p) AV(); }
void av_copy(AV* p, const AV& o) { new (p) AV(o); }
void av_move(AV* p, AV& o) { new (p) AV(efp::move(o)); }
void av_from_small(AV* p, const AS& o) { new (p) AV(o); }
void av_il(AV* p, const E* b, size_t n) {
    struct L { const E* b; size_t n; } l {b, n};
    new (p) AV(reinterpret_cast<std::initializer_list<E>&>(l));
}
void av_dtor(AV* p) { p->~AV(); }
AV* av_copy_assign(AV& a, const AV& b) { return &(a = b); }
AV* av_move_assign(AV& a, AV& b) { return &(a = efp::move(b)); }
bool av_eq(const AV& a, const AV& b) { return a == b; }
void av_resize(AV& v, size_t n) { v.resize(n); }
void av_reserve(AV& v, size_t n) { v.reserve(n); }
void av_push_back(AV& v, const E& e) { v.push_back(e); }
void av_push_back_move(AV& v, E& e) { v.push_back(efp::move(e)); }
void av_pop_back(AV& v) { v.pop_back(); }
void av_insert(AV& v, size_t i, const E& e) { v.insert(i, e); }
void av_erase(AV& v, size_t i) { v.erase(i); }
void av_clear(AV& v) { v.clear(); }

size_t ar_size(const AR& v) { return v.size(); }
size_t ar_capacity(const AR& v) { return v.capacity(); }
const E* ar_data(const AR& v) { return v.data(); }
E* ar_data_mut(AR& v) { return v.data(); }
const E* ar_begin(const AR& v) { return v.begin(); }
const E* ar_end(const AR& v) { return v.end(); }
E* ar_begin_mut(AR& v) { return v.begin(); }
E* ar_end_mut(AR& v) { return v.end(); }
bool ar_empty(const AR& v) { return v.empty(); }
const E* ar_index(const AR& v, size_t i) { return &v[i]; }
E* ar_index_mut(AR& v, size_t i) { return &v[i]; }
size_t ar_length(const AR& v) { return length(v); }
const E* ar_nth(const AR& v, size_t i) { return &nth(i, v); }
E* ar_nth_mut(AR& v, size_t i) { return &nth(i, v); }
const E* ar_data_fn(const AR& v) { return data(v); }
E* ar_data_fn_mut(AR& v) { return data(v); }
void ar_default(AR* p) { new (p) AR(); }
void ar_copy(AR* p, const AR& o) { new (p) AR(o); }
void ar_move(AR* p, AR& o) { new (p) AR(efp::move(o)); }
void ar_il(AR* p, const E* b, size_t n) {
    struct L { const E* b; size_t n; } l {b, n};
    new (p) AR(reinterpret_cast<std::initializer_list<E>&>(l));
}
void ar_dtor(AR* p) { p->~AR(); }
AR* ar_copy_assign(AR& a, const AR& b) { return &(a = b); }
AR* ar_move_assign(AR& a, AR& b) { return &(a = efp::move(b)); }
bool ar_eq(const AR& a, const AR& b) { return a == b; }
void ar_resize(AR& v, size_t n) { v.resize(n); }
void ar_reserve(AR& v, size_t n) { v.reserve(n); }
}
