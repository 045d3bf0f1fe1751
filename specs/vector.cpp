#include "elem.hpp"
#include "efp/sequence.hpp"
using namespace efp;
using VE = Vector<E>;
extern "C" {
void ty_vec() { VE x; }
void ty_a5() { ArrVec<E, 5> x; }
size_t a5_size(const ArrVec<E, 5>& v) { return v.size(); }
const E* a5_data(const ArrVec<E, 5>& v) { return v.data(); }
size_t vec_size(const VE& v) { return v.size(); }
size_t vec_capacity(const VE& v) { return v.capacity(); }
const E* vec_data(const VE& v) { return v.data(); }
E* vec_data_mut(VE& v) { return v.data(); }
const E* vec_begin(const VE& v) { return v.begin(); }
const E* vec_end(const VE& v) { return v.end(); }
E* vec_begin_mut(VE& v) { return v.begin(); }
E* vec_end_mut(VE& v) { return v.end(); }
bool vec_empty(const VE& v) { return v.empty(); }
const E* vec_index(const VE& v, size_t i) { return &v[i]; }
E* vec_index_mut(VE& v, size_t i) { return &v[i]; }
size_t vec_length(const VE& v) { return length(v); }
const E* vec_nth(const VE& v, size_t i) { return &nth(i, v); }
E* vec_nth_mut(VE& v, size_t i) { return &nth(i, v); }
const E* vec_data_fn(const VE& v) { return data(v); }
E* vec_data_fn_mut(VE& v) { return data(v); }
void vec_default(VE* p) { new (p) VE(); }
void vec_copy(VE* p, const VE& o) { new (p) VE(o); }
void vec_move(VE* p, VE& o) { new (p) VE(efp::move(o)); }
void vec_il(VE* p, const E* b, size_t n) {
    struct L { const E* b; size_t n; } l {b, n};
    new (p) VE(reinterpret_cast<std::initializer_list<E>&>(l));
}
void vec_from_array(VE* p, const Array<E, 5>& a) { new (p) VE(a); }
void vec_from_arrvec(VE* p, const ArrVec<E, 5>& a) { new (p) VE(a); }
void vec_dtor(VE* p) { p->~VE(); }
VE* vec_copy_assign(VE& a, const VE& b) { return &(a = b); }
VE* vec_move_assign(VE& a, VE& b) { return &(a = efp::move(b)); }
bool vec_eq(const VE& a, const VE& b) { return a == b; }
void vec_resize(VE& v, size_t n) { v.resize(n); }
void vec_reserve(VE& v, size_t n) { v.reserve(n); }
void vec_shrink_to_fit(VE& v) { v.shrink_to_fit(); }
void vec_push_back(VE& v, const E& e) { v.push_back(e); }
void vec_push_back_move(VE& v, E& e) { v.push_back(efp::move(e)); }
void vec_emplace_back(VE& v, const E& e) { v.emplace_back(e); }
void vec_pop_back(VE& v) { v.pop_back(); }
void vec_insert(VE& v, size_t i, const E& e) { v.insert(i, e); }
void vec_erase(VE& v, size_t i) { v.erase(i); }
void vec_clear(VE& v) { v.clear(); }
}
