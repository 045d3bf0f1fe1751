#include "elem.hpp"
#include "efp/cyclic.hpp"
using namespace efp;
#ifndef CAP
    #define CAP 5
#endif
using CB = Vcb<E, CAP>;
using CQ = Vcq<E, CAP>;
extern "C" {
void ty_cb() { CB x; }
void ty_cq() { CQ x; }
size_t cap_() { return CAP; }
void cb_default(CB* p) { new (p) CB(); }
void cb_copy(CB* p, const CB& o) { new (p) CB(o); }
void cb_move(CB* p, CB& o) { new (p) CB(efp::move(o)); }
void cb_dtor(CB* p) { p->~CB(); }
void cb_copy_assign(CB& a, const CB& b) { a = b; }
void cb_move_assign(CB& a, CB& b) { a = efp::move(b); }
void cb_push_back(CB& v, const E& e) { v.push_back(e); }
size_t cb_size(const CB& v) { return v.size(); }
size_t cb_length(const CB& v) { return length(v); }
bool cb_empty(const CB& v) { return v.empty(); }
const E* cb_data(const CB& v) { return v.data(); }
E* cb_data_mut(CB& v) { return v.data(); }
const E* cb_begin(const CB& v) { return v.begin(); }
const E* cb_end(const CB& v) { return v.end(); }
E* cb_begin_mut(CB& v) { return v.begin(); }
E* cb_end_mut(CB& v) { return v.end(); }
const E* cb_index(const CB& v, size_t i) { return &v[i]; }
E* cb_index_mut(CB& v, size_t i) { return &v[i]; }
const E* cb_nth(const CB& v, size_t i) { return &nth(i, v); }
E* cb_nth_mut(CB& v, size_t i) { return &nth(i, v); }
const E* cb_data_fn(const CB& v) { return data(v); }
E* cb_data_fn_mut(CB& v) { return data(v); }

void cq_default(CQ* p) { new (p) CQ(); }
void cq_copy(CQ* p, const CQ& o) { new (p) CQ(o); }
void cq_move(CQ* p, CQ& o) { new (p) CQ(efp::move(o)); }
void cq_dtor(CQ* p) { p->~CQ(); }
void cq_copy_assign(CQ& a, const CQ& b) { a = b; }
void cq_move_assign(CQ& a, CQ& b) { a = efp::move(b); }
void cq_push_back(CQ& v, const E& e) { v.push_back(e); }
void cq_pop_front(CQ& v, E* out) { new (out) E(v.pop_front()); }
size_t cq_size(const CQ& v) { return v.size(); }
size_t cq_length(const CQ& v) { return length(v); }
bool cq_empty(const CQ& v) { return v.empty(); }
const E* cq_data(const CQ& v) { return v.data(); }
E* cq_data_mut(CQ& v) { return v.data(); }
const E* cq_begin(const CQ& v) { return v.begin(); }
const E* cq_end(const CQ& v) { return v.end(); }
E* cq_begin_mut(CQ& v) { return v.begin(); }
E* cq_end_mut(CQ& v) { return v.end(); }
const E* cq_index(const CQ& v, size_t i) { return &v[i]; }
E* cq_index_mut(CQ& v, size_t i) { return &v[i]; }
const E* cq_nth(const CQ& v, size_t i) { return &nth(i, v); }
E* cq_nth_mut(CQ& v, size_t i) { return &nth(i, v); }
const E* cq_data_fn(const CQ& v) { return data(v); }
E* cq_data_fn_mut(CQ& v) { return data(v); }
}
