// String (Vector<char>): the character specialisation, with its inherited operations.
#include "elem.hpp"
#include "efp/string.hpp"
using namespace efp;
#ifndef CH
#define CH char
#endif
using S = BasicString<CH>;
using SV = BasicStringView<CH>;
extern "C" {
void ty_str() { S x; }
void ty_view() { SV x; }


#if CHW == 32
void width_32() {}
#else
void width_8() {}
#endif
size_t str_size(const S& v) { return v.size(); }
size_t str_capacity(const S& v) { return v.capacity(); }
const CH* str_data(const S& v) { return v.data(); }
bool str_empty(const S& v) { return v.empty(); }
const CH* str_index(const S& v, size_t i) { return &v[i]; }
CH* str_index_mut(S& v, size_t i) { return &v[i]; }
size_t str_length(const S& v) { return length(v); }
CH str_at(const S& v, size_t i) { return v.at(i); }
CH str_front(const S& v) { return v.front(); }
CH str_back(const S& v) { return v.back(); }
const CH* str_begin(const S& v) { return v.begin(); }
const CH* str_end(const S& v) { return v.end(); }
void str_default(S* p) { new (p) S(); }
void str_copy(S* p, const S& o) { new (p) S(o); }
void str_move(S* p, S& o) { new (p) S(efp::move(o)); }
void str_il(S* p, const CH* b, size_t n) {
    struct L { const CH* b; size_t n; } l {b, n};
    new (p) S(reinterpret_cast<std::initializer_list<CH>&>(l));
}
void str_cstr(S* p, const CH* s) { new (p) S(s); }
void str_ptr_n(S* p, const CH* s, size_t n) { new (p) S(s, n); }
void str_fill(S* p, size_t n, CH c) { new (p) S(n, c); }
void str_range(S* p, const CH* b, const CH* e) { new (p) S(b, e); }
void str_dtor(S* p) { p->~S(); }
S* str_copy_assign(S& a, const S& b) { return &(a = b); }
S* str_move_assign(S& a, S& b) { return &(a = efp::move(b)); }
bool str_eq(const S& a, const S& b) { return a == b; }
bool str_eq_cstr(const S& a, const CH* b) { return a == b; }
void str_resize(S& v, size_t n) { v.resize(n); }
void str_reserve(S& v, size_t n) { v.reserve(n); }
void str_shrink(S& v) { v.shrink_to_fit(); }
void str_push_back(S& v, const CH& c) { v.push_back(c); }
void str_push_back_move(S& v, CH& c) { v.push_back(efp::move(c)); }
void str_pop_back(S& v) { v.pop_back(); }
void str_erase(S& v, size_t i) { v.erase(i); }
void str_clear(S& v) { v.clear(); }
S* str_add(S& a, const S& b) { return &(a += b); }
S* str_append(S& a, const CH* s) { return &a.append(s); }
S* str_append_n(S& a, size_t n, CH c) { return &a.append(n, c); }
S* str_assign(S& a, const CH* s) { return &a.assign(s); }
S* str_assign_n(S& a, size_t n, CH c) { return &a.assign(n, c); }
S* str_insert(S& a, size_t i, const CH* s) { return &a.insert(i, s); }
S* str_insert_n(S& a, size_t i, const CH* s, size_t n) { return &a.insert(i, s, n); }
void str_substr(S* p, const S& a, size_t i, size_t n) { new (p) S(a.substr(i, n)); }
size_t str_copy_out(const S& a, CH* d, size_t n, size_t i) { return a.copy(d, n, i); }
int str_compare(const S& a, const S& b) { return a.compare(b); }
int str_compare_sub(const S& a, size_t i, size_t n, const S& b) { return a.compare(i, n, b); }
const CH* str_c_str(const S& a) { return a.c_str(); }
void str_view(SV* p, const S& a) { new (p) SV(static_cast<SV>(a)); }
void str_view2(SV* p, const S& a) { new (p) SV(a); }
void view_cstr(SV* p, const CH* s) { new (p) SV(s); }
bool view_eq_cstr(const SV& v, const CH* s) { return v == s; }
size_t view_size(const SV& v) { return v.size(); }
const CH* view_data(const SV& v) { return v.data(); }
const CH* view_c_str(const SV& v) { return v.c_str(); }
}
