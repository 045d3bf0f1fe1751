#include "elem.hpp"
#include "efp/prelude.hpp"
#include "efp/sort.hpp"
using namespace efp;
using V = Vector<E>;
extern "C" bool lt(const E&, const E&);
struct By { bool operator()(const E& a, const E& b) const { return lt(a, b); } };
extern "C" {
void ty_V() { V x; }
size_t V_size(const V& v) { return v.size(); }
size_t V_capacity(const V& v) { return v.capacity(); }
const E* V_data(const V& v) { return v.data(); }
#define FAM(S, CMP)                                                                       \
    void ins_##S(V& a, size_t l, size_t r) { insertion_sort_by_(a, l, r, CMP); }         \
    void tmerge_##S(V& a, size_t s, size_t m, size_t e) { timsort_merge(a, s, m, e, CMP); } \
    void merge_##S(V& a, size_t s, size_t m, size_t e) { merge(a, s, m, e, CMP); }       \
    void msort_##S(V& a, size_t l, size_t r) { merge_sort_by(a, l, r, CMP); }            \
    size_t part_##S(V& a, size_t l, size_t r) { return partition_by(a, l, r, CMP); }     \
    void qsort_##S(V& a, size_t l, size_t r) { quicksort_by(a, l, r, CMP); }             \
    void heapify_##S(V& a, size_t n, size_t i) { max_heapify_by(a, n, i, CMP); }         \
    void heap_##S(V& a) { heapsort_by(a, CMP); }                                          \
    void isort_##S(V& a) { insertion_sort_by(a, CMP); }                                   \
    void intro_##S(V& a) { size_trosort_by(a, CMP); }                                     \
    void tim_##S(V& a) { timsort_by(a, CMP); }                                            \
    void sort_##S(V& a) { sort_by(a, CMP); }                                              \
    void unst_##S(V& a) { sort_unstable_by(a, CMP); }
FAM(by, By {})
FAM(fp, lt)
void d_quick(V& a) { quicksort(a); }
void d_heap(V& a) { heapsort(a); }
void d_isort(V& a) { insertion_sort(a); }
void d_intro(V& a) { size_trosort(a); }
void d_tim(V& a) { timsort(a); }
void d_sort(V& a) { sort(a); }
void d_unst(V& a) { sort_unstable(a); }
}
