// Queues between threads and the double buffer, over an opaque element.
#include "elem.hpp"
#include "efp/concurrency.hpp"
using namespace efp;
#ifndef CAP
#define CAP 5
#endif
using BQ = BlockingQ<E, CAP>;
using BD = BlockingQ<E>;
using NQ = NonBlockingQ<E, CAP>;
using ND = NonBlockingQ<E>;
using DB = DoubleBuffer<E, CAP>;
using M = Maybe<E>;
extern "C" {
void ty_M() { M x; }
void ty_vcq() { Vcq<E, CAP> x; }
void m_none(M* o) { new (o) M(nothing); }
void m_mkc(M* o, const E& x) { new (o) M(x); }
#define Q(P, T)                                             \
    void ty_##P() { T x; }                                  \
    void P##_ctor(T* q) { new (q) T(); }                    \
    void P##_dtor(T& q) { q.~T(); }                         \
    void P##_enq(T& q, const E& x) { q.enqueue(x); }
Q(bq, BQ) Q(bd, BD) Q(nq, NQ) Q(nd, ND) Q(db, DB)
void bq_deq(E* o, BQ& q) { new (o) E(q.dequeue()); }
void bd_deq(E* o, BD& q) { new (o) E(q.dequeue()); }
void nq_deq(M* o, NQ& q) { new (o) M(q.dequeue()); }
void nd_deq(M* o, ND& q) { new (o) M(q.dequeue()); }
bool nq_empty(NQ& q) { return q.is_empty(); }
bool nd_empty(ND& q) { return q.is_empty(); }
void db_deq(E* o, DB& q) { new (o) E(q.dequeue()); }
void db_swap(DB& q) { q.swap_buffer(); }
bool db_empty(DB& q) { return q.empty(); }
}
