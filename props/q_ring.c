#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <assert.h>
#include "utils/utils.h"
#include "fast/ringbuf.h"
#include "q_ring.h"
#define FL ((sp ? RING_F_SP_ENQ : 0) | (sc ? RING_F_SC_DEQ : 0))
void* rg_new(unsigned count, int sp, int sc) { return rte_ring_create(count, FL); }
void* rg_from(unsigned count, int sp, int sc, void* mem, size_t* sz) { return rte_ring_create_from(count, FL, mem, sz); }
size_t rg_memsize(unsigned count) { return rte_ring_size(count); }
void rg_del(void* r) { rte_ring* x = r; rte_ring_destroy(x); }
#define SEL(a, b, d) (mode == 1 ? a : mode == 2 ? b : d)
int rg_enq(void* r, int mode, void* o) { return SEL(rte_ring_sp_enqueue, rte_ring_mp_enqueue, rte_ring_enqueue)(r, o); }
int rg_deq(void* r, int mode, void** o) { return SEL(rte_ring_sc_dequeue, rte_ring_mc_dequeue, rte_ring_dequeue)(r, o); }
int rg_enq_bulk(void* r, int mode, void* const* o, unsigned n) { return SEL(rte_ring_sp_enqueue_bulk, rte_ring_mp_enqueue_bulk, rte_ring_enqueue_bulk)(r, o, n); }
int rg_deq_bulk(void* r, int mode, void** o, unsigned n) { return SEL(rte_ring_sc_dequeue_bulk, rte_ring_mc_dequeue_bulk, rte_ring_dequeue_bulk)(r, o, n); }
int rg_enq_burst(void* r, int mode, void* const* o, unsigned n) { return SEL(rte_ring_sp_enqueue_burst, rte_ring_mp_enqueue_burst, rte_ring_enqueue_burst)(r, o, n); }
int rg_deq_burst(void* r, int mode, void** o, unsigned n) { return SEL(rte_ring_sc_dequeue_burst, rte_ring_mc_dequeue_burst, rte_ring_dequeue_burst)(r, o, n); }
unsigned rg_count(void* r) { return rte_ring_count(r); } unsigned rg_free(void* r) { return rte_ring_free_count(r); } int rg_full(void* r) { return rte_ring_full(r); } int rg_empty(void* r) { return rte_ring_empty(r); }
void rg_dump(void* r, char* b, size_t n) { rte_ring_dump(b, n, r); }
