#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// mode bits: 1 = explicit single-side function, 2 = explicit multi-side function, 0 = the default by creation flag
void* rg_new(unsigned count, int sp, int sc); void* rg_from(unsigned count, int sp, int sc, void* mem, size_t* sz); size_t rg_memsize(unsigned count); void rg_del(void*);
int rg_enq(void*, int mode, void* o); int rg_deq(void*, int mode, void** o);
int rg_enq_bulk(void*, int mode, void* const* o, unsigned n); int rg_deq_bulk(void*, int mode, void** o, unsigned n);
int rg_enq_burst(void*, int mode, void* const* o, unsigned n); int rg_deq_burst(void*, int mode, void** o, unsigned n);
uint64_t rgl_pump(void*, unsigned k, uint64_t total);
unsigned rg_count(void*); unsigned rg_free(void*); int rg_full(void*); int rg_empty(void*); void rg_dump(void*, char*, size_t);
#ifdef __cplusplus
}
#endif
