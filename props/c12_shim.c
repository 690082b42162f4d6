#include <stdlib.h>
#include <string.h>
#include <alloca.h>
#include "utils/utils.h"
#include "fast/bitset.h"
#include "fast/buf.h"
#include "c12_shim.h"
void* bs_new(size_t n) { return bitset_new(n); }
void bs_del(void* b) { bitset* x = b; bitset_del(x); }
size_t bs_words(void* b) { return ((bitset*)b)->n; }
void bs_set(void* b, size_t i) { bitset_set(b, i); }
void bs_clr(void* b, size_t i) { bitset_clr(b, i); }
int bs_isset(void* b, size_t i) { return bitset_isset(b, i); }
int bs_value(void* b, size_t i) { return bitset_value((bitset*)b, i); }
void bs_copy(void* a, void* b) { bitset_copy(a, b); }
void* bs_dup(void* a) { return bitset_dup(a); }
void bs_or(void* a, void* b) { bitset_or(a, b); }
void bs_and(void* a, void* b) { bitset_and(a, b); }
void bs_xor(void* a, void* b) { bitset_xor(a, b); }
void bs_andnot(void* a, void* b) { bitset_andnot(a, b); }
void bs_not(void* a) { bitset_not(a); }
size_t bs_alloca(size_t n, const size_t* set, size_t k, unsigned char* out, size_t max) { bitset* b = bitset_alloca(n); for (size_t i = 0; i < k; i++) bitset_set(b, set[i]); for (size_t i = 0; i < max; i++) out[i] = (unsigned char)bitset_isset(b, i); return b->n; }
void bs_dupalloca(void* a, unsigned char* out, size_t max) { bitset* y = a; bitset* b = bitset_dup_alloca(y); for (size_t i = 0; i < max; i++) out[i] = (unsigned char)bitset_isset(b, i); }
void* fb_new(size_t n) { fast_buf* b = malloc(sizeof *b); return fast_buf_init(b, n); }
void fb_fini(void* b) { fast_buf_fini(b); free(b); }
void fb_append(void* b, const uint8_t* p, size_t n) { fast_buf_append_buf(b, (uint8_t*)p, n); }
void fb_byte(void* b, uint8_t c) { fast_buf_append_byte(b, c); }
void fb_reserve(void* b, size_t n) { fast_buf_reserve(b, n); }
void fb_grow(void* b, size_t n) { fast_buf_grow(b, n); }
void fb_reset(void* b) { fast_buf_reset(b); }
void fb_advance(void* b, size_t n) { fast_buf_advance(b, n); }
uint8_t* fb_ptr(void* b) { return fast_buf_ptr(b); }
size_t fb_len(void* b) { return fast_buf_len(b); }
size_t fb_cap(void* b) { return fast_buf_cap(b); }
