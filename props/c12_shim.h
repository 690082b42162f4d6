#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void* bs_new(size_t n); void bs_del(void*); size_t bs_words(void*); void bs_set(void*, size_t); void bs_clr(void*, size_t); int bs_isset(void*, size_t); int bs_value(void*, size_t);
void bs_copy(void*, void*); void* bs_dup(void*); void bs_or(void*, void*); void bs_and(void*, void*); void bs_xor(void*, void*); void bs_andnot(void*, void*); void bs_not(void*);
size_t bs_alloca(size_t n, const size_t* set, size_t k, unsigned char* out, size_t max);   // stack set: set k bits, report each of the first `max` bits, return its words
void bs_dupalloca(void* a, unsigned char* out, size_t max);
void* fb_new(size_t n); void fb_fini(void*); void fb_append(void*, const uint8_t*, size_t); void fb_byte(void*, uint8_t); void fb_reserve(void*, size_t); void fb_grow(void*, size_t); void fb_reset(void*); void fb_advance(void*, size_t);
uint8_t* fb_ptr(void*); size_t fb_len(void*); size_t fb_cap(void*);
#ifdef __cplusplus
}
#endif
