#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#include "fast/vect.h"
#include "vect_shim.h"
uint64_t vect_rnd_state; int vect_rnd_mode;
static uint32_t rnd32(void) { vect_rnd_state = vect_rnd_state * 6364136223846793005ull + 1442695040888963407ull; if (vect_rnd_mode == 1) return 0; if (vect_rnd_mode == 2) return ~0u; uint64_t z = vect_rnd_state; z ^= z >> 33; z *= 0xff51afd7ed558ccdull; z ^= z >> 29; return (uint32_t)(z >> 16); }
typedef struct { uint8_t b[3]; } s3; typedef struct { uint64_t a, b, c; } s24; typedef struct { char c[65]; } s65;
#define GEN(N, T) VECT_TYPEDEF(v_##N, T); \
static int cmp_##N(const T* a, const T* b) { return memcmp(a, b, sizeof(T)); } \
static void* mk_##N(void) { return malloc(sizeof(v_##N)); } \
static void init_##N(void* v, size_t n) { VECT_INIT((v_##N*)v, n); } \
static void initf_##N(void* v, void* w) { VECT_INIT_FROM((v_##N*)v, (v_##N*)w); } \
static void fini_##N(void* v) { VECT_FINI((v_##N*)v); } \
static void swap_##N(void* a, void* b) { v_##N *x = a, *y = b; VECT_SWAP(x, y); } \
static void rsv_##N(void* v, size_t n) { VECT_RESERVE((v_##N*)v, n); } \
static void ens_##N(void* v, size_t n) { VECT_ENSURE((v_##N*)v, n); } \
static void gn_##N(void* v, const void* e) { v_##N* x = v; VECT_ENSURE(x, 1); T t; memcpy(&t, e, sizeof t); VECT_GET_NEXT(x) = t; } \
static void pb_##N(void* v, const void* e) { T t; memcpy(&t, e, sizeof t); VECT_PUSH_BACK((v_##N*)v, t); } \
static void pbs_##N(void* v, size_t i) { v_##N* x = v; VECT_PUSH_BACK(x, VECT_ELEM(x, i)); } \
static void pf_##N(void* v, const void* e) { T t; memcpy(&t, e, sizeof t); VECT_PUSH_FRONT((v_##N*)v, t); } \
static void pfs_##N(void* v, size_t i) { v_##N* x = v; VECT_PUSH_FRONT(x, VECT_ELEM(x, i)); } \
static void pob_##N(void* v, void* o) { T t = VECT_POP_BACK((v_##N*)v); memcpy(o, &t, sizeof t); } \
static void pof_##N(void* v, void* o) { T t = VECT_POP_FRONT((v_##N*)v); memcpy(o, &t, sizeof t); } \
static void pop_##N(void* v) { VECT_POP((v_##N*)v); } \
static void rst_##N(void* v) { VECT_RESET((v_##N*)v); } \
static void cpy_##N(void* d, void* s) { VECT_COPY((v_##N*)d, (v_##N*)s); } \
static void app_##N(void* d, void* s) { VECT_APPEND_VECT((v_##N*)d, (v_##N*)s); } \
static void srt_##N(void* v) { VECT_SORT((v_##N*)v, cmp_##N); } \
static void shf_##N(void* v) { VECT_SHUFFLE((v_##N*)v, rnd32); } \
static int smp_##N(void* d, void* s, size_t k) { return VECT_SAMPLE((v_##N*)d, (v_##N*)s, k, rnd32); } \
static void rnd_##N(void* v, void* o) { T t = VECT_RAND_ELEM((v_##N*)v, rnd32); memcpy(o, &t, sizeof t); } \
static size_t fe_##N(void* v, void (*cb)(void*, const void*), void* u) { v_##N* x = v; T* p; size_t n = 0; VECT_FOR_EACH(x, p) { cb(u, p); n++; } return n; } \
static size_t fi_##N(void* v, void (*cb)(void*, const void*), void* u) { v_##N* x = v; T* p; size_t i; VECT_FOR_EACHi(x, i, p) cb(u, p); return i; } \
static void fst_##N(void* v, void* o) { v_##N* x = v; memcpy(o, &VECT_FIRST_ELEM(x), sizeof(T)); } \
static void lst_##N(void* v, void* o) { v_##N* x = v; T t = VECT_LAST_ELEM(x); memcpy(o, &t, sizeof t); } \
static void top_##N(void* v, void* o) { v_##N* x = v; T t = VECT_TOP(x); memcpy(o, &t, sizeof t); } \
static void elm_##N(void* v, size_t i, void* o) { v_##N* x = v; memcpy(o, &VECT_ELEM(x, i), sizeof(T)); } \
static void set_##N(void* v, size_t i, const void* e) { v_##N* x = v; memcpy(&VECT_ELEM(x, i), e, sizeof(T)); } \
static size_t len_##N(void* v) { v_##N* x = v; return VECT_LEN(x); } \
static size_t cap_##N(void* v) { v_##N* x = v; return VECT_CAPACITY(x); } \
static const unsigned char* slt_##N(void* v) { return (unsigned char*)((v_##N*)v)->arr; }
#define INTS(N, T) static void pbi_##N(void* v, int i) { VECT_PUSH_BACK((v_##N*)v, i); } static void pfi_##N(void* v, int i) { VECT_PUSH_FRONT((v_##N*)v, i); }
#define NOINTS(N) enum { dummy_##N }; static void (*const pbi_##N)(void*, int) = 0; static void (*const pfi_##N)(void*, int) = 0;
#define TAB(N, T, S) static const vops ops_##N = { sizeof(T), S, mk_##N, init_##N, initf_##N, fini_##N, swap_##N, rsv_##N, ens_##N, gn_##N, pb_##N, pbs_##N, pbi_##N, pf_##N, pfs_##N, pfi_##N, pob_##N, pof_##N, pop_##N, rst_##N, cpy_##N, app_##N, srt_##N, shf_##N, smp_##N, rnd_##N, fe_##N, fi_##N, fst_##N, lst_##N, top_##N, elm_##N, set_##N, len_##N, cap_##N, slt_##N };
GEN(u8, uint8_t) INTS(u8, uint8_t) TAB(u8, uint8_t, 1)
GEN(u64, uint64_t) INTS(u64, uint64_t) TAB(u64, uint64_t, 1)
GEN(u16, uint16_t) INTS(u16, uint16_t) TAB(u16, uint16_t, 1)
#define pbi_s3 0
#define pfi_s3 0
#define pbi_s24 0
#define pfi_s24 0
#define pbi_s65 0
#define pfi_s65 0
GEN(s3, s3) TAB(s3, s3, 0)
GEN(s24, s24) TAB(s24, s24, 0)
GEN(s65, s65) TAB(s65, s65, 0)
const vops* const vect_types[] = { &ops_u64, &ops_u8, &ops_u16, &ops_s3, &ops_s24, &ops_s65 };
const int vect_ntypes = 6;
