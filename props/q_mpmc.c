#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "utils/utils.h"
#include "fast/mpmc_bounded_queue.h"
#include "q_shim.h"
typedef struct { uint8_t b[3]; } e3; typedef struct { uint64_t a, b, c; } e24; typedef uint64_t e8; typedef struct { uint8_t b[65]; } e65;
static size_t cap2(size_t n) { size_t c = 1; while (c < n) c *= 2; return c; }
#define MP(N, T) MPMC_QUEUE_TYPE(N, T); \
static void* N##_mk(size_t n) { return MPMC_QUEUE_NEW(N, n); } static void N##_rm(void* v) { N* q = v; MPMC_QUEUE_DEL(q); if (q) abort(); } \
static int N##_enq(void* v, const void* e) { N* q = v; T x; memcpy(&x, e, sizeof x); return MPMC_QUEUE_ENQ(q, x); } static int N##_deq(void* v, void* e) { N* q = v; T x; memcpy(&x, e, sizeof x); int r = MPMC_QUEUE_DEQ(q, x); memcpy(e, &x, sizeof x); return r; } \
static void N##_enqw(void* v, const void* e) { N* q = v; T x; memcpy(&x, e, sizeof x); MPMC_QUEUE_ENQ_WAIT(q, x); } static void N##_deqw(void* v, void* e) { N* q = v; T x; MPMC_QUEUE_DEQ_WAIT(q, x); memcpy(e, &x, sizeof x); } \
static size_t N##_size(void* v) { N* q = v; return MPMC_QUEUE_SIZE(q); } static int N##_full(void* v) { N* q = v; return MPMC_QUEUE_FULL_P(q); } static int N##_empty(void* v) { N* q = v; return MPMC_QUEUE_EMPTY_P(q); } static void N##_reset(void* v) { N* q = v; MPMC_QUEUE_RESET(q); } \
static size_t N##_capq(void* v) { N* q = v; char s[80]; MPMC_QUEUE_DESC(q, s, sizeof s); return MPMC_QUEUE_CAP(q); } \
static const qops N##_ops = { "mpmc", sizeof(T), 0, N##_mk, N##_rm, cap2, N##_enq, N##_deq, N##_enqw, N##_deqw, N##_size, N##_full, N##_empty, N##_reset, N##_capq };
MP(m3, e3) MP(m8, e8) MP(m24, e24) MP(m65, e65)
const qops* const q_mpmc[] = { &m3_ops, &m8_ops, &m24_ops, &m65_ops };
const int q_nmpmc = 4;
