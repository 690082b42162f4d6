#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "utils/utils.h"
#include "fast/queue.h"
#include "fast/spsc_bounded_queue.h"
#include "fast/syncq.h"
#include "q_shim.h"
typedef struct { uint8_t b[3]; } e3; typedef struct { uint64_t a, b, c; } e24; typedef uint64_t e8;
static size_t cap1(size_t n) { return n - 1; }
static size_t cap0(size_t n) { return n; }
#define COMMON(P, N, T, ENQ, DEQ, SIZE, FULL, EMPTY, RESET) \
static int P##N##_enq(void* v, const void* e) { N* q = v; T x; memcpy(&x, e, sizeof x); return ENQ(q, x); } \
static int P##N##_deq(void* v, void* e) { N* q = v; T x; memcpy(&x, e, sizeof x); int r = DEQ(q, x); memcpy(e, &x, sizeof x); return r; } \
static size_t P##N##_size(void* v) { N* q = v; return SIZE(q); } static int P##N##_full(void* v) { N* q = v; return FULL(q); } static int P##N##_empty(void* v) { N* q = v; return EMPTY(q); } static void P##N##_reset(void* v) { N* q = v; RESET(q); }
#define ST(P, L, N, T, S, TD, INIT, ENQ, DEQ, SIZE, FULL, EMPTY, RESET, NM) TD(N, T, S); COMMON(P, N, T, ENQ, DEQ, SIZE, FULL, EMPTY, RESET) \
static void* P##N##_mk(size_t n) { N* q = malloc(sizeof *q); memset(q, 0x5a, sizeof *q); INIT(q, n); return q; } static void P##N##_rm(void* v) { free(v); } \
static const qops P##N##_ops = { NM, sizeof(T), S, P##N##_mk, P##N##_rm, cap1, P##N##_enq, P##N##_deq, 0, 0, P##N##_size, P##N##_full, P##N##_empty, P##N##_reset, 0 };
#define DY(P, N, T, TD, INIT, FINI, ENQ, DEQ, SIZE, FULL, EMPTY, RESET, NM) TD(N, T); COMMON(P, N, T, ENQ, DEQ, SIZE, FULL, EMPTY, RESET) \
static void* P##N##_mk(size_t n) { N* q = malloc(sizeof *q); memset(q, 0x5a, sizeof *q); INIT(q, n); return q; } static void P##N##_rm(void* v) { N* q = v; FINI(q); free(v); } \
static const qops P##N##_ops = { NM, sizeof(T), 0, P##N##_mk, P##N##_rm, cap1, P##N##_enq, P##N##_deq, 0, 0, P##N##_size, P##N##_full, P##N##_empty, P##N##_reset, 0 };
#define FQS(N, T, S) ST(f_, static, N, T, S, FQ_TYPEDEF2, FQ_INIT, FQ_ENQ, FQ_DEQ, FQ_SIZE, FQ_FULL_P, FQ_EMPTY_P, FQ_RESET, "plain fixed")
#define FQ_TYPEDEF2(N, T, S) FQ_TYPEDEF(N, T, S)
typedef FQ_TYPE(fq1, e8, 1) fq1;
#undef FQ_TYPEDEF2
#define FQ_TYPEDEF2(N, T, S) typedef FQ_TYPE(N, T, S) N
#define SPS(N, T, S) ST(s_, static, N, T, S, SP_TYPEDEF2, SPSCQ_INIT, SPSCQ_ENQ, SPSCQ_DEQ, SPSCQ_SIZE, SPSCQ_FULL_P, SPSCQ_EMPTY_P, SPSCQ_RESET, "spsc fixed")
#define SP_TYPEDEF2(N, T, S) typedef SPSCQ_TYPE(N, T, S) N
FQS(fq2, e8, 2) FQS(fq3, e3, 3) FQS(fq5, e24, 5) FQS(fq8, e8, 8) FQS(fq17, e3, 17) FQS(fq1b, e8, 1)
SPS(sq2, e8, 2) SPS(sq3, e3, 3) SPS(sq5, e24, 5) SPS(sq8, e8, 8) SPS(sq17, e3, 17) SPS(sq1b, e8, 1)
#define FQD(N, T) DY(fd_, N, T, FQ_DYN_TYPEDEF, FQ_DYN_INIT, FQ_DYN_FINI, FQ_ENQ, FQ_DEQ, FQ_SIZE, FQ_FULL_P, FQ_EMPTY_P, FQ_RESET, "plain dynamic")
#define SPD(N, T) DY(sd_, N, T, SPSCQ_DYN_TYPEDEF, SPSCQ_DYN_INIT, SPSCQ_DYN_FINI, SPSCQ_ENQ, SPSCQ_DEQ, SPSCQ_SIZE, SPSCQ_FULL_P, SPSCQ_EMPTY_P, SPSCQ_RESET, "spsc dynamic")
FQD(fqd3, e3) FQD(fqd8, e8) FQD(fqd24, e24) SPD(spd3, e3) SPD(spd8, e8) SPD(spd24, e24)
const qops* const q_plain[] = { &f_fq2_ops, &f_fq3_ops, &f_fq5_ops, &f_fq8_ops, &f_fq17_ops, &f_fq1b_ops, &s_sq2_ops, &s_sq3_ops, &s_sq5_ops, &s_sq8_ops, &s_sq17_ops, &s_sq1b_ops, &fd_fqd3_ops, &fd_fqd8_ops, &fd_fqd24_ops, &sd_spd3_ops, &sd_spd8_ops, &sd_spd24_ops };
const int q_nplain = sizeof q_plain / sizeof *q_plain;
#define SYN(N, T, S) SYNCQ_TYPEDEF(N, T, S); \
static void* y_##N##_mk(size_t n) { N* q = malloc(sizeof *q); memset(q, 0x5a, sizeof *q); int r = SYNCQ_INIT(q, n); if (r) abort(); return q; } static void y_##N##_rm(void* v) { N* q = v; SYNCQ_FINI(q); free(v); } \
static void y_##N##_enq(void* v, const void* e) { N* q = v; T x; memcpy(&x, e, sizeof x); SYNCQ_ENQ(q, x); } static void y_##N##_deq(void* v, void* e) { N* q = v; T x = SYNCQ_DEQ(q); memcpy(e, &x, sizeof x); } \
static const qops y_##N##_ops = { "sync", sizeof(T), S, y_##N##_mk, y_##N##_rm, cap0, 0, 0, y_##N##_enq, y_##N##_deq, 0, 0, 0, 0, 0 };
SYN(yq1, e8, 1) SYN(yq2, e24, 2) SYN(yq3, e3, 3) SYN(yq8, e8, 8) SYN(yq64, e24, 64)
const qops* const q_sync[] = { &y_yq1_ops, &y_yq2_ops, &y_yq3_ops, &y_yq8_ops, &y_yq64_ops };
const int q_nsync = 5;
