// Generated allocation failures: with "//@ wrap: malloc calloc realloc strdup posix_memalign aligned_alloc", an armed call's n-th allocation fails.
#pragma once
#include <stdlib.h>
#include <string.h>
#include <errno.h>
static int oom_at = -1; static bool oom_hit; // the allocations still to succeed before one fails; whether it has
static size_t oom_min; // only allocations of this size or more count
static bool oom_now(size_t n) { if (n < oom_min || oom_at < 0 || oom_at-- > 0) return false; oom_hit = true; errno = ENOMEM; return true; }
struct Oom { Oom(int n, size_t min = 0) { oom_hit = false; oom_at = n; oom_min = min; } ~Oom() { oom_at = -1; } };
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); char* __real_strdup(const char*); int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t);
void* __wrap_malloc(size_t n) { return oom_now(n) ? nullptr : __real_malloc(n); }
void* __wrap_calloc(size_t n, size_t m) { return oom_now(n * m) ? nullptr : __real_calloc(n, m); }
void* __wrap_realloc(void* p, size_t n) { return oom_now(n) ? nullptr : __real_realloc(p, n); }
char* __wrap_strdup(const char* s) { return oom_now(strlen(s) + 1) ? nullptr : __real_strdup(s); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { return oom_now(n) ? ENOMEM : __real_posix_memalign(p, a, n); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return oom_now(n) ? nullptr : __real_aligned_alloc(a, n); }
}
