#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// One bounded queue flavour holding elements of esz bytes. cap(n): how many elements a queue made with size n accepts.
typedef struct qops {
    const char* name; size_t esz; size_t fixed;      // fixed: size is compiled in (else chosen at creation)
    void* (*mk)(size_t n); void (*rm)(void*); size_t (*cap)(size_t n);
    int (*enq)(void*, const void* e); int (*deq)(void*, void* e); void (*enqw)(void*, const void* e); void (*deqw)(void*, void* e);
    size_t (*size)(void*); int (*full)(void*); int (*empty)(void*); void (*reset)(void*); size_t (*capq)(void*);
} qops;
extern const qops* const q_plain[]; extern const int q_nplain;
extern const qops* const q_mpmc[]; extern const int q_nmpmc;
extern const qops* const q_sync[]; extern const int q_nsync;
#ifdef __cplusplus
}
#endif
