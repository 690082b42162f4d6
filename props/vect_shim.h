#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct vops {
    size_t esz; int scalar;
    void* (*mk)(void);                     // raw struct storage
    void (*init)(void*, size_t); void (*init_from)(void*, void*); void (*fini)(void*); void (*swap)(void*, void*);
    void (*reserve)(void*, size_t); void (*ensure)(void*, size_t); void (*get_next)(void*, const void* e);
    void (*push_back)(void*, const void* e); void (*push_back_self)(void*, size_t i); void (*push_back_int)(void*, int);
    void (*push_front)(void*, const void* e); void (*push_front_self)(void*, size_t i); void (*push_front_int)(void*, int);
    void (*pop_back)(void*, void* out); void (*pop_front)(void*, void* out); void (*pop)(void*);
    void (*reset)(void*); void (*copy)(void* d, void* s); void (*append)(void* d, void* s);
    void (*sort)(void*); void (*shuffle)(void*); int (*sample)(void* d, void* s, size_t k); void (*rand_elem)(void*, void* out);
    size_t (*foreach)(void*, void (*cb)(void* u, const void* e), void* u); size_t (*foreachi)(void*, void (*cb)(void* u, const void* e), void* u);
    void (*first)(void*, void*); void (*last)(void*, void*); void (*top)(void*, void*); void (*elem)(void*, size_t, void*); void (*set)(void*, size_t, const void*);
    size_t (*len)(void*); size_t (*cap)(void*); const unsigned char* (*slots)(void*);
} vops;
extern const vops* const vect_types[]; extern const int vect_ntypes;
extern uint64_t vect_rnd_state; extern int vect_rnd_mode;
#ifdef __cplusplus
}
#endif
