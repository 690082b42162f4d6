#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
// one interface per list kind; nodes are caller-allocated blocks of node_size bytes carrying an id
typedef struct lops {
    const char* name; size_t node_size, head_size; int back, mid;       // back: has reverse enumeration; mid: insert before/remove anywhere
    void (*init)(void* h); int (*empty)(void* h); void* (*first)(void* h); void* (*last)(void* h);
    void (*set_id)(void* n, long id); long (*id)(void* n);
    void (*ins_head)(void* h, void* n); void (*ins_tail)(void* h, void* n); void (*ins_after)(void* h, void* at, void* n); void (*ins_before)(void* h, void* at, void* n);
    void (*ins_after_last)(void* h, void* n); void (*ins_before_first)(void* h, void* n);   // position given as the list's own first/last expression
    void (*rem)(void* h, void* n); void* (*rem_head)(void* h); void* (*rem_tail)(void* h); void (*rem_last_expr)(void* h);
    void (*append)(void* h, void* o); void (*prepend)(void* h, void* o);
    int nfwd; size_t (*fwd)(int how, void* h, void** out, size_t max); int nbwd; size_t (*bwd)(int how, void* h, void** out, size_t max);
    int nsafe; size_t (*safe)(int how, void* h, int (*drop)(void* u, void* n), void* u);  // iterate, removing (and freeing) the elements drop() selects
} lops;
extern const lops list_sl, list_dl, list_ll, list_hl;
// extra circular list operations
void ll_move(void* n, void* h, int tail); void ll_rotate(void* h); void ll_splice(void* from, void* to, int how); void ll_cut(void* dst, void* h, void* at);
void ll_replace(void* o, void* n, int init); void ll_del_init(void* n); int ll_selfempty(void* n); int ll_single(void* h); int ll_islast(void* n, void* h); int ll_empty_careful(void* h); void* ll_first_entry(void* h);
size_t ll_from(int how, void* h, void* at, void** out, size_t max);
void hl_move_list(void* from, void* to); void hl_del_init(void* n); int hl_unhashed(void* n); size_t hl_from(int how, void* at, void** out, size_t max);
#ifdef __cplusplus
}
#endif
