#include <stdlib.h>
#include <stdio.h>
#include "list_shim.h"
#include "fast/list.h"
#include "fast/llist.h"
typedef struct sn { char pad[3]; SL_LINK(sn) l; long id; } sn; SL_HEAD_TYPEDEF(sh, sn);
typedef struct dn { long id; DL_LINK(dn) l; } dn; DL_HEAD_TYPEDEF(dh, dn);
typedef struct ln { long id; char c; list_head l; } ln;
typedef struct hn { char c; hlist_node l; long id; } hn;
#define ID(T) static void T##_set(void* n, long id) { ((T*)n)->id = id; } static long T##_id(void* n) { return ((T*)n)->id; }
ID(sn) ID(dn) ID(ln) ID(hn)
#define PUT do { if (i >= max) return max + 1; out[i++] = p; } while (0)
// ---- singly linked
static void s_init(void* h) { *(sh*)h = (sh)SL_HEAD_INITIALIZER(h); SL_INIT((sh*)h); }
static int s_empty(void* h) { return SL_EMPTY((sh*)h); }
static void* s_first(void* h) { return SL_FIRST((sh*)h); }
static void s_ih(void* h, void* n) { sh* x = h; sn* e = n; SL_INSERT_HEAD(x, e, l); }
static void s_ia(void* h, void* a, void* n) { sh* x = h; sn *e = n, *p = a; (void)x; SL_INSERT_AFTER(x, p, e, l); }
static void* s_rh(void* h) { sh* x = h; sn* e = SL_FIRST(x); if (e) SL_REMOVE_HEAD(x, l); return e; }
static size_t s_fwd(int how, void* h, void** out, size_t max) { sh* x = h; sn *p, *t; size_t i = 0; if (how) { SL_FOREACH_SAFE(p, x, l, t) PUT; } else { SL_FOREACH(p, x, l) PUT; } return i; }
static size_t s_safe(int how, void* h, int (*drop)(void*, void*), void* u) { sh* x = h; sn *p, *t; size_t i = 0; SL_FOREACH_SAFE(p, x, l, t) { i++; if (SL_FIRST(x) == p && drop(u, p)) { SL_REMOVE_HEAD(x, l); free(p); } } return i; }
const lops list_sl = { "singly linked", sizeof(sn), sizeof(sh), 0, 0, s_init, s_empty, s_first, 0, sn_set, sn_id, s_ih, 0, s_ia, 0, 0, 0, 0, s_rh, 0, 0, 0, 0, 2, s_fwd, 0, 0, 1, s_safe };
// ---- doubly linked
static void d_init(void* h) { dh z = DL_HEAD_INITIALIZER(&z); *(dh*)h = z; DL_INIT((dh*)h); }
static int d_empty(void* h) { dh* x = h; return DL_empty_p(x) ? 1 : DL_EMPTY(x); }
static void* d_first(void* h) { return DL_FIRST((dh*)h); }
static void* d_last(void* h) { return DL_LAST((dh*)h); }
static void d_ih(void* h, void* n) { dh* x = h; dn* e = n; DL_INSERT_HEAD(x, e, l); }
static void d_it(void* h, void* n) { dh* x = h; dn* e = n; DL_LINK_INIT(e, l); if (e->id & 1) DL_INSERT_TAIL(x, e, l); else DL_APPEND(x, e, l); }
static void d_ia(void* h, void* a, void* n) { dh* x = h; dn *e = n, *p = a; DL_INSERT_AFTER(x, p, e, l); }
static void d_ib(void* h, void* a, void* n) { dh* x = h; dn *e = n, *p = a; DL_INSERT_BEFORE(x, p, e, l); }
static void d_ial(void* h, void* n) { dh* x = h; dn* e = n; DL_INSERT_AFTER(x, DL_LAST(x), e, l); }
static void d_ibf(void* h, void* n) { dh* x = h; dn* e = n; DL_INSERT_BEFORE(x, DL_FIRST(x), e, l); }
static void d_rm(void* h, void* n) { dh* x = h; dn* e = n; DL_REMOVE(x, e, l); }
static void d_rle(void* h) { dh* x = h; DL_REMOVE(x, DL_LAST(x), l); }
static void* d_rh(void* h) { dh* x = h; return DL_REMOVE_HEAD(x, l); }
static void* d_rt(void* h) { dh* x = h; return DL_REMOVE_TAIL(x, l); }
static void d_app(void* h, void* o) { dh *x = h, *y = o; DL_APPEND_LIST(x, y, l); }
static void d_pre(void* h, void* o) { dh *x = h, *y = o; DL_PREPEND_LIST(x, y, l); }
static size_t d_fwd(int how, void* h, void** out, size_t max) { dh* x = h; dn* p; size_t i = 0; DL_FOREACH(x, p, l) PUT; return i; }
static size_t d_bwd(int how, void* h, void** out, size_t max) { dh* x = h; dn* p; size_t i = 0; DL_FOREACH_REVERSE(x, p, l) PUT; return i; }
const lops list_dl = { "doubly linked", sizeof(dn), sizeof(dh), 1, 1, d_init, d_empty, d_first, d_last, dn_set, dn_id, d_ih, d_it, d_ia, d_ib, d_ial, d_ibf, d_rm, d_rh, d_rt, d_rle, d_app, d_pre, 1, d_fwd, 1, d_bwd, 0, 0 };
// ---- circular
#define L(n) (&((ln*)(n))->l)
#define E(p) list_entry(p, ln, l)
static void l_init(void* h) { list_head z = LIST_HEAD_INIT(z); *(list_head*)h = z; list_init(h); }
static int l_empty(void* h) { return list_empty(h); }
static void* l_first(void* h) { return list_empty(h) ? 0 : list_first_entry((list_head*)h, ln, l); }
static void* l_last(void* h) { return list_empty(h) ? 0 : E(((list_head*)h)->prev); }
static void l_ih(void* h, void* n) { list_add(L(n), h); }
static void l_it(void* h, void* n) { list_add_tail(L(n), h); }
static void l_ia(void* h, void* a, void* n) { list_add(L(n), L(a)); }
static void l_ib(void* h, void* a, void* n) { list_add_tail(L(n), L(a)); }
static void l_ial(void* h, void* n) { list_add(L(n), ((list_head*)h)->prev); }
static void l_ibf(void* h, void* n) { list_add_tail(L(n), ((list_head*)h)->next); }
static void l_rm(void* h, void* n) { list_del(L(n)); }
static void* l_rh(void* h) { void* e = l_first(h); if (e) list_del(L(e)); return e; }
static void* l_rt(void* h) { void* e = l_last(h); if (e) list_del(L(e)); return e; }
static void l_rle(void* h) { list_del(((list_head*)h)->prev); }
static void l_app(void* h, void* o) { list_splice_tail_init(o, h); }
static void l_pre(void* h, void* o) { list_splice_init(o, h); }
#define PUTE do { if (i >= max) return max + 1; out[i++] = E(q); } while (0)
static size_t l_fwd(int how, void* h, void** out, size_t max) { list_head *x = h, *q, *r; ln *p, *t; size_t i = 0;
    switch (how) { case 0: list_for_each(q, x) PUTE; break; case 1: __list_for_each(q, x) PUTE; break; case 2: list_for_each_safe(q, r, x) PUTE; break;
    case 3: list_for_each_entry(p, x, l) PUT; break; case 4: list_for_each_entry_safe(p, t, x, l) PUT; break;
    case 5: p = 0; p = list_prepare_entry(p, x, l); list_for_each_entry_continue(p, x, l) PUT; break;
    case 6: p = list_entry(x, ln, l); list_for_each_entry_safe_continue(p, t, x, l) PUT; break;
    default: p = list_first_entry(x, ln, l); list_for_each_entry_from(p, x, l) PUT; } return i; }
static size_t l_bwd(int how, void* h, void** out, size_t max) { list_head *x = h, *q, *r; ln *p, *t; size_t i = 0;
    switch (how) { case 0: list_for_each_prev(q, x) PUTE; break; case 1: list_for_each_prev_safe(q, r, x) PUTE; break; case 2: list_for_each_entry_reverse(p, x, l) PUT; break;
    case 3: list_for_each_entry_safe_reverse(p, t, x, l) PUT; break; default: p = list_entry(x, ln, l); list_for_each_entry_continue_reverse(p, x, l) PUT; } return i; }
#define DROP(p) do { i++; if (drop(u, p)) { list_del(L(p)); free(p); } } while (0)
static size_t l_safe(int how, void* h, int (*drop)(void*, void*), void* u) { list_head *x = h, *q, *r; ln *p, *t; size_t i = 0;
    switch (how) { case 0: list_for_each_safe(q, r, x) DROP(E(q)); break; case 1: list_for_each_prev_safe(q, r, x) DROP(E(q)); break; case 2: list_for_each_entry_safe(p, t, x, l) DROP(p); break;
    case 3: list_for_each_entry_safe_reverse(p, t, x, l) DROP(p); break; case 4: p = list_entry(x, ln, l); list_for_each_entry_safe_continue(p, t, x, l) DROP(p); break;
    default: p = list_first_entry(x, ln, l); list_for_each_entry_safe_from(p, t, x, l) { i++; int d = drop(u, p); if (!d) { t = p; list_safe_reset_next(p, t, l); } else { list_del_init(&p->l); free(p); } } } return i; }
const lops list_ll = { "circular", sizeof(ln), sizeof(list_head), 1, 1, l_init, l_empty, l_first, l_last, ln_set, ln_id, l_ih, l_it, l_ia, l_ib, l_ial, l_ibf, l_rm, l_rh, l_rt, l_rle, l_app, l_pre, 8, l_fwd, 5, l_bwd, 6, l_safe };
void ll_move(void* n, void* h, int tail) { if (tail) list_move_tail(L(n), h); else list_move(L(n), h); }
void ll_rotate(void* h) { list_rotate_left(h); }
void ll_splice(void* from, void* to, int how) { switch (how) { case 0: list_splice(from, to); list_init(from); break; case 1: list_splice_tail(from, to); list_init(from); break; case 2: list_splice_init(from, to); break; default: list_splice_tail_init(from, to); } }
void ll_cut(void* d, void* h, void* at) { list_cut_position(d, h, at ? L(at) : (list_head*)h); }
void ll_replace(void* o, void* n, int init) { if (init) list_replace_init(L(o), L(n)); else list_replace(L(o), L(n)); }
void ll_del_init(void* n) { list_del_init(L(n)); }
int ll_selfempty(void* n) { return list_empty(L(n)) && list_empty_careful(L(n)); }
int ll_single(void* h) { return list_is_singular(h); }
int ll_islast(void* n, void* h) { return list_is_last(L(n), h); }
int ll_empty_careful(void* h) { return list_empty_careful(h); }
size_t ll_from(int how, void* h, void* at, void** out, size_t max) { list_head* x = h; ln *p = at, *t; size_t i = 0;
    switch (how) { case 0: list_for_each_entry_from(p, x, l) PUT; break; case 1: list_for_each_entry_continue(p, x, l) PUT; break; case 2: list_for_each_entry_safe_from(p, t, x, l) PUT; break; case 3: list_for_each_entry_safe_continue(p, t, x, l) PUT; break;
    default: list_for_each_entry_continue_reverse(p, x, l) PUT; } return i; }
// ---- hlist
#define H(n) (&((hn*)(n))->l)
#define HE(p) hlist_entry(p, hn, l)
static void h_init(void* h) { hlist_head z = HLIST_HEAD_INIT; *(hlist_head*)h = z; INIT_HLIST_HEAD((hlist_head*)h); }
static int h_empty(void* h) { return hlist_empty(h); }
static void* h_first(void* h) { return hlist_empty(h) ? 0 : HE(((hlist_head*)h)->first); }
static void h_ih(void* h, void* n) { INIT_HLIST_NODE(H(n)); hlist_add_head(H(n), h); }
static void h_ia(void* h, void* a, void* n) { hlist_add_after(H(a), H(n)); }
static void h_ib(void* h, void* a, void* n) { hlist_add_before(H(n), H(a)); }
static void h_ibf(void* h, void* n) { hlist_add_before(H(n), ((hlist_head*)h)->first); }
static void h_rm(void* h, void* n) { hlist_del(H(n)); }
static void* h_rh(void* h) { void* e = h_first(h); if (e) hlist_del(H(e)); return e; }
static size_t h_fwd(int how, void* h, void** out, size_t max) { hlist_head* x = h; hlist_node *q, *r; hn* p; size_t i = 0;
    switch (how) { case 0: hlist_for_each(q, x) { p = HE(q); PUT; } break; case 1: hlist_for_each_safe(q, r, x) { p = HE(q); PUT; } break; case 2: hlist_for_each_entry(p, q, x, l) PUT; break;
    case 3: hlist_for_each_entry_safe(p, q, r, x, l) PUT; break; default: q = x->first; hlist_for_each_entry_from(p, q, l) PUT; } return i; }
#define HDROP(p) do { i++; if (drop(u, p)) { hlist_del(H(p)); free(p); } } while (0)
static size_t h_safe(int how, void* h, int (*drop)(void*, void*), void* u) { hlist_head* x = h; hlist_node *q, *r; hn* p; size_t i = 0;
    if (how) { hlist_for_each_entry_safe(p, q, r, x, l) HDROP(p); } else { hlist_for_each_safe(q, r, x) HDROP(HE(q)); } return i; }
const lops list_hl = { "hash", sizeof(hn), sizeof(hlist_head), 0, 1, h_init, h_empty, h_first, 0, hn_set, hn_id, h_ih, 0, h_ia, h_ib, 0, h_ibf, h_rm, h_rh, 0, 0, 0, 0, 5, h_fwd, 0, 0, 2, h_safe };
void hl_move_list(void* from, void* to) { hlist_move_list(from, to); }
void hl_del_init(void* n) { hlist_del_init(H(n)); }
int hl_unhashed(void* n) { return hlist_unhashed(H(n)); }
size_t hl_from(int how, void* at, void** out, size_t max) { hlist_node* q = H(at); hn* p; size_t i = 0; if (how) { hlist_for_each_entry_continue(p, q, l) PUT; } else { hlist_for_each_entry_from(p, q, l) PUT; } return i; }
