//@ shim: list_shim.c
//@ quick: 15
// C11: the list macros and functions vs std::vector, two lists of the same kind per case.
#include "pbt.h"
#include "list_shim.h"
typedef std::vector<void*> M;
struct W { const lops* O; void* h[2]; M m[2]; long ser = 0; std::map<void*, long> ids; };
static void* node(W& w) { void* n = malloc(w.O->node_size); memset(n, 0x5A, w.O->node_size); w.O->set_id(n, ++w.ser); w.ids[n] = w.ser; return n; }
static void drop_node(W& w, void* n) { CHECK(w.O->id(n) == w.ids[n], "the element's own data changed"); w.ids.erase(n); free(n); }
static std::string names(W& w, const void* const* v, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += w.ids.count((void*)v[i]) ? pbt::fmt("%ld ", w.ids[(void*)v[i]]) : std::string("? "); return s; }
static void same(W& w, const M& want, const std::vector<void*>& got, size_t n, const char* what, int how) {
    if (n != want.size() || !std::equal(want.begin(), want.end(), got.begin())) FAIL("%s list: %s (variant %d) gives [%s]%s, expected [%s]", w.O->name, what, how, names(w, got.data(), std::min(n, got.size())).c_str(), n > got.size() ? " without end" : "", names(w, want.data(), want.size()).c_str());
}
static void check(pbt::Src& g, W& w) {
    for (int k = 0; k < 2; k++) {
        const lops* O = w.O; M& m = w.m[k]; std::vector<void*> o(m.size() + 2);
        for (int how = 0; how < O->nfwd; how++) same(w, m, o, O->fwd(how, w.h[k], o.data(), o.size()), "enumeration", how);
        M r(m.rbegin(), m.rend()); for (int how = 0; how < O->nbwd; how++) same(w, r, o, O->bwd(how, w.h[k], o.data(), o.size()), "reverse enumeration", how);
        CHECK(!!O->empty(w.h[k]) == m.empty(), "%s list with %zu elements says empty=%d", O->name, m.size(), O->empty(w.h[k]));
        CHECK(O->first(w.h[k]) == (m.empty() ? nullptr : m.front()), "%s list: first element wrong", O->name);
        if (O->last) CHECK(O->last(w.h[k]) == (m.empty() ? nullptr : m.back()), "%s list: last element wrong", O->name);
        if (O == &list_ll) { CHECK(!!ll_single(w.h[k]) == (m.size() == 1), "singular verdict wrong for %zu elements", m.size()); CHECK(!!ll_empty_careful(w.h[k]) == m.empty(), "careful emptiness verdict wrong"); for (size_t i = 0; i < m.size(); i++) CHECK(!!ll_islast(m[i], w.h[k]) == (i + 1 == m.size()), "is-last verdict wrong for element %zu of %zu", i, m.size()); }
        if (!m.empty() && (O == &list_ll || O == &list_hl)) { size_t i = g.range(0, m.size() - 1);
            M fr(m.begin() + i, m.end()), ct(m.begin() + i + 1, m.end()), bk; for (size_t j = i; j-- > 0;) bk.push_back(m[j]);
            if (O == &list_ll) { for (int how = 0; how < 4; how++) same(w, how & 1 ? ct : fr, o, ll_from(how, w.h[k], m[i], o.data(), o.size()), "enumeration from the middle", how); same(w, bk, o, ll_from(4, w.h[k], m[i], o.data(), o.size()), "reverse enumeration from the middle", 4); }
            else for (int how = 0; how < 2; how++) same(w, how ? ct : fr, o, hl_from(how, m[i], o.data(), o.size()), "enumeration from the middle", how); }
        for (void* n : m) CHECK(O->id(n) == w.ids[n], "the element's own data changed");
    }
}
struct Dr { W* w; M seen, gone; uint64_t mask; bool prefix; };
static int dropper(void* u, void* n) { Dr* d = (Dr*)u; size_t i = d->seen.size(); d->seen.push_back(n); bool x = (d->mask >> (i % 64)) & 1; if (x) { d->gone.push_back(n); d->w->ids.erase(n); } return x; }
static void run(pbt::Src& g, pbt::Ctx& c, const lops* O) {
    c.leakcheck = true; W w; w.O = O; for (int k = 0; k < 2; k++) { w.h[k] = malloc(O->head_size); memset(w.h[k], 0x5A, O->head_size); O->init(w.h[k]); }
    size_t ops = 2 + g.size(60), big = 0;
    for (size_t s = 0; s < ops; s++) {
        int k = (int)g.range(0, 1); M& m = w.m[k]; void* h = w.h[k]; size_t n = m.size(); big = std::max(big, n); size_t at = n ? g.range(0, n - 1) : 0;
        switch (g.weighted({4, 4, 3, 3, 2, 2, 2, 1, 1, 1, 1, 2, 1, 1, 1, 4})) {
        case 0: { void* e = node(w); TR("%d: insert %ld at the head", k, w.ser); O->ins_head(h, e); m.insert(m.begin(), e); break; }
        case 1: if (O->ins_tail) { void* e = node(w); TR("%d: insert %ld at the tail", k, w.ser); O->ins_tail(h, e); m.push_back(e); } break;
        case 2: if (n) { void* e = node(w); TR("%d: insert %ld after #%zu", k, w.ser, at); O->ins_after(h, m[at], e); m.insert(m.begin() + at + 1, e); } break;
        case 3: if (n && O->ins_before) { void* e = node(w); TR("%d: insert %ld before #%zu", k, w.ser, at); O->ins_before(h, m[at], e); m.insert(m.begin() + at, e); } break;
        case 4: if (n && O->rem) { TR("%d: remove #%zu", k, at); O->rem(h, m[at]); drop_node(w, m[at]); m.erase(m.begin() + at); } break;
        case 5: { TR("%d: remove the head", k); void* e = O->rem_head(h); CHECK(e == (n ? m[0] : nullptr), "%s list: removing the head gave the wrong element", O->name); if (n) { drop_node(w, e); m.erase(m.begin()); } break; }
        case 6: if (O->rem_tail) { TR("%d: remove the tail", k); void* e = O->rem_tail(h); CHECK(e == (n ? m.back() : nullptr), "%s list: removing the tail gave the wrong element", O->name); if (n) { drop_node(w, e); m.pop_back(); } } break;
        case 7: if (n && O->ins_after_last) { void* e = node(w); TR("%d: insert %ld after 'the last'", k, w.ser); O->ins_after_last(h, e); m.push_back(e); } break;
        case 8: if (n && O->ins_before_first) { void* e = node(w); TR("%d: insert %ld before 'the first'", k, w.ser); O->ins_before_first(h, e); m.insert(m.begin(), e); } break;
        case 9: if (n && O->rem_last_expr) { TR("%d: remove 'the last'", k); O->rem_last_expr(h); drop_node(w, m.back()); m.pop_back(); } break;
        case 10: if (O->append) { TR("%d: append the other list", k); O->append(h, w.h[1 - k]); m.insert(m.end(), w.m[1 - k].begin(), w.m[1 - k].end()); w.m[1 - k].clear(); } break;
        case 11: if (O->prepend) { TR("%d: prepend the other list", k); O->prepend(h, w.h[1 - k]); m.insert(m.begin(), w.m[1 - k].begin(), w.m[1 - k].end()); w.m[1 - k].clear(); } break;
        case 12: case 13: if (O->nsafe) { int how = (int)g.range(0, O->nsafe - 1); Dr d{&w, {}, {}, g.flip() ? ~0ull : g.raw(8), false}; if (O == &list_sl) d.mask = g.flip() ? ~0ull : (1ull << g.range(0, 20)) - 1;
            bool rev = O == &list_ll && (how == 1 || how == 3); TR("%d: iterate (variant %d), removing by mask %llx", k, how, (unsigned long long)d.mask); size_t cnt = O->safe(how, h, dropper, &d);
            CHECK(cnt == n, "%s list: removing while iterating (variant %d) visited %zu of %zu elements", O->name, how, cnt, n); M want = rev ? M(m.rbegin(), m.rend()) : m; if (O == &list_sl) want.resize(d.seen.size()); CHECK(d.seen == want, "%s list: removing while iterating visited the wrong elements", O->name);
            M left; for (void* e : m) if (std::find(d.gone.begin(), d.gone.end(), e) == d.gone.end()) left.push_back(e); m = left; } break;
        case 14: std::swap(w.h[0], w.h[1]); std::swap(w.m[0], w.m[1]); break;
        default:
            if (O == &list_ll) { M& o = w.m[1 - k];
                switch (g.range(0, 5)) {
                case 0: if (n) { bool tail = g.flip(), same = g.flip(); TR("%d: move #%zu to the %s of the %s list", k, at, tail ? "tail" : "head", same ? "same" : "other"); void* e = m[at]; m.erase(m.begin() + at); M& t = same ? m : o; ll_move(e, same ? h : w.h[1 - k], tail); t.insert(tail ? t.end() : t.begin(), e); } break;
                case 1: TR("%d: rotate", k); ll_rotate(h); if (n) { m.push_back(m[0]); m.erase(m.begin()); } break;
                case 2: { int how = (int)g.range(0, 3); TR("%d: splice the other (%d)", k, how); ll_splice(w.h[1 - k], h, how); m.insert(how & 1 ? m.end() : m.begin(), o.begin(), o.end()); o.clear(); break; }
                case 3: if (o.empty()) { bool self = g.chance(1, 4) || !n; TR("%d: cut up to %s", k, self ? "the head itself" : pbt::fmt("#%zu", at).c_str()); ll_cut(w.h[1 - k], h, self ? nullptr : m[at]); if (!self && n) { o.assign(m.begin(), m.begin() + at + 1); m.erase(m.begin(), m.begin() + at + 1); } } break;
                case 4: if (n) { bool init = g.flip(); void *e = node(w), *old = m[at]; TR("%d: replace #%zu by %ld", k, at, w.ser); ll_replace(old, e, init); if (init) CHECK(ll_selfempty(old), "replaced element is not reinitialised"); drop_node(w, old); m[at] = e; } break;
                default: if (n) { TR("%d: del_init #%zu", k, at); ll_del_init(m[at]); CHECK(ll_selfempty(m[at]), "deleted element is not reinitialised"); drop_node(w, m[at]); m.erase(m.begin() + at); }
                }
            } else if (O == &list_hl) {
                if (g.flip()) { if (w.m[1 - k].empty()) { TR("%d: move the list to the other head", k); hl_move_list(h, w.h[1 - k]); w.m[1 - k] = m; m.clear(); } }
                else if (n) { TR("%d: del_init #%zu", k, at); hl_del_init(m[at]); CHECK(hl_unhashed(m[at]), "deleted element is still marked as linked"); hl_del_init(m[at]); drop_node(w, m[at]); m.erase(m.begin() + at); }
            }
        }
        check(g, w);
    }
    c.nontrivial(ops >= 8 && big >= 3); c.label(O->name);
    for (int k = 0; k < 2; k++) { for (void* n : w.m[k]) free(n); free(w.h[k]); }
}
#define RULE "operation history over two lists of this kind, every enumeration form compared with the model after each operation; non-trivial: >=8 operations and a list of >=3 elements"
TARGET(singly, 1, RULE) { run(g, c, &list_sl); }
TARGET(doubly, 2, RULE) { run(g, c, &list_dl); }
TARGET(circular, 2, RULE) { run(g, c, &list_ll); }
TARGET(hash, 1, RULE) { run(g, c, &list_hl); }
