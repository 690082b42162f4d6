//@ shim: vect_shim.c
//@ quick: 20
// C10: typed vectors vs std::vector, over element sizes 1, 2, 3, 8, 24 and 65.
#include "pbt.h"
#include "vect_shim.h"
#include <math.h>
typedef std::string E;
struct V { void* v; std::vector<E> m; };
static const vops* O;
static void collect(void* u, const void* e) { ((std::vector<E>*)u)->push_back(E((const char*)e, O->esz)); }
static E gen_e(pbt::Src& g, uint64_t& ser) { E e(O->esz, 0); uint64_t s = g.chance(1, 4) ? g.range(0, 3) : ++ser; for (size_t i = 0; i < e.size(); i++) e[i] = (char)(i < 8 ? s >> (8 * i) : s * 31 + i); return e; }
static void check(V& x, const char* what) {
    CHECK(O->len(x.v) == x.m.size(), "length %zu, expected %zu after %s", O->len(x.v), x.m.size(), what);
    CHECK(O->cap(x.v) >= x.m.size(), "capacity %zu below the length %zu after %s", O->cap(x.v), x.m.size(), what);
    E o(O->esz, 0);
    for (size_t i = 0; i < x.m.size(); i++) { O->elem(x.v, i, &o[0]); if (o != x.m[i]) FAIL("element %zu of %zu is %s, expected %s after %s", i, x.m.size(), pbt::show(o).c_str(), pbt::show(x.m[i]).c_str(), what); }
}
static E ofint(int i) { E e(O->esz, 0); uint64_t v = (uint64_t)(int64_t)i; memcpy(&e[0], &v, O->esz); return e; }
TARGET(histories, 6, "operation history over two vectors of one element type (push/pop at both ends, reserve, ensure, reset, copy, append, init-from, swap, sort, shuffle, sample, iterate), compared with std::vector after each; non-trivial: >=10 operations and a growth") {
    c.leakcheck = true; O = vect_types[g.range(0, (uint64_t)vect_ntypes - 1)]; uint64_t ser = 0; V x[2]; size_t grows = 0;
    vect_rnd_state = g.u(); vect_rnd_mode = (int)g.weighted({6, 1, 1});
    for (int i = 0; i < 2; i++) { size_t n = g.pick<size_t>({4, 0, 1, 2, 3, 16, 33}); x[i].v = O->mk(); O->init(x[i].v, n); CHECK(O->cap(x[i].v) >= n, "initial capacity %zu below %zu", O->cap(x[i].v), n); TR("v%d: init(%zu) elements of %zu bytes", i, n, O->esz); }
    size_t ops = 3 + g.size(100); std::vector<E>* mm;
    for (size_t k = 0; k < ops; k++) {
        int w = (int)g.range(0, 1); V &a = x[w], &b = x[1 - w]; size_t cap0 = O->cap(a.v), n = a.m.size(); E o(O->esz, 0); const char* nm = "?"; mm = &a.m;
        switch (g.weighted({8, 3, 3, 3, 2, 2, 1, 2, 1, 2, 1, 1, 1, 2, 2, 2, 2, 1, 1})) {
        case 0: { nm = "push_back"; if (g.chance(1, 3000)) { size_t cnt = g.big(n > 600 ? 100 : 9000); TR("v%d push_back %zu elements", w, cnt); for (size_t q = 0; q < cnt; q++) { E e(O->esz, 0); uint64_t z = (ser + q) * 7; memcpy(&e[0], &z, std::min<size_t>(8, O->esz)); O->push_back(a.v, e.data()); mm->push_back(e); } break; } E e = gen_e(g, ser); TR("v%d push_back %s", w, pbt::show(e).c_str()); O->push_back(a.v, e.data()); mm->push_back(e); break; }
        case 1: { nm = "push_front"; E e = gen_e(g, ser); TR("v%d push_front %s", w, pbt::show(e).c_str()); O->push_front(a.v, e.data()); mm->insert(mm->begin(), e); break; }
        case 2: if (n) { nm = "pop_back"; TR("v%d pop_back", w); O->pop_back(a.v, &o[0]); CHECK(o == mm->back(), "pop_back gave %s, expected %s", pbt::show(o).c_str(), pbt::show(mm->back()).c_str()); mm->pop_back(); } break;
        case 3: if (n) { nm = "pop_front"; TR("v%d pop_front", w); O->pop_front(a.v, &o[0]); CHECK(o == mm->front(), "pop_front gave %s, expected %s", pbt::show(o).c_str(), pbt::show(mm->front()).c_str()); mm->erase(mm->begin()); } break;
        case 4: { nm = "reserve"; size_t want = g.range(0, 2 * cap0 + 4); TR("v%d reserve %zu", w, want); O->reserve(a.v, want); CHECK(O->cap(a.v) >= want, "capacity %zu after reserving %zu", O->cap(a.v), want); break; }
        case 5: { nm = "ensure"; size_t want = g.range(0, cap0 + 4); TR("v%d ensure %zu", w, want); O->ensure(a.v, want); CHECK(O->cap(a.v) >= n + want, "capacity %zu after ensuring %zu more than %zu", O->cap(a.v), want, n); break; }
        case 6: { nm = "reset"; TR("v%d reset", w); O->reset(a.v); mm->clear(); break; }
        case 7: { nm = "copy"; TR("v%d copy from v%d", w, 1 - w); O->copy(a.v, b.v); *mm = b.m; break; }
        case 8: { nm = "init_from"; TR("v%d init_from v%d", w, 1 - w); O->fini(a.v); O->init_from(a.v, b.v); *mm = b.m; cap0 = O->cap(a.v); break; }
        case 9: { nm = "append"; bool self = g.chance(1, 3) && n < 300; if (n + b.m.size() > 600 && (self || n + b.m.size() > 20000)) break; TR("v%d append %s", w, self ? "itself" : "the other"); O->append(a.v, self ? a.v : b.v); std::vector<E> t = self ? a.m : b.m; mm->insert(mm->end(), t.begin(), t.end()); break; }
        case 10: { nm = "swap"; TR("swap"); O->swap(x[0].v, x[1].v); std::swap(x[0].m, x[1].m); cap0 = O->cap(a.v); break; }
        case 11: { nm = "sort"; TR("v%d sort", w); O->sort(a.v); std::sort(mm->begin(), mm->end(), [](const E& p, const E& q) { return memcmp(p.data(), q.data(), p.size()) < 0; }); break; }
        case 12: { nm = "shuffle"; TR("v%d shuffle", w); O->shuffle(a.v); std::vector<E> got; O->foreach(a.v, collect, &got); auto s1 = got, s2 = *mm; std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end()); CHECK(s1 == s2, "shuffling changed the elements"); *mm = got; break; }
        case 13: { nm = "sample"; size_t kk = g.flip() ? g.range(0, b.m.size() + 2) : g.range(0, b.m.size() + 40); int r = O->sample(a.v, b.v, kk); TR("v%d sample %zu of %zu: %d", w, kk, b.m.size(), r); CHECK(!!r == (kk <= b.m.size()), "sampling %zu of %zu returned %d", kk, b.m.size(), r);
            if (r) { std::vector<E> got; O->foreach(a.v, collect, &got); CHECK(got.size() == kk, "%zu samples instead of %zu", got.size(), kk); auto s1 = got, s2 = b.m; std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end()); CHECK(std::includes(s2.begin(), s2.end(), s1.begin(), s1.end()), "the sample is not a selection of the source's elements"); *mm = got; } break; }
        case 14: { nm = "iteration"; std::vector<E> g1, g2; size_t n1 = O->foreach(a.v, collect, &g1), n2 = O->foreachi(a.v, collect, &g2); CHECK(g1 == *mm && n1 == n, "iteration yields %zu elements, expected %zu", g1.size(), n); CHECK(g2 == *mm && n2 == n, "indexed iteration yields %zu elements, expected %zu", g2.size(), n); break; }
        case 15: if (n) { nm = "accessors"; O->first(a.v, &o[0]); CHECK(o == mm->front(), "first element wrong"); O->last(a.v, &o[0]); CHECK(o == mm->back(), "last element wrong"); O->top(a.v, &o[0]); CHECK(o == mm->back(), "top element wrong"); O->rand_elem(a.v, &o[0]); CHECK(std::find(mm->begin(), mm->end(), o) != mm->end(), "random element is none of the vector's"); if (g.flip()) { O->pop(a.v); mm->pop_back(); } } break;
        case 16: if (O->scalar) { nm = "push of an int"; int i = (int)g.u(32); TR("v%d push int %d", w, i); if (g.flip()) { O->push_back_int(a.v, i); mm->push_back(ofint(i)); } else { O->push_front_int(a.v, i); mm->insert(mm->begin(), ofint(i)); } } break;
        case 17: if (n) { nm = "push of an own element"; size_t i = g.range(0, n - 1); E e = (*mm)[i]; bool fr = g.flip(); TR("v%d push_%s own element %zu", w, fr ? "front" : "back", i); if (fr) { O->push_front_self(a.v, i); mm->insert(mm->begin(), e); } else { O->push_back_self(a.v, i); mm->push_back(e); } } break;
        default: { nm = "ensure and get_next"; E e = gen_e(g, ser); TR("v%d next %s", w, pbt::show(e).c_str()); O->get_next(a.v, e.data()); mm->push_back(e); }
        }
        check(a, nm); check(b, nm);
        size_t cap1 = O->cap(a.v); CHECK(cap1 >= cap0 || nm[0] == 'i' || nm[0] == 's', "capacity shrank");
        if (cap1 > cap0 && strcmp(nm, "init_from") && strcmp(nm, "swap")) { grows++; const unsigned char* s = O->slots(a.v); for (size_t i = std::max(cap0, a.m.size()) * O->esz; i < cap1 * O->esz; i++) CHECK(s[i] == 0, "slot %zu exposed by growing from %zu to %zu is not zero", i / O->esz, cap0, cap1); }
    }
    c.nontrivial(ops >= 10 && grows > 0); c.label(pbt::fmt("elements of %zu bytes", O->esz).c_str());
    for (auto& y : x) { O->fini(y.v); CHECK(O->len(y.v) == 0, "length after fini"); free(y.v); }
}
TARGETF(uniform, 1, "shuffling and sampling with a good random source: every element reaches every position / is chosen equally often (20000 rounds, 7 sigma); non-trivial: always", pbt::ONCE) {
    O = vect_types[0]; vect_rnd_mode = 0; vect_rnd_state = g.u(); size_t n = 2 + g.range(0, 6), k = 1 + g.range(0, n - 2); void *v = O->mk(), *d = O->mk(); O->init(v, n); O->init(d, n); for (uint64_t i = 0; i < n; i++) O->push_back(v, &i);
    std::vector<std::vector<double>> pos(n, std::vector<double>(n)); std::vector<double> in(n), re(n); const int T = 20000;
    for (int t = 0; t < T; t++) { uint64_t e; O->reset(v); for (uint64_t i = 0; i < n; i++) O->push_back(v, &i); O->sample(d, v, k); for (size_t i = 0; i < k; i++) { O->elem(d, i, &e); CHECK(e < n, "foreign sample"); in[e]++; } O->rand_elem(v, &e); re[e]++; O->shuffle(v); for (size_t i = 0; i < n; i++) { O->elem(v, i, &e); pos[i][e]++; } }
    auto ok = [&](double x, double p) { return fabs(x - p * T) <= 7 * sqrt(p * (1 - p) * T) + 1; };
    for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < n; j++) CHECK(ok(pos[i][j], 1.0 / (double)n), "element %zu lands at position %zu in %.0f of %d shuffles of %zu", j, i, pos[i][j], T, n); CHECK(ok(in[i], (double)k / (double)n), "element %zu is in %.0f of %d samples of %zu out of %zu", i, in[i], T, k, n); CHECK(ok(re[i], 1.0 / (double)n), "element %zu is picked %.0f times of %d out of %zu", i, re[i], T, n); }
    c.nontrivial(true); O->fini(v); O->fini(d); free(v); free(d);
}
