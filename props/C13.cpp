//@ shim: q_shim.c q_mpmc.c q_ring.c
//@ aux: q_long.c@-O2,-fno-sanitize=all
//@ hang: 120
//@ quick: 15
// C13: bounded queues used by one thread vs std::deque.
#include "pbt.h"
#include "q_shim.h"
#include "q_ring.h"
#include <errno.h>
typedef std::string E; typedef std::deque<E> D;
static void hist(pbt::Src& g, pbt::Ctx& c, const qops* O) {
    c.leakcheck = true; size_t n = O->fixed ? O->fixed : g.flip() ? g.range(1, 9) : g.pick<size_t>({1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65}); size_t cap = O->cap(n); void* q = O->mk(n); D m; uint64_t ser = 0, moved = 0; bool wasfull = false;
    TR("%s queue of size %zu, elements of %zu bytes", O->name, n, O->esz); if (O->capq) CHECK(O->capq(q) == cap, "capacity %zu, expected %zu for size %zu", O->capq(q), cap, n);
    auto mk = [&] { E e(O->esz, 0); uint64_t s = ++ser; for (size_t i = 0; i < e.size(); i++) e[i] = (char)(i < 8 ? s >> (8 * i) : s * 7 + i); return e; };
    auto chk = [&](const char* w) { if (!O->size) return; CHECK(O->size(q) == m.size(), "size %zu, expected %zu after %s", O->size(q), m.size(), w); CHECK(!!O->full(q) == (m.size() == cap), "full verdict %d with %zu of %zu after %s", O->full(q), m.size(), cap, w); CHECK(!!O->empty(q) == m.empty(), "empty verdict %d with %zu elements after %s", O->empty(q), m.size(), w); };
    auto enq = [&] { E e = mk(); if (O->enqw && (!O->enq || g.chance(1, 4))) { if (m.size() == cap) return; O->enqw(q, e.data()); m.push_back(e); } else { int r = O->enq(q, e.data()); TR("enq: %d (%zu of %zu)", r, m.size(), cap); CHECK(!!r == (m.size() < cap), "enqueue returned %d with %zu of %zu held", r, m.size(), cap); if (r) m.push_back(e); } wasfull = wasfull || m.size() == cap; chk("enqueue"); };
    auto deq = [&] { E e(O->esz, (char)0xEE), e0 = e; if (O->deqw && (!O->deq || g.chance(1, 4))) { if (m.empty()) return; O->deqw(q, &e[0]); } else { int r = O->deq(q, &e[0]); TR("deq: %d (%zu)", r, m.size()); CHECK(!!r == !m.empty(), "dequeue returned %d with %zu held", r, m.size()); if (!r) { CHECK(e == e0, "a refused dequeue changed the caller's element"); chk("refused dequeue"); return; } } CHECK(e == m.front(), "dequeue gave %s, expected %s", pbt::show(e).c_str(), pbt::show(m.front()).c_str()); m.pop_front(); moved++; chk("dequeue"); };
    chk("creation"); size_t ops = 2 + g.size(60);
    for (size_t s = 0; s < ops; s++) switch (g.weighted({5, 5, 2, 2, 1, 1})) {
        case 0: enq(); break;
        case 1: deq(); break;
        case 2: for (size_t k = g.range(0, 2 * cap + 2); k--;) enq(); break;
        case 3: for (size_t k = g.range(0, 2 * cap + 2); k--;) deq(); break;
        case 4: { size_t k = g.range(0, 3 * n); TR("pump %zu", k); while (k--) { enq(); deq(); } break; }
        default: if (O->reset && g.chance(1, 3)) { TR("reset"); O->reset(q); m.clear(); chk("reset"); }
        }
    while (!m.empty()) deq();
    c.nontrivial(cap && wasfull && moved > cap + 1); c.label(O->name); O->rm(q);
}
#define RULE "operation history compared with a deque after each operation; non-trivial: the queue was full at some time and its indices wrapped around"
TARGET(plain, 2, RULE) { hist(g, c, q_plain[g.range(0, (uint64_t)q_nplain - 1)]); }
TARGET(mpmc, 1, RULE) { hist(g, c, q_mpmc[g.range(0, (uint64_t)q_nmpmc - 1)]); }
TARGET(sync, 1, RULE) { hist(g, c, q_sync[g.range(0, (uint64_t)q_nsync - 1)]); }
static void ringhist(pbt::Src& g, pbt::Ctx& c, void* r, unsigned n, int sp, int sc, size_t head, size_t maxops) {
    unsigned p2 = 1; while (p2 < n) p2 *= 2; size_t cap = p2 - 1; uintptr_t ser = 0; std::deque<uintptr_t> m; bool wasfull = false, across = false;
    TR("ring of %u (%zu usable), sp=%d sc=%d", n, cap, sp, sc);
    auto chk = [&](const char* w) { CHECK(rg_count(r) == m.size() && rg_free(r) == cap - m.size(), "count %u, free %u, expected %zu and %zu after %s", rg_count(r), rg_free(r), m.size(), cap - m.size(), w); CHECK(!!rg_full(r) == (m.size() == cap) && !!rg_empty(r) == m.empty(), "full=%d empty=%d with %zu of %zu after %s", rg_full(r), rg_empty(r), m.size(), cap, w); };
    chk("creation"); size_t ops = maxops > 100 ? maxops : 2 + g.size(maxops);
    for (size_t s = 0; s < ops; s++) {
        int mode = (int)g.range(0, 2), kind = (int)g.weighted({2, 2, 2}); bool in = g.flip(); size_t avail = in ? cap - m.size() : m.size(); unsigned k = kind == 0 ? 1 : (unsigned)(g.flip() ? g.range(0, cap + 2) : g.range(avail ? avail - 1 : 0, avail + 1)); const char* w = in ? kind == 0 ? "enqueue" : kind == 1 ? "bulk enqueue" : "burst enqueue" : kind == 0 ? "dequeue" : kind == 1 ? "bulk dequeue" : "burst dequeue";
        Exact a(k * sizeof(void*)); void** o = (void**)a.p; if (in) for (unsigned i = 0; i < k; i++) o[i] = (void*)(++ser * 8 + 1); std::vector<void*> was(o, o + k); int ret;
        if (in) ret = kind == 0 ? rg_enq(r, mode, o[0]) : kind == 1 ? rg_enq_bulk(r, mode, o, k) : rg_enq_burst(r, mode, o, k);
        else ret = kind == 0 ? rg_deq(r, mode, o) : kind == 1 ? rg_deq_bulk(r, mode, o, k) : rg_deq_burst(r, mode, o, k);
        size_t done = kind == 2 ? std::min<size_t>(k, avail) : k <= avail ? k : 0; TR("%s(mode %d) of %u: %d (%zu held)", w, mode, k, ret, m.size());
        if (kind < 2 && k > avail) CHECK(ret == (in ? -ENOBUFS : -ENOENT), "%s of %u with %zu available returned %d", w, k, avail, ret);
        else CHECK(ret == (int)done, "%s of %u with %zu available returned %d, expected %zu", w, k, avail, ret, done);
        if (in) { for (size_t i = 0; i < done; i++) m.push_back((uintptr_t)o[i]); CHECK(std::equal(was.begin(), was.end(), o), "%s changed the caller's table", w); if (done > 1 && (head + m.size()) % p2 < done - 1) across = true; }
        else { for (size_t i = 0; i < done; i++) { CHECK((uintptr_t)o[i] == m.front(), "%s: element %zu is wrong", w, i); m.pop_front(); head++; } for (size_t i = done; i < k; i++) CHECK(o[i] == was[i], "%s wrote entry %zu of the table though it delivered %zu", w, i, done); }
        wasfull = wasfull || m.size() == cap; chk(w);
        if (g.chance(1, 20)) { size_t z = 1 + g.range(0, 200); Exact b(z, 1); rg_dump(r, b.c(), z); CHECK(memchr(b.p, 0, z), "the description is not terminated"); }
    }
    while (!m.empty()) { void* o; CHECK(rg_deq(r, (int)g.range(0, 2), &o) == 1 && (uintptr_t)o == m.front(), "draining gave the wrong element"); m.pop_front(); }
    chk("draining"); c.nontrivial(cap && wasfull && across);
}
TARGET(ring, 2, "ring buffer: single, bulk and burst transfers through the single-, multi- and default-mode functions; non-trivial: full at some time, indices wrapped, and a bulk or burst transfer across the wrap point") {
    c.leakcheck = true; unsigned n = (unsigned)(g.flip() ? g.range(1, 9) : g.pick<unsigned>({1, 2, 4, 8, 16, 32, 64, 3, 5, 17, 33, 128})), p2 = 1; while (p2 < n) p2 *= 2; size_t cap = p2 - 1; int sp = g.flip(), sc = g.flip(); void *r, *mem = nullptr;
    if (g.chance(1, 3)) { size_t need = rg_memsize(p2), have = need + g.range(0, 3) * 64, left = have; if (posix_memalign(&mem, 64, have)) abort(); memset(mem, 0xA7, have); size_t less = need - 1; CHECK(!rg_from(n, sp, sc, mem, &less), "a ring was created in a memory area too small for it"); CHECK(less == need - 1, "a refused creation changed the size"); r = rg_from(n, sp, sc, mem, &left); CHECK(r, "creation in a sufficient area failed"); CHECK(left == have - need, "creation reports %zu bytes left of %zu, needing %zu", left, have, need); }
    else r = rg_new(n, sp, sc);
    ringhist(g, c, r, n, sp, sc, 0, 60); if (mem) free(mem); else rg_del(r);
}
TARGETF(ring_wrap, 1, "a ring whose running positions have been taken to just below 2^32 by real transfers, then an operation history across the wrap; non-trivial: as for ring", pbt::ONCE) {
    c.leakcheck = true; unsigned n = g.pick<unsigned>({16, 32, 64, 128}); int sp = g.flip(), sc = g.flip(); void* r = rg_new(n, sp, sc); uint64_t total = (1ull << 32) - 1 - g.range(0, n); TR("%llu elements pass through a ring of %u (sp=%d sc=%d)", (unsigned long long)total, n, sp, sc);
    uint64_t done = rgl_pump(r, n - 1, total); CHECK(done == total, "the transfer after %llu elements went wrong", (unsigned long long)done);
    ringhist(g, c, r, n, sp, sc, (size_t)total, 400); rg_del(r);
}
// big queues filled to the brim, and small ones that many elements pass through
TARGET(large, 1, "a queue of 1000 to 2^19 slots filled to its capacity and emptied, from a generated start position; non-trivial: always") {
    c.leakcheck = true; size_t n = (1ull << g.range(10, 19)) + g.irange(-3, 3); if (g.chance(2, 3)) n = (size_t)g.pick<int>({1000, 1024, 4096, 5000, 32767, 32768, 65535, 65536, 65537, 131072, 131073}); c.nontrivial(true); int k = (int)g.range(0, 3);
    if (k == 3) { int sp = g.flip(), sc = g.flip(); void* r = rg_new((unsigned)n, sp, sc); CHECK(r, "no ring of %zu", n); size_t p2 = 1; while (p2 < n) p2 *= 2; size_t cap = p2 - 1, off = g.range(0, cap); TR("ring of %zu, from position %zu", n, off); void* o;
        CHECK(rgl_pump(r, (unsigned)std::min<size_t>(cap, 1000), off) == off, "passing %zu elements through", off); for (size_t i = 0; i < cap; i++) if (rg_enq(r, 0, (void*)(i * 8 + 1)) < 0) FAIL("full after %zu of %zu", i, cap);
        CHECK(rg_full(r) && rg_count(r) == cap && rg_free(r) == 0 && rg_enq(r, 0, (void*)1) == -ENOBUFS, "with all %zu slots used: count %u free %u", cap, rg_count(r), rg_free(r)); for (size_t i = 0; i < cap; i++) { o = 0; CHECK(rg_deq(r, 0, &o) >= 0 && o == (void*)(i * 8 + 1), "element %zu of %zu", i, cap); }
        CHECK(rg_empty(r) && rg_count(r) == 0 && rg_free(r) == cap, "not empty at the end"); c.label("ring"); rg_del(r); return; }
    const qops* O = k == 0 ? q_plain[g.range(0, (uint64_t)q_nplain - 1)] : k == 1 ? q_mpmc[g.range(0, (uint64_t)q_nmpmc - 1)] : q_sync[g.range(0, (uint64_t)q_nsync - 1)]; if (O->fixed) n = O->fixed; if (n > 70000 && O->esz > 16) n = 65537; size_t cap = O->cap(n), off = g.range(0, cap); if (!cap) { c.discard = true; return; } void* q = O->mk(n); CHECK(q, "no queue of %zu", n); if (O->capq) CHECK(O->capq(q) == cap, "capacity %zu, expected %zu", O->capq(q), cap);
    TR("%s queue of size %zu, from position %zu", O->name, n, off); c.label(O->name); E e(O->esz, 0), r(O->esz, 0); auto val = [&](uint64_t i) -> E& { for (size_t b = 0; b < e.size(); b++) e[b] = (char)(b < 8 ? i >> (8 * b) : i * 7 + b); return e; };
    auto put = [&](uint64_t i) { val(i); if (O->enq) return O->enq(q, e.data()); O->enqw(q, e.data()); return 1; }; auto get = [&](uint64_t i) { int z = 1; if (O->deq) z = O->deq(q, &r[0]); else O->deqw(q, &r[0]); return z && r == val(i); };
    if (O->enq || O->enqw) { for (size_t i = 0; i < off && cap; i++) CHECK(put(i) && get(i), "element %zu did not pass", i); for (size_t i = 0; i < cap; i++) if (!put(i)) FAIL("full at %zu of %zu", i, cap); if (O->enq) CHECK(!put(77), "accepted more than %zu", cap); if (O->size) CHECK(O->size(q) == cap && O->full(q) && !O->empty(q), "size %zu of %zu", O->size(q), cap);
        for (size_t i = 0; i < cap; i++) CHECK(get(i), "element %zu of %zu is wrong", i, cap); if (O->deq) CHECK(!O->deq(q, &r[0]), "delivered more than was put in"); if (O->size) CHECK(O->size(q) == 0 && !O->full(q) && O->empty(q), "size %zu at the end", O->size(q)); }
    O->rm(q);
}
TARGET(marathon, 1, "140000 elements and more pass through a queue of a few slots at a generated occupancy; non-trivial: capacity at least 1") {
    c.leakcheck = true; int k = (int)g.range(0, 2); const qops* O = k == 0 ? q_plain[g.range(0, (uint64_t)q_nplain - 1)] : k == 1 ? q_mpmc[g.range(0, (uint64_t)q_nmpmc - 1)] : q_sync[g.range(0, (uint64_t)q_nsync - 1)]; size_t n = O->fixed ? O->fixed : g.range(1, 4), cap = O->cap(n); if (!cap || !(O->enq || O->enqw)) { c.discard = true; return; } void* q = O->mk(n);
    size_t lvl = g.range(1, cap), total = g.range(66000, 70000) * (size_t)g.range(1, 4); TR("%zu elements through a %s queue of size %zu, up to %zu at a time", total, O->name, n, lvl); c.label(O->name); c.nontrivial(true); E e(O->esz, 0), r(O->esz, 0); auto val = [&](uint64_t i) -> E& { for (size_t b = 0; b < e.size(); b++) e[b] = (char)(b < 8 ? i >> (8 * b) : i * 7 + b); return e; };
    size_t in = 0, out = 0; while (out < total) { while (in < total && in - out < lvl) { val(in); if (O->enq) CHECK(O->enq(q, e.data()), "full at %zu after %zu", in - out, in); else O->enqw(q, e.data()); in++; } size_t down = in == total ? total : in - (in % lvl == 0 ? 0 : 1); if (down <= out) down = out + 1;
        while (out < down && out < in) { int z = 1; if (O->deq) z = O->deq(q, &r[0]); else O->deqw(q, &r[0]); CHECK(z && r == val(out), "element %zu is wrong", out); out++; } }
    if (O->deq) CHECK(!O->deq(q, &r[0]), "not empty at the end"); O->rm(q);
}
