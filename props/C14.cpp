//@ shim: q_shim.c q_mpmc.c q_ring.c
//@ quick: 24
//@ variant: plain 2
//@ aux: cosched.cpp
//@ cflags: -fsanitize-coverage=edge,trace-pc,trace-loads,trace-stores -O1
//@ wrap: sem_init sem_destroy sem_wait sem_trywait sem_post pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_wait pthread_cond_signal pthread_cond_broadcast sched_yield
//@ variant: tsan 1
// C14: queues between threads: generated deterministic schedules (plain build), real threads under TSan.
#include "pbt.h"
#include "q_shim.h"
#include "q_ring.h"
#include <errno.h>
#include <signal.h>
#include <pthread.h>
#include <sched.h>
#include <atomic>
typedef std::string E;
static E mk(size_t esz, uint64_t id) { E e(esz, 0); for (size_t i = 0; i < esz; i++) e[i] = (char)(i < 3 ? id >> (8 * i) : (id * 2654435761u >> (i % 24)) + i); return e; }
static long un(const E& e) { uint64_t id = 0; for (size_t i = 0; i < 3 && i < e.size(); i++) id |= (uint64_t)(uint8_t)e[i] << (8 * i); return mk(e.size(), id) == e ? (long)id : -1; }
struct Q { // any flavour; n elements at a time for the ring, else 1
    const qops* O = nullptr; void* q = nullptr; size_t cap = 0, esz = 8; bool ring = false; int mode = 0; const char* name = "ring"; bool spsc = false;
    // kind: 0 single, 1 bulk, 2 burst, 3 blocking
    unsigned enq(int kind, const long* id, unsigned n) {
        if (ring) { std::vector<void*> o(n); for (unsigned i = 0; i < n; i++) o[i] = (void*)(uintptr_t)(((uint64_t)id[i] << 8) | 0x5a); int r = kind == 0 ? rg_enq(q, mode, o[0]) : kind == 1 ? rg_enq_bulk(q, mode, o.data(), n) : rg_enq_burst(q, mode, o.data(), n); return r < 0 ? 0 : (unsigned)r; }
        E e = mk(esz, (uint64_t)id[0]); if (kind == 3) { O->enqw(q, e.data()); return 1; } return O->enq(q, e.data()) ? 1 : 0;
    }
    unsigned deq(int kind, long* id, unsigned n) {
        if (ring) { std::vector<void*> o(n, (void*)0); int r = kind == 0 ? rg_deq(q, mode, o.data()) : kind == 1 ? rg_deq_bulk(q, mode, o.data(), n) : rg_deq_burst(q, mode, o.data(), n); if (r < 0) r = 0; CHECK((unsigned)r <= n, "dequeue of %u returned %d", n, r); for (int i = 0; i < r; i++) { uintptr_t v = (uintptr_t)o[i]; id[i] = (v & 0xff) == 0x5a ? (long)(v >> 8) : -1; } return (unsigned)r; }
        E e(esz, 0); if (kind == 3) O->deqw(q, &e[0]); else if (!O->deq(q, &e[0])) return 0; id[0] = un(e); return 1;
    }
    void gen(pbt::Src& g, int flavour, unsigned& np, unsigned& nc) {
        np = 1 + (unsigned)g.range(0, 2); nc = 1 + (unsigned)g.range(0, 2); size_t n;
        if (flavour == 0) { std::vector<const qops*> v; for (int i = 0; i < q_nplain; i++) if (!strncmp(q_plain[i]->name, "spsc", 4) && q_plain[i]->fixed != 1) v.push_back(q_plain[i]); O = g.pick(v); np = nc = 1; n = O->fixed ? O->fixed : 2 + g.range(0, 8); spsc = true; }
        else if (flavour == 1) { O = q_mpmc[g.range(0, (uint64_t)q_nmpmc - 1)]; n = 1 + g.range(0, 7); }
        else if (flavour == 2) { O = q_sync[g.range(0, (uint64_t)q_nsync - 1)]; n = O->fixed; }
        else { ring = true; n = 2 + g.range(0, 15); int sp = np == 1 && g.flip(), sc = nc == 1 && g.flip(); mode = g.flip() ? 0 : np == 1 && nc == 1 && g.flip() ? 1 : 2; if (mode == 2) sp = sc = 0; unsigned p2 = 1; while (p2 < n) p2 *= 2; cap = p2 - 1; q = rg_new((unsigned)n, sp, sc); return; }
        name = O->name; esz = O->esz; q = O->mk(n); cap = O->cap(n);
    }
    int kind(pbt::Src& g) { return ring ? (int)g.range(0, 2) : !O->enq ? 3 : O->enqw && g.chance(1, 3) ? 3 : 0; }
    void fin() { if (ring) rg_del(q); else O->rm(q); }
};
struct Step { int kind; unsigned n; };
static std::vector<std::vector<Step>> progs(pbt::Src& g, Q& q, unsigned nth, unsigned total, std::vector<unsigned>& quota) {
    quota.assign(nth, total / nth); for (unsigned i = 0; i < total % nth; i++) quota[i]++; std::vector<std::vector<Step>> p(nth);
    for (unsigned t = 0; t < nth; t++) for (unsigned k = 0; k < quota[t];) { Step s; s.kind = q.kind(g); s.n = s.kind == 1 || s.kind == 2 ? 1 + (unsigned)g.range(0, std::min<size_t>(q.cap, quota[t] - k - 1 < 8 ? quota[t] - k - 1 : 8)) : 1; if (s.n > quota[t] - k) s.n = quota[t] - k; p[t].push_back(s); k += s.n; }
    return p;
}
#ifdef PBT_VARIANT_plain
#include "cosched.h"
struct Rec { int prod = -1; long es = -1, ee = -1, ds = -1, de = -1; int n = 0; };
struct Call { bool enq; unsigned n; long maxocc, minav; bool other; };
TARGET(schedules, 1, "1-3 producers and 1-3 consumers of one queue as coroutines under a generated deterministic schedule that switches between any two basic blocks or memory accesses of the queue code (and makes waits fail with EINTR); oracle: every accepted element delivered exactly once and intact, first-in first-out between non-overlapping calls, full and empty verdicts only when some instant of the call justifies them, no deadlock or livelock; non-trivial: >=2 switches inside queue code and an element delivered") {
    unsigned np, nc; Q q; int fl = (int)g.weighted({1, 3, 2, 3}); q.gen(g, fl, np, nc); unsigned total = std::max(np, nc) + (unsigned)g.range(0, 24); std::vector<unsigned> pq, cq; auto pp = progs(g, q, np, total, pq), cp = progs(g, q, nc, total, cq); sched::eintr_num = fl == 2 && g.flip() ? g.pick<int>({8, 40, 128}) : 0;
    TR("%s, capacity %zu, elements of %zu bytes, %u producers, %u consumers, %u elements, mode %d%s", q.name, q.cap, q.esz, np, nc, total, q.mode, sched::eintr_num ? ", signals" : "");
    std::vector<Rec> rec(total); long compE = 0, compD = 0, inE = 0, inD = 0; std::vector<Call*> calls; unsigned fails = 0;
    auto upd = [&] { for (Call* k : calls) { if (k->enq) { k->maxocc = std::max(k->maxocc, compE + inE - (long)k->n - compD); if (inD) k->other = true; } else { k->minav = std::min(k->minav, compE - compD - (inD - (long)k->n)); if (inE) k->other = true; } } };
    auto begin = [&](Call& k) { (k.enq ? inE : inD) += k.n; k.maxocc = -1; k.minav = 1 << 30; k.other = false; calls.push_back(&k); upd(); };
    auto end = [&](Call& k, unsigned r) { (k.enq ? inE : inD) -= k.n; calls.erase(std::find(calls.begin(), calls.end(), &k)); (k.enq ? compE : compD) += r; upd(); };
    bool mp = fl == 1; std::vector<std::function<void()>> fns; long nextid = 0;
    std::vector<long> first(np); for (unsigned p = 0; p < np; p++) { first[p] = nextid; nextid += pq[p]; }
    for (unsigned p = 0; p < np; p++) fns.push_back([&, p] { long id = first[p]; for (auto& s : pp[p]) for (unsigned left = s.n, kind = (unsigned)s.kind, tries = 0; left;) {
        unsigned n = kind == 1 || kind == 2 ? left : 1; std::vector<long> ids; for (unsigned i = 0; i < n; i++) ids.push_back(id + i); long es = sched::now; for (unsigned i = 0; i < n; i++) { rec[(size_t)(id + i)].prod = (int)p; rec[(size_t)(id + i)].es = es; rec[(size_t)(id + i)].n = (int)i; }
        Call k; k.enq = true; k.n = n; begin(k); unsigned r = q.enq((int)kind, ids.data(), n); end(k, r); CHECK(r <= n, "enqueue of %u returned %u", n, r); TR("[%ld] P%u enq kind %u of %u from %ld: %u", sched::now, p, kind, n, id, r);
        if (kind == 1) CHECK(r == 0 || r == n, "bulk enqueue of %u transferred %u", n, r);
        if (r < n && kind != 3 && !(mp && k.other)) { long fr = std::max(0l, (long)q.cap - k.maxocc); if (kind == 1) CHECK((long)n > fr, "bulk enqueue of %u was refused although at least %ld slots were free throughout", n, fr); else CHECK((long)r >= fr, "enqueue of %u took %u although at least %ld slots were free throughout", n, r, fr); }
        CHECK(compE - compD - inD <= (long)q.cap, "the queue holds %ld elements, more than its capacity %zu", compE - compD - inD, q.cap);
        for (unsigned i = 0; i < r; i++) rec[(size_t)(id + i)].ee = sched::now; id += r; left -= r; if (!r) { fails++; sched::spin(); if (++tries > 1 && kind) kind = q.ring ? 0 : kind; }
        if (q.O && q.O->size && mp) CHECK(q.O->size(q.q) <= q.cap, "size %zu above the capacity %zu", q.O->size(q.q), q.cap); } });
    std::vector<std::vector<long>> got(nc);
    for (unsigned t = 0; t < nc; t++) fns.push_back([&, t] { for (auto& s : cp[t]) for (unsigned left = s.n, kind = (unsigned)s.kind, tries = 0; left;) {
        unsigned n = kind == 1 || kind == 2 ? left : 1; std::vector<long> ids(n, -2); long ds = sched::now; Call k; k.enq = false; k.n = n; begin(k); unsigned r = q.deq((int)kind, ids.data(), n); end(k, r); TR("[%ld] C%u deq kind %u of %u: %u (%ld..)", sched::now, t, kind, n, r, r ? ids[0] : -1);
        if (kind == 1) CHECK(r == 0 || r == n, "bulk dequeue of %u transferred %u", n, r);
        if (r < n && kind != 3 && !(mp && k.other)) { long av = std::max(0l, k.minav); if (kind == 1) CHECK((long)n > av, "bulk dequeue of %u was refused although at least %ld elements were there throughout", n, av); else CHECK((long)r >= av, "dequeue of %u gave %u although at least %ld elements were there throughout", n, r, av); }
        for (unsigned i = 0; i < r; i++) { CHECK(ids[i] >= 0 && ids[i] < (long)total && rec[(size_t)ids[i]].prod >= 0, "consumer %u was given an element nobody enqueued or an incomplete one", t); Rec& x = rec[(size_t)ids[i]]; CHECK(x.de < 0, "element %ld was delivered twice", ids[i]); x.ds = ds; x.de = sched::now; got[t].push_back(ids[i]); }
        left -= r; if (!r) { fails++; sched::spin(); if (++tries > 1 && kind) kind = q.ring ? 0 : kind; } } });
    sched::run(g, fns, 400000);
    for (size_t i = 0; i < rec.size(); i++) CHECK(rec[i].de >= 0, "element %zu was lost", i);
    for (auto& v : got) { std::map<int, long> last; for (long id : v) { auto it = last.find(rec[(size_t)id].prod); if (it != last.end()) CHECK(it->second < id, "a consumer got producer %d's element %ld after %ld", it->first, id, it->second); last[rec[(size_t)id].prod] = id; } }
    for (size_t a = 0; a < rec.size(); a++) for (size_t b = 0; b < rec.size(); b++) if (rec[a].ee < rec[b].es && rec[b].de < rec[a].ds) FAIL("element %zu was enqueued before %zu but dequeued after it", a, b);
    if (q.ring) CHECK(rg_empty(q.q) && rg_count(q.q) == 0, "the queue is not empty at the end"); else if (q.O->empty) CHECK(q.O->empty(q.q) && q.O->size(q.q) == 0, "the queue is not empty at the end");
    q.fin(); c.nontrivial(sched::forced >= 2 && total > 1); c.label(q.name); if (fails) c.label("full or empty met"); if (sched::eintr_num) c.label("interrupted waits");
}
#else
struct Th { Q* q; int id; std::vector<Step>* p; long first; std::vector<long> got; pthread_barrier_t* bar; unsigned yield; };
static void* prod(void* a) { Th* t = (Th*)a; pthread_barrier_wait(t->bar); long id = t->first; unsigned z = t->yield; for (auto& s : *t->p) for (unsigned left = s.n, kind = (unsigned)s.kind, tries = 0; left;) { unsigned n = kind == 1 || kind == 2 ? left : 1; std::vector<long> ids; for (unsigned i = 0; i < n; i++) ids.push_back(id + i); unsigned r = t->q->enq((int)kind, ids.data(), n); id += r; left -= r; if (!r) { sched_yield(); if (++tries > 1) kind = t->q->ring ? 0 : kind; } z = z * 1103515245 + 12345; if ((z >> 16) % 8 < t->yield % 4) sched_yield(); } return 0; }
static void* cons(void* a) { Th* t = (Th*)a; pthread_barrier_wait(t->bar); unsigned z = t->yield; for (auto& s : *t->p) for (unsigned left = s.n, kind = (unsigned)s.kind, tries = 0; left;) { unsigned n = kind == 1 || kind == 2 ? left : 1; std::vector<long> ids(n, -2); unsigned r = t->q->deq((int)kind, ids.data(), n); for (unsigned i = 0; i < r; i++) t->got.push_back(ids[i]); left -= r; if (!r) { sched_yield(); if (++tries > 1) kind = t->q->ring ? 0 : kind; } z = z * 1103515245 + 12345; if ((z >> 16) % 8 < t->yield % 4) sched_yield(); } return 0; }
static void onsig(int) {}
TARGETF(threads, 1, "1-3 real producer and 1-3 consumer threads under ThreadSanitizer, with yields and, for the blocking queue, signals interrupting the waits; exactly-once, completeness and per-producer order checked; non-trivial: >=100 elements", pbt::NONDET) {
    unsigned np, nc; Q q; int fl = (int)g.weighted({1, 2, 2, 2}); q.gen(g, fl, np, nc); unsigned total = 50 + (unsigned)g.range(0, 600); std::vector<unsigned> pq, cq; auto pp = progs(g, q, np, total, pq), cp = progs(g, q, nc, total, cq); bool sig = fl == 2 && g.flip();
    TR("%s, capacity %zu, elements of %zu bytes, %u producers, %u consumers, %u elements%s", q.name, q.cap, q.esz, np, nc, total, sig ? ", signals" : "");
    if (sig) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sigaction(SIGUSR1, &sa, 0); }
    pthread_barrier_t bar; pthread_barrier_init(&bar, 0, np + nc); std::vector<Th> th(np + nc); std::vector<pthread_t> id(np + nc); long first = 0; unsigned y = (unsigned)g.raw(2);
    for (unsigned i = 0; i < np + nc; i++) { bool P = i < np; th[i] = Th{&q, (int)i, P ? &pp[i] : &cp[i - np], P ? first : 0, {}, &bar, y + i * 77}; if (P) first += pq[i]; }
    for (unsigned i = 0; i < np + nc; i++) if (pthread_create(&id[i], 0, i < np ? prod : cons, &th[i])) pbt::harness_error("pthread_create");
    if (sig) for (int k = 0; k < 300; k++) { pthread_kill(id[(size_t)k % id.size()], SIGUSR1); if (k % 8 == 0) sched_yield(); }
    for (auto& t : id) pthread_join(t, 0);
    std::vector<int> seen(total); std::vector<long> owner(total); { long k = 0; for (unsigned p = 0; p < np; p++) for (unsigned i = 0; i < pq[p]; i++) owner[(size_t)k++] = p; }
    for (unsigned i = np; i < np + nc; i++) { std::vector<long> last(np, -1); for (long v : th[i].got) { CHECK(v >= 0 && v < (long)total, "a consumer was given an element nobody enqueued or an incomplete one"); CHECK(!seen[(size_t)v]++, "element %ld was delivered twice", v); long& l = last[(size_t)owner[(size_t)v]]; CHECK(l < v, "a consumer got producer %ld's element %ld after %ld", owner[(size_t)v], v, l); l = v; } }
    for (unsigned i = 0; i < total; i++) CHECK(seen[i], "element %u was lost", i);
    pthread_barrier_destroy(&bar); q.fin(); c.nontrivial(total >= 100); c.label(q.name); if (sig) c.label("signals");
}
#endif
