//@ src: src/hashtable/hashtab.c src/hashtable/hashtab_iter.c src/memmgr.c src/posix/cmutex.c src/error.c
//@ quick: 24
//@ wrap: malloc calloc realloc strdup posix_memalign aligned_alloc
//@ variant: asan 2
//@ variant: tsan 1
// C03: lock balance, failure atomicity, threads.
#include "ht_common.h"
#include <pthread.h>
#include <sched.h>
#include <atomic>
#include "oom.h"
#include <sys/wait.h>
#include <unistd.h>
#ifndef PBT_VARIANT_tsan
struct MmCtx { long allocs = 0, frees = 0; void* last = nullptr; bool deny = false; };
static void* mm_a(void* x, size_t n) { MmCtx* m = (MmCtx*)x; if (m->deny) return nullptr; m->allocs++; return malloc(n); }
static void mm_f(void* x, void* p) { MmCtx* m = (MmCtx*)x; m->frees++; m->last = p; free(p); }
TARGET(managers, 0.3, "memory managers of every kind (own functions with and without a way to free, malloc, malloc-or-exit): every request goes to that manager's functions with its context, blocks hold their bytes, freeing nothing is harmless, and without memory malloc gives none while malloc-or-exit ends the process with status 1 and a message; non-trivial: >=3 blocks") {
    c.leakcheck = true; MmCtx x[2]; memmgr m[4]; memset(m, 0x5a, sizeof m); CHECK(memmgr_init(&m[0], mm_a, mm_f, &x[0]) == &m[0] && memmgr_init(&m[1], mm_a, nullptr, &x[1]) == &m[1] && memmgr_init_default(&m[2]) == &m[2] && memmgr_init_xmalloc(&m[3]) == &m[3], "a constructor returned another pointer");
    CHECK(!memmgr_init(nullptr, mm_a, mm_f, nullptr) && !memmgr_init_default(nullptr) && !memmgr_init_xmalloc(nullptr), "a manager was made of nothing");
    struct Bl { int k; uint8_t* p; size_t n; uint8_t v; }; std::vector<Bl> bl; size_t total = 0; long na[2] = {0, 0}, nf = 0;
    for (int i = 0, ops = 1 + (int)g.range(0, 30); i < ops; i++) {
        int k = (int)g.range(0, 3); CHECK(memmgr_valid_p(&m[k]), "manager %d is not valid", k);
        if (g.chance(2, 5) && bl.size()) { size_t j = g.range(0, bl.size() - 1); Bl b = bl[j]; for (size_t q = 0; q < b.n; q++) CHECK(b.p[q] == b.v, "a block changed"); memmgr_free(&m[b.k], b.p); if (b.k == 0) { nf++; CHECK(x[0].last == b.p, "another block was freed"); } if (b.k == 1) free(b.p); bl.erase(bl.begin() + (long)j); }
        else if (g.chance(1, 10)) { if (k > 1) memmgr_free(&m[k], (void*)nullptr); }
        else if (g.chance(1, 10)) { if (k < 2) { x[k].deny = true; CHECK(!memmgr_alloc(&m[k], 10), "a refused request gave memory"); x[k].deny = false; } else if (k == 2) { void* p; { Oom o(0); p = memmgr_alloc(&m[2], 10); } CHECK(oom_hit ? !p : !!p, "malloc's failure was hidden"); free(p); } }
        else { size_t n = g.pick<size_t>({1, 2, 8, 16, 100, 4096, 70000}) + g.range(0, 9); uint8_t* p = (uint8_t*)memmgr_alloc(&m[k], n); CHECK(p, "no memory for %zu bytes", n); uint8_t v = (uint8_t)g.u(8); memset(p, v, n); if (k < 2) na[k]++; total++; bl.push_back({k, p, n, v}); }
        CHECK(x[0].allocs == na[0] && x[1].allocs == na[1] && x[0].frees == nf && x[1].frees == 0, "requests went to another manager");
    }
    if (g.chance(1, 20)) { // malloc-or-exit
        int fd[2]; if (pipe(fd)) pbt::harness_error("pipe"); size_t n = 1 + g.range(0, 100000); fflush(nullptr); pid_t p = fork();
        if (p == 0) { on_exit([](int st, void*) { fflush(nullptr); _exit(st); }, nullptr); dup2(fd[1], 2); close(fd[0]); void* q; { Oom o(0, n); q = memmgr_alloc(&m[3], n); } _exit(q ? 77 : 78); }
        close(fd[1]); std::string msg; char b[512]; for (ssize_t r; (r = read(fd[0], b, sizeof b)) > 0;) msg.append(b, (size_t)r); close(fd[0]); int st; waitpid(p, &st, 0);
        CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 1, "without memory malloc-or-exit ended with %#x", st); CHECK(msg.find(std::to_string(n)) != std::string::npos && msg.find(strerror(ENOMEM)) != std::string::npos, "it said %s", pbt::show(msg).c_str()); c.label("malloc-or-exit without memory");
    }
    for (auto& b : bl) { memmgr_free(&m[b.k], b.p); if (b.k == 1) free(b.p); }
    c.nontrivial(total >= 3);
}
TARGET(locks_and_failures, 4, "operation history with an instrumented lock policy (balance checked after every call; re-acquiring a held lock is the deadlock) and allocation failures injected at generated points; contents compared with a map after each failure; non-trivial: a failed allocation or a duplicate, and >=3 items") {
    ht::Run r(g, c, true, true);
    c.leakcheck = true;
    if (!r.create()) { c.label("creation failed cleanly"); c.nontrivial(); return; }
    auto keys = ht::gen_keys(g); size_t n = 3 + g.size(150);
    for (size_t i = 0; i < n; i++) { int f0 = r.nfail; r.step(keys, false); if (r.nfail > f0) { r.check_all("after a failed allocation"); c.label("allocation failed"); } }
    c.nontrivial((r.nfail || r.dups) && r.maxlive >= 3);
    if (r.grew) c.label("grew"); if (r.dups) c.label("duplicate insert"); if (r.iters) c.label("iterated");
    r.finish();
}
#endif

// threads: real mutexes
struct Shared { hash_table_t t; pthread_barrier_t bar; unsigned nth; };
static std::atomic<long> g_dtor;
struct TE { uint64_t key; int owner; };
static uint32_t t_hash(const void* p) { uint64_t k = ((const TE*)p)->key; return (uint32_t)(k * 0x9e3779b1u); }
static uint32_t t_hash2(const void* p) { return (uint32_t)((const TE*)p)->key & 7; }
static int t_cmp(const void* a, const void* b) { uint64_t x = ((const TE*)a)->key, y = ((const TE*)b)->key; return x < y ? -1 : x > y; }
static void t_dtor(void* p) { g_dtor++; delete (TE*)p; }
struct Th { Shared* s; int id; std::vector<uint8_t> prog; std::map<uint64_t, bool> own; long shared_ins[8], shared_del[8], inserted; unsigned nkeys; };
static void* t_main(void* a) {
    Th* th = (Th*)a; hash_table_t t = th->s->t; pthread_barrier_wait(&th->s->bar);
    for (size_t i = 0; i + 1 < th->prog.size(); i += 2) {
        unsigned op = th->prog[i] % 8, kk = th->prog[i + 1]; if (th->prog[i] & 0x80) sched_yield();
        uint64_t key = 1000 * (th->id + 1) + kk % th->nkeys; TE probe{key, th->id};
        switch (op) {
        case 0: case 1: { TE* e = new TE{key, th->id}; int r = hash_table_insert(t, e); bool had = th->own[key]; if (r == 0) th->inserted++; else delete e; CHECK((r == 0) == !had, "thread %d: insert of its own key %llu returned %d", th->id, (unsigned long long)key, r); th->own[key] = true; break; }
        case 2: { int r = hash_table_remove(t, &probe, 0); bool had = th->own[key]; CHECK((r == 0) == had, "thread %d: remove of its own key %llu returned %d, present %d", th->id, (unsigned long long)key, r, had); th->own[key] = false; break; }
        case 3: { void* o = 0; int r = hash_table_lookup(t, &probe, &o); bool had = th->own[key]; CHECK((r == 1) == had, "thread %d: lookup of its own key %llu = %d, present %d", th->id, (unsigned long long)key, r, had); break; }
        case 4: { TE* e = new TE{key, th->id}; bool had = th->own[key]; int r = hash_table_replace(t, e); CHECK(r == 0, "thread %d: replace returned %d", th->id, r); if (!had) th->inserted++; th->own[key] = true; break; }
        case 5: { unsigned sk = kk % 8; TE* e = new TE{sk, th->id}; int r = hash_table_insert(t, e); CHECK(r == 0 || r == -EEXIST, "insert of a shared key returned %d", r); if (r == 0) { th->shared_ins[sk]++; th->inserted++; } else delete e; break; }
        case 6: { unsigned sk = kk % 8; TE p{sk, 0}; int r = hash_table_remove(t, &p, 0); CHECK(r == 0 || r == -ENOENT, "remove of a shared key returned %d", r); if (r == 0) th->shared_del[sk]++; break; }
        default: { hash_table_stat st; hash_table_stats(t, &st); CHECK(st.size, "stats"); break; }
        }
    }
    return 0;
}
TARGETF(threads, 2, "2-6 threads run generated programs of insert/replace/remove/lookup on own and shared keys of one table under the mutex policy, growing from 2 buckets; each thread's own keys behave as its private map, shared keys balance, final contents and counts agree; non-trivial: >=2 threads inserted and the table grew", pbt::NONDET) {
    ht::rnd_state = (uint32_t)g.range(0, 0xffffffffu);
    unsigned nt = 2 + (unsigned)g.range(0, 4); hash_table_policy p; memset(&p, 0, sizeof p); bool h2 = g.chance(1, 4);
    p.hash = h2 ? t_hash2 : t_hash; p.cmp = t_cmp; p.dtor = t_dtor; p.fillmax = g.pick<size_t>({0, 10, 50}); p.logsize = g.pick<size_t>({1, 2, 4}); memmgr_init_default(&p.mem); p.lock = Mutex_locker;
    Shared s; s.nth = nt; CHECK(hash_table_new(&s.t, &p) == 0, "new"); pthread_barrier_init(&s.bar, 0, nt); g_dtor = 0;
    std::vector<Th> th(nt); std::vector<pthread_t> id(nt); size_t plen = 20 + g.range(0, 400); unsigned nk = 1 + (unsigned)g.range(0, 60);
    for (unsigned i = 0; i < nt; i++) { th[i].s = &s; th[i].id = (int)i; th[i].nkeys = nk; th[i].inserted = 0; memset(th[i].shared_ins, 0, sizeof th[i].shared_ins); memset(th[i].shared_del, 0, sizeof th[i].shared_del); std::string b = g.bytes(plen * 2); th[i].prog.assign(b.begin(), b.end()); }
    TR("%u threads, %zu operations each, %u own keys, fillmax %zu, logsize %zu", nt, plen, nk, p.fillmax, p.logsize);
    for (unsigned i = 0; i < nt; i++) if (pthread_create(&id[i], 0, t_main, &th[i])) pbt::harness_error("pthread_create");
    for (unsigned i = 0; i < nt; i++) pthread_join(id[i], 0);
    size_t want = 0; long ins = 0, active = 0;
    for (auto& x : th) { ins += x.inserted; active += x.inserted > 0; for (auto& k : x.own) { TE q{k.first, 0}; int r = hash_table_lookup(s.t, &q, 0); CHECK((r == 1) == k.second, "at the end key %llu of thread %d: lookup %d, present %d", (unsigned long long)k.first, x.id, r, k.second); want += k.second; } }
    for (int k = 0; k < 8; k++) { long d = 0; for (auto& x : th) d += x.shared_ins[k] - x.shared_del[k]; TE q{(uint64_t)k, 0}; int r = hash_table_lookup(s.t, &q, 0); CHECK(d == (r ? 1 : 0), "shared key %d: %ld more insertions than removals, lookup %d", k, d, r); want += r; }
    hash_table_stat st; hash_table_stats(s.t, &st); CHECK(st.nodes == want, "%zu nodes reported, %zu present", st.nodes, want); CHECK(st.inserts == ins, "%d insertions counted, %ld performed", st.inserts, ins); CHECK((long)st.inserts - st.deletes == (long)want, "%d inserts - %d deletes != %zu", st.inserts, st.deletes, want);
    hash_table_delete(s.t); pthread_barrier_destroy(&s.bar);
    if (st.splits) c.label("grew under threads"); c.nontrivial(active >= 2 && st.splits > 0);
}
