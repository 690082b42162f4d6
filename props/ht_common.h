// Shared by C02 and C03: model, policies and operation executor for the policy-based hash table.
#pragma once
#include "pbt.h"
#include <errno.h>
#include "utils/hashtab.h"
extern "C" void lockmgr_new_mutex(lockmgr*);
namespace ht {
struct E { uint64_t magic; uint64_t key; int id; };
static const uint64_t MAGIC = 0xE1E1E1E1C0FFEE11ull;
static int hash_kind; static long ndtor; static std::set<E*>* liveE; // created, not yet released
static uint32_t rnd_state;
static E* chk(const void* p, const char* who) { E* e = (E*)p; CHECK(e && e->magic == MAGIC, "%s callback was given a pointer that is not an item", who); return e; }
static uint32_t h_hash(const void* p) {
    uint64_t k = chk(p, "hash")->key;
    switch (hash_kind) { case 0: return (uint32_t)(k * 0x9e3779b1u); case 1: return (uint32_t)k; case 2: return 7; case 3: return (uint32_t)(k & 3); case 4: return (uint32_t)(k << 28); default: return (uint32_t)(k >> 1); }
}
static int h_cmp(const void* a, const void* b) { uint64_t x = chk(a, "compare")->key, y = chk(b, "compare")->key; return x < y ? -1 : x > y; }
static void h_dtor(void* p) { E* e = chk(p, "destructor"); ndtor++; if (liveE) { CHECK(liveE->erase(e) == 1, "item %d (key %llu) destroyed twice", e->id, (unsigned long long)e->key); } e->magic = 0; delete e; }

// allocator policy
struct Mem { std::map<void*, size_t> live; long nalloc = 0, failat = -1, failed = 0; };
static Mem* mem;
static void* m_alloc(void* ctx, size_t n) { CHECK(ctx == mem, "allocator called with another context"); mem->nalloc++; if (mem->failat >= 0 && mem->nalloc > mem->failat) { mem->failed++; return 0; } void* p = malloc(n); memset(p, 0xC9, n); mem->live[p] = n; return p; }
static void m_free(void* ctx, void* p) { CHECK(ctx == mem, "free called with another context"); if (!p) return; auto it = mem->live.find(p); CHECK(it != mem->live.end(), "free of a block the allocator does not own (double free?)"); mem->live.erase(it); free(p); }

// instrumented lock policy
struct L { bool held = false; };
struct Locks { std::set<L*> all; int held = 0; long nlock = 0; };
static Locks* locks;
static void l_lock(void* o) { L* l = (L*)o; CHECK(locks->all.count(l), "lock of a deleted or unknown lock"); CHECK(!l->held, "deadlock: a lock already held by this call (or kept by an earlier one) is taken again"); l->held = true; locks->held++; locks->nlock++; }
static void l_unlock(void* o) { L* l = (L*)o; CHECK(locks->all.count(l), "unlock of a deleted or unknown lock"); CHECK(l->held, "unlock of a lock that is not held"); l->held = false; locks->held--; }
static void l_dtor(void* o) { L* l = (L*)o; CHECK(locks->all.erase(l) == 1, "lock deleted twice"); if (l->held) { locks->held--; } delete l; }
static void l_create(lockmgr* m) { L* l = new L; locks->all.insert(l); m->create = l_create; m->lock = l_lock; m->unlock = l_unlock; m->dtor = l_dtor; m->opaq = l; }
static void no_locks(const char* op) { CHECK(locks->held == 0, "%s returned with %d lock(s) still held", op, locks->held); }

typedef std::map<uint64_t, E*> Model;
struct Seen { std::map<E*, int> n; std::vector<E*> order; };
static void cb_apply(void* ck, const void* p) { Seen* s = (Seen*)ck; E* e = chk(p, "apply"); s->n[e]++; s->order.push_back(e); }
struct PredArg { std::map<E*, int> n; uint64_t mod, rem; };
static int cb_pred(void* ck, const void* p) { PredArg* a = (PredArg*)ck; E* e = chk(p, "predicate"); a->n[e]++; return e->key % a->mod == a->rem; }

static void same(const Seen& s, const Model& m, const char* what) {
    for (auto& x : s.n) { CHECK(x.second == 1, "%s visited key %llu %d times", what, (unsigned long long)x.first->key, x.second); auto it = m.find(x.first->key); CHECK(it != m.end() && it->second == x.first, "%s visited an item that is not in the table", what); }
    CHECK(s.n.size() == m.size(), "%s visited %zu of %zu items", what, s.n.size(), m.size());
}

struct Run {
    pbt::Src& g; pbt::Ctx& c; bool faults, instr_locks, has_dtor, real_mutex = false;
    Mem mm; Locks lk; std::set<E*> le; Model m; hash_table_t t = nullptr; int ids = 0; hash_table_policy pol;
    long ins = 0, rep = 0, del = 0, look = 0, flook = 0; size_t fillmax; size_t maxlive = 0; int nfail = 0, removed = 0, grew = 0, iters = 0, dups = 0;
    Run(pbt::Src& g_, pbt::Ctx& c_, bool f, bool il) : g(g_), c(c_), faults(f), instr_locks(il) { mem = &mm; locks = &lk; liveE = &le; ndtor = 0; }
    ~Run() { mem = nullptr; locks = nullptr; liveE = nullptr; }
    E* mk(uint64_t k) { E* e = new E{MAGIC, k, ++ids}; le.insert(e); return e; }
    void drop(E* e) { CHECK(le.erase(e) == 1, "harness: drop"); e->magic = 0; delete e; } // caller-owned item
    void arm() { mm.failed = 0; mm.failat = faults && g.chance(1, 5) ? mm.nalloc + (long)g.range(0, 2) : -1; }
    bool hit() { bool f = mm.failed > 0; mm.failat = -1; if (f) nfail++; return f; }
    void after(const char* op) { if (instr_locks) no_locks(op); }

    bool create() {
        hash_kind = (int)g.range(0, 5); rnd_state = (uint32_t)g.range(0, 0xffffffffu);
        memset(&pol, 0, sizeof pol); pol.hash = h_hash; pol.cmp = h_cmp; has_dtor = g.flip(); pol.dtor = has_dtor ? h_dtor : nullptr;
        pol.fillmax = g.pick<size_t>({0, 80, 50, 10, 99, 1, 100, 200}); fillmax = pol.fillmax == 0 || pol.fillmax >= 100 ? 80 : pol.fillmax;
        pol.logsize = g.chance(1, 600) ? g.range(15, 17) : g.pick<size_t>({1, 2, 3, 4, 0, 6, 64, 99});
        memmgr_init(&pol.mem, m_alloc, m_free, mem);
        if (instr_locks) { pol.lock.create = l_create; } else if (g.chance(1, 3)) { pol.lock = Mutex_locker; real_mutex = true; } // else: no locking
        TR("new: hash kind %d, dtor %d, fillmax %zu, logsize %zu, locks %s", hash_kind, has_dtor, pol.fillmax, pol.logsize, instr_locks ? "instrumented" : real_mutex ? "mutex" : "none");
        arm(); int r = hash_table_new(&t, &pol); bool h = hit();
        if (r < 0) { CHECK(h && r == -ENOMEM, "creation failed with %d", r); CHECK(mm.live.empty(), "failed creation leaks %zu blocks", mm.live.size()); CHECK(lk.all.empty(), "failed creation leaks locks"); return false; }
        CHECK(!h, "creation succeeded although memory ran out"); after("create"); return true;
    }
    void check_find(uint64_t k, const char* when) {
        E probe{MAGIC, k, -1}; void* out = (void*)0x55; int r = hash_table_lookup(t, &probe, &out); auto it = m.find(k); after("lookup");
        CHECK((r != 0) == (it != m.end()), "%s: lookup(%llu) = %d, model %s it", when, (unsigned long long)k, r, it != m.end() ? "has" : "lacks");
        if (r) { CHECK(r == 1 && out == it->second, "%s: lookup(%llu) gave another item", when, (unsigned long long)k); look++; } else { CHECK(out == 0, "%s: lookup miss returned a pointer", when); flook++; }
    }
    void check_all(const char* when) {
        Seen s; hash_table_apply(t, cb_apply, &s); after("apply"); same(s, m, when);
        for (auto& x : m) check_find(x.first, when);
        check_stats(when);
    }
    hash_table_stat stats() { hash_table_stat st; memset(&st, 0x5a, sizeof st); CHECK(hash_table_stats(t, &st) == &st, "stats returned another pointer"); after("stats"); return st; }
    // the buckets in use and the longest chain, as bucket iterators show them
    std::pair<size_t, size_t> chains() {
        std::set<E*> done; size_t nb = 0, mx = 0;
        for (auto& x : m) {
            if (done.count(x.second)) continue;
            hash_table_iter_t it = nullptr; CHECK(hash_table_bucket_iter_new(&it, t, x.second) == 0 && it, "bucket iterator creation failed");
            size_t n = 0; bool self = false; if (hash_table_iter_first(it) == 0) for (void* p; (p = hash_table_iter_item(it)) && n <= m.size();) { n++; self |= p == x.second; done.insert((E*)p); if (hash_table_iter_next(it)) break; }
            hash_table_iter_delete(it); CHECK(self, "the bucket iterator for key %llu does not come by it", (unsigned long long)x.first);
            nb++; mx = std::max(mx, n);
        }
        return {nb, mx};
    }
    void check_stats(const char* when) {
        auto st = stats();
        if (m.size() < 300) { auto ch = chains(); CHECK(st.fill == ch.first, "%s: %zu buckets reported in use, %zu are", when, st.fill, ch.first); CHECK(st.maxchainlen >= ch.second, "%s: longest chain %zu reported, one of %zu is there", when, st.maxchainlen, ch.second); }
        CHECK(st.nodes == m.size(), "%s: %zu nodes reported, %zu present", when, st.nodes, m.size());
        CHECK(st.size && !(st.size & (st.size - 1)), "%s: size %zu", when, st.size);
        CHECK(st.fill <= st.nodes && st.fill <= st.size && (st.fill > 0) == (m.size() > 0), "%s: fill %zu of size %zu with %zu nodes", when, st.fill, st.size, m.size());
        if (m.size()) CHECK(st.maxchainlen * st.fill >= m.size(), "%s: longest chain %zu and %zu filled buckets cannot hold %zu nodes", when, st.maxchainlen, st.fill, m.size());
        { double fp = hash_table_fill_percent(&st), de = hash_table_density(&st), ad = hash_table_actual_density(&st); auto near = [](double a, double b) { return a - b < 1e-9 && b - a < 1e-9; };
          CHECK(near(fp, 100.0 * (double)st.fill / (double)st.size) && near(de, (double)m.size() / (double)st.size) && near(ad, st.fill ? (double)m.size() / (double)st.fill : 0) && hash_table_avg_chainlen(&st) == (int)ad, "%s: derived statistics %g %g %g for %zu nodes in %zu of %zu buckets", when, fp, de, ad, m.size(), st.fill, st.size); }
        CHECK(st.maxchainlen <= maxlive, "%s: longest chain %zu, but never more than %zu items", when, st.maxchainlen, maxlive);
        CHECK(st.inserts == ins && st.replaces == rep && st.deletes == del && st.lookups == look && st.failed_lookups == flook, "%s: statistics inserts/replaces/deletes/lookups/misses %d/%d/%d/%d/%d, performed %ld/%ld/%ld/%ld/%ld", when, st.inserts, st.replaces, st.deletes, st.lookups, st.failed_lookups, ins, rep, del, look, flook);
    }
    void step(const std::vector<uint64_t>& keys, bool force_full) {
        uint64_t k = keys[g.range(0, keys.size() - 1)]; auto it = m.find(k); bool has = it != m.end(); const char* op = "";
        auto st0 = stats(); E probe{MAGIC, k, -1};
        switch (g.weighted({6, 3, 3, 3, 4, 1, 1, 2, 2, 2, 1})) {
        case 0: { op = "insert"; E* e = mk(k); arm(); int r = hash_table_insert(t, e); bool h = hit(); TR("insert(%llu) = %d%s", (unsigned long long)k, r, h ? " (out of memory)" : "");
            if (has) { CHECK(r == -EEXIST, "insert of an existing key returned %d", r); drop(e); dups++; }
            else if (r == 0) { m[k] = e; ins++; } else { CHECK(h && r == -ENOMEM, "insert of a new key returned %d", r); drop(e); }
            break; }
        case 1: { op = "probe"; E* e = mk(k); arm(); void* r = hash_table_probe(t, e); bool h = hit(); TR("probe(%llu) = %p%s", (unsigned long long)k, r, h ? " (out of memory)" : "");
            if (has) { CHECK(r == it->second, "probe of an existing key did not return the stored item"); drop(e); dups++; }
            else if (r) { CHECK(r == e, "probe of a new key returned another item"); m[k] = e; ins++; } else { CHECK(h, "probe of a new key failed"); drop(e); }
            break; }
        case 2: { op = "replace"; E* e = mk(k); long d0 = ndtor; arm(); int r = hash_table_replace(t, e); bool h = hit(); TR("replace(%llu) = %d%s", (unsigned long long)k, r, h ? " (out of memory)" : "");
            if (has) { CHECK(r == 0, "replace of an existing key returned %d", r); if (has_dtor) CHECK(ndtor == d0 + 1 && !le.count(it->second), "replace did not destroy the replaced item"); else drop(it->second); it->second = e; rep++; }
            else if (r == 0) { m[k] = e; ins++; } else { CHECK(h && r == -ENOMEM, "replace with a new key returned %d", r); drop(e); }
            break; }
        case 3: op = "lookup"; TR("lookup(%llu)", (unsigned long long)k); if (g.chance(1, 4)) { int r = hash_table_lookup(t, &probe, nullptr); CHECK((r != 0) == has, "lookup = %d", r); has ? look++ : flook++; } else check_find(k, "lookup"); break;
        case 4: { op = "remove"; void* out = (void*)0x66; bool np = g.chance(1, 4); long d0 = ndtor; int r = hash_table_remove(t, &probe, np ? nullptr : &out); TR("remove(%llu) = %d", (unsigned long long)k, r);
            if (has) { CHECK(r == 0, "remove of an existing key returned %d", r); if (!np) CHECK(out == it->second, "remove returned another item"); if (has_dtor) CHECK(ndtor == d0 + 1 && !le.count(it->second), "remove did not destroy the item"); else drop(it->second); m.erase(it); del++; removed++; }
            else CHECK(r == -ENOENT && ndtor == d0, "remove of an absent key returned %d", r);
            break; }
        case 5: { op = "remove_if"; PredArg a; a.mod = g.range(1, 5); a.rem = g.range(0, a.mod - 1); size_t n0 = m.size(); int r = hash_table_remove_if(t, cb_pred, &a); TR("remove_if(key %% %llu == %llu) = %d", (unsigned long long)a.mod, (unsigned long long)a.rem, r);
            CHECK(a.n.size() == n0, "predicate saw %zu of %zu items", a.n.size(), n0); for (auto& x : a.n) CHECK(x.second == 1, "predicate saw an item %d times", x.second);
            int want = 0; for (auto i = m.begin(); i != m.end();) { if (i->first % a.mod == a.rem) { want++; if (has_dtor) CHECK(!le.count(i->second), "remove_if did not destroy key %llu", (unsigned long long)i->first); else drop(i->second); i = m.erase(i); } else ++i; }
            CHECK(r == want, "remove_if returned %d, %d matched", r, want); del += want; removed += want; break; }
        case 6: { op = "apply"; Seen s; hash_table_apply(t, cb_apply, &s); TR("apply"); same(s, m, "apply"); break; }
        case 7: case 8: { bool sorted = g.flip(); op = sorted ? "sorted iteration" : "iteration"; hash_table_iter_t it2 = nullptr; arm(); int r = hash_table_iter_new(&it2, t, sorted); bool h = hit(); TR("%s%s", op, h ? " (out of memory)" : ""); after("iterator creation");
            if (r < 0) { CHECK(h && r == -ENOMEM, "iterator creation returned %d", r); break; }
            CHECK(r == 0, "iterator creation returned %d", r); CHECK(it2, "iterator creation gave no iterator");
            int rounds = g.chance(1, 4) ? 2 : 1;
            for (int q = 0; q < rounds; q++) {
                Seen s; int f = hash_table_iter_first(it2); after("iterator first"); CHECK((f == 0) == !m.empty(), "iterator first = %d with %zu items", f, m.size());
                size_t lim = m.size() + 5; for (void* p; (p = hash_table_iter_item(it2)) && lim; lim--) { after("iterator item"); cb_apply(&s, p); int nx = hash_table_iter_next(it2); after("iterator next"); bool last = s.order.size() == m.size(); CHECK((nx == 0) == !last, "iterator next = %d after %zu of %zu items", nx, s.order.size(), m.size()); }
                same(s, m, op);
                CHECK(hash_table_iter_item(it2) == 0, "iterator yields an item after the end"); CHECK(hash_table_iter_next(it2) != 0 && hash_table_iter_item(it2) == 0, "iterator restarts after the end");
                if (sorted) for (size_t i = 1; i < s.order.size(); i++) CHECK(s.order[i - 1]->key < s.order[i]->key, "sorted iteration yields key %llu before %llu", (unsigned long long)s.order[i - 1]->key, (unsigned long long)s.order[i]->key);
                if (m.size() > 2) iters++;
            }
            hash_table_iter_delete(it2); break; }
        case 9: { op = "bucket iteration"; hash_table_iter_t it2 = nullptr; arm(); int r = hash_table_bucket_iter_new(&it2, t, &probe); bool h = hit(); TR("bucket iteration(%llu)%s", (unsigned long long)k, h ? " (out of memory)" : ""); after("iterator creation");
            if (r < 0) { CHECK(h && r == -ENOMEM, "bucket iterator creation returned %d", r); break; }
            CHECK(r == 0, "bucket iterator creation returned %d", r); int rounds = 1 + g.chance(1, 3); while (rounds-- > 0) { Seen s; { int f = hash_table_iter_first(it2); CHECK((f == 0) == (hash_table_iter_item(it2) != nullptr), "bucket iterator first = %d, %s item", f, hash_table_iter_item(it2) ? "an" : "no"); } size_t lim = m.size() + 5; for (void* p; (p = hash_table_iter_item(it2)) && lim; lim--) { cb_apply(&s, p); hash_table_iter_next(it2); after("iterator next"); }
            uint32_t hh = h_hash(&probe); size_t same_hash = 0;
            for (auto& x : s.n) { auto j = m.find(x.first->key); CHECK(x.second == 1 && j != m.end() && j->second == x.first, "bucket iterator yields key %llu %d times / not in the table", (unsigned long long)x.first->key, x.second); same_hash += h_hash(x.first) == hh; }
            size_t want = 0; for (auto& x : m) want += h_hash(x.second) == hh;
            CHECK(same_hash == want, "bucket iterator yields %zu of the %zu items whose hash equals the key's", same_hash, want);
            CHECK(hash_table_iter_next(it2) != 0, "bucket iterator goes on after the end"); }
            hash_table_iter_delete(it2); break; }
        default: op = "invalid arguments"; CHECK(hash_table_insert(t, 0) == -EINVAL && hash_table_remove(t, 0, 0) == -EINVAL && hash_table_remove_if(t, 0, 0) == -EINVAL && hash_table_probe(t, 0) == 0, "null arguments are not rejected"); TR("null arguments");
        }
        after(op); maxlive = std::max(maxlive, m.size());
        auto st1 = stats();
        CHECK(st1.nodes == m.size(), "after %s: %zu nodes reported, %zu present", op, st1.nodes, m.size());
        CHECK(st1.size == st0.size || (st1.size == 2 * st0.size && st1.splits == st0.splits + 1), "after %s: size %zu -> %zu, splits %d -> %d", op, st0.size, st1.size, st0.splits, st1.splits);
        if (st1.size > st0.size) { grew++; if (m.size() < 300) { auto ch = chains(); CHECK(st1.maxchainlen == ch.second, "after growth: longest chain %zu reported, it is %zu", st1.maxchainlen, ch.second); } }
        if (!nfail && st1.size == st0.size && st1.fill > st0.fill) CHECK(st1.fill * 100 < (fillmax + 1) * st1.size, "after %s: table did not grow: %zu of %zu buckets filled, limit %zu%%", op, st1.fill, st1.size, fillmax);
        check_find(k, op);
        if (force_full) check_all(op);
    }
    void finish() {
        check_all("at the end");
        size_t n = m.size(); long d0 = ndtor;
        hash_table_delete(t); if (instr_locks) { CHECK(lk.all.empty(), "%zu lock(s) not deleted with the table", lk.all.size()); }
        if (has_dtor) CHECK(ndtor == d0 + (long)n && le.empty(), "deleting the table destroyed %ld of %zu items", ndtor - d0, n); else { CHECK(ndtor == 0, "destructor called"); for (auto& x : m) drop(x.second); }
        CHECK(le.empty(), "%zu items leaked", le.size());
        CHECK(mm.live.empty(), "%zu blocks leaked", mm.live.size());
    }
};
static std::vector<uint64_t> gen_keys(pbt::Src& g) {
    size_t n = 1 + g.range(0, g.pick<size_t>({6, 20, 60, 250})); std::vector<uint64_t> ks; int style = (int)g.range(0, 2); uint64_t b = g.range(0, 1000);
    for (size_t i = 0; i < n; i++) ks.push_back(style == 0 ? i : style == 1 ? b + 8 * i : g.u(40));
    return ks;
}
}
extern "C" uint32_t arc4random(void) { uint32_t x = ht::rnd_state; ht::rnd_state = x * 1664525u + 1013904223u; return x; }
