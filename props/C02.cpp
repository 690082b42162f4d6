//@ src: src/hashtable/hashtab.c src/hashtable/hashtab_iter.c src/memmgr.c src/posix/cmutex.c src/error.c
//@ quick: 20
// C02: policy-based hash table vs std::map over generated policies.
#include "ht_common.h"
#include <string.h>
static void body(pbt::Src& g, pbt::Ctx& c, bool big) {
    ht::Run r(g, c, false, false);
    c.leakcheck = true;
    if (!r.create()) return;
    if (big && g.chance(1, 400)) { // many items, through many growths, and back
        ht::hash_kind = g.pick<int>({0, 1, 5}); uint64_t cnt = 1 + (g.chance(1, 5) ? g.range(66000, 140000) : g.flip() ? g.big(120000) : g.range(2000, 60000)), st = g.pick<uint64_t>({1, 7, 3, 9}); TR("%llu items, keys %llu apart", (unsigned long long)cnt, (unsigned long long)st);
        for (uint64_t i = 0; i < cnt; i++) { ht::E* e = r.mk(i * st); if (i % 3 == 1) CHECK(hash_table_probe(r.t, e) == e, "probe for a new key"); else CHECK((i % 3 ? hash_table_replace(r.t, e) : hash_table_insert(r.t, e)) == 0, "item %llu is not added", (unsigned long long)i); r.m[i * st] = e; r.ins++; }
        r.maxlive = cnt; r.check_all("after adding many"); for (int i = 0; i < 20; i++) r.check_find(g.range(0, 2 * cnt * st), "after adding many"); r.grew++; c.label("many items");
        for (int sorted = 0; sorted < 2; sorted++) { hash_table_iter_t it = nullptr; CHECK(hash_table_iter_new(&it, r.t, sorted) == 0 && it, "no iterator over %llu items", (unsigned long long)cnt); std::vector<bool> seen(cnt); uint64_t n = 0, last = 0;
            if (hash_table_iter_first(it) == 0) for (void* p; n <= cnt && (p = hash_table_iter_item(it)); n++) { uint64_t k = ht::chk(p, "iteration")->key; CHECK(k % st == 0 && k / st < cnt && !seen[k / st], "key %llu is visited twice", (unsigned long long)k); seen[k / st] = true; CHECK(!sorted || !n || k > last, "key %llu is visited after %llu", (unsigned long long)k, (unsigned long long)last); last = k; if (hash_table_iter_next(it)) { n++; break; } }
            hash_table_iter_delete(it); CHECK(n == cnt, "an iterator visits %llu of %llu items", (unsigned long long)n, (unsigned long long)cnt); }
        for (int i = 0; i < 20; i++) { ht::E probe{ht::MAGIC, g.range(0, cnt - 1) * st, -1}; hash_table_iter_t it = nullptr; CHECK(cnt && hash_table_bucket_iter_new(&it, r.t, &probe) == 0 && it, "no bucket iterator"); bool self = false; if (hash_table_iter_first(it) == 0) for (void* p; (p = hash_table_iter_item(it));) { self |= p == r.m[probe.key]; if (hash_table_iter_next(it)) break; } hash_table_iter_delete(it); CHECK(self, "the bucket iterator for key %llu does not come by it", (unsigned long long)probe.key); }
    }
    auto keys = ht::gen_keys(g); size_t n = big ? (r.m.size() > 300 ? 6 : 100 + g.range(0, 500)) : 3 + g.size(120); unsigned full = (unsigned)g.range(1, 6);
    for (size_t i = 0; i < n; i++) r.step(keys, !big && i % full == 0);
    c.nontrivial(r.removed && r.maxlive >= 3 && (r.iters || r.dups));
    if (r.grew) c.label("grew"); if (r.removed) c.label("removed"); if (r.dups) c.label("duplicate insert"); if (r.iters) c.label("iterated >2 items"); if (r.has_dtor) c.label("with destructor");
    r.finish();
}
TARGET(histories, 4, "operation history under a generated policy (hash function incl. constant and partial, destructor, growth limit, initial size, locking), every result compared with a map; non-trivial: something removed, >=3 items at once, and an iteration or duplicate insertion") { body(g, c, false); }
TARGET(long_histories, 1, "as histories, 100-600 operations") { body(g, c, true); }

TARGET(creation, 1, "policies with missing parts are rejected, complete ones accepted; non-trivial: a part is missing") {
    ht::Mem mm; ht::mem = &mm; hash_table_policy p; memset(&p, 0, sizeof p); int miss = (int)g.range(0, 4);
    if (miss != 1) p.hash = ht::h_hash; if (miss != 2) p.cmp = ht::h_cmp; p.fillmax = g.range(0, 120); p.logsize = g.range(0, 10);
    if (miss != 3) memmgr_init(&p.mem, ht::m_alloc, ht::m_free, &mm);
    hash_table_t t = 0; int r = hash_table_new(miss == 4 ? 0 : &t, &p); TR("missing part %d: %d", miss, r);
    if (miss) CHECK(r == -EINVAL && mm.live.empty(), "incomplete policy: %d", r);
    else { CHECK(r == 0 && t, "complete policy: %d", r); hash_table_stat st; hash_table_stats(t, &st); size_t want = 1ull << (p.logsize ? p.logsize : 10); CHECK(st.size == want, "initial size %zu for log size %zu", st.size, p.logsize); hash_table_delete(t); CHECK(mm.live.empty(), "leak"); }
    hash_table_policy q; memset(&q, 0, sizeof q);
    CHECK(memmgr_init_default(&q.mem) == &q.mem, "default memory manager"); void* b = memmgr_alloc(&q.mem, 10); memset(b, 1, 10); memmgr_free(&q.mem, b); memmgr_free(&q.mem, (void*)0);
    { hash_table_iter_t it = nullptr; CHECK(hash_table_bucket_iter_new(&it, nullptr, nullptr) == -EINVAL && hash_table_iter_new(&it, nullptr, 0) == -EINVAL, "an iterator over no table was created"); } CHECK(memmgr_init_xmalloc(&q.mem) == &q.mem, "xmalloc memory manager"); b = memmgr_alloc(&q.mem, 10); memset(b, 1, 10); memmgr_free(&q.mem, b);
    c.nontrivial(miss > 0);
}
