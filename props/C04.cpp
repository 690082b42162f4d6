//@ src: src/hashtable/bloom.c src/humanize.c src/strcopy.c
//@ wrap: getentropy
//@ libs: -lm
//@ quick: 20
// C04: Bloom filters.  Model: multiset of adds minus removes; a twin filter that is never queried must stay equal.
#include "bloom_common.h"
#include <math.h>

static double gen_e(pbt::Src& g) { return g.pick<double>({0.01, 0.005, 0.5, 0.1, 0.25, 0.9, 0.001, 1e-4, 0.49, 1e-6, 0.03125, 0.75}); }

TARGET(histories, 5, "add / bulk add / remove / query history on one filter and a twin that is never queried, over a small key pool, checked against a multiset model after each op; non-trivial: >=10 adds and, for counting filters, a removal of a present element, for scalable ones, growth") {
    c.leakcheck = true;
    bl_fixed = g.flip(); bl_salt = g.u(); uint64_t s0 = bl_salt;
    int typ = (int)g.range(0, 2); uint64_t n = g.pick<uint64_t>({8, 1, 2, 3, 5, 16, 40, 100, 500}); double e = gen_e(g);
    size_t nk = 1 + g.range(0, 40); auto keys = bl_keys(g, nk);
    bool st = g.flip(); Bloom sa, sb; Bloom* b = bl_make(typ, n, e, st ? &sa : nullptr);
    CHECK(b, "constructor returned NULL"); if (st) CHECK(b == &sa, "init returned another filter");
    uint64_t s1 = bl_salt; bl_salt = s0; Bloom* t = bl_make(typ, n, e, st ? &sb : nullptr); CHECK(t, "constructor returned NULL");
    uint64_t t1 = bl_salt; CHECK(s1 == t1, "two identical constructions consumed different randomness");
    TR("%s bloom n=%llu e=%g, %zu keys", btypname[typ], (unsigned long long)n, e, nk);
    CHECK(b->n == n && b->e == e, "filter reports n=%llu e=%g", (unsigned long long)b->n, b->e);
    CHECK(Bloom_name(b) && *Bloom_name(b), "no name");
    for (uint64_t k : keys) CHECK(!Bloom_find(b, k), "an empty filter reports %llx present", (unsigned long long)k);
    std::map<uint64_t, uint64_t> model; uint64_t live = 0, adds = 0, removes = 0; bool everbig = false; uint64_t maxadds = 0;
    size_t ops = 3 + g.size(120); unsigned wr = (unsigned)g.range(0, 6), wb = (unsigned)g.range(0, 2);
    uint64_t salt_b = bl_salt, salt_t = bl_salt;
    for (size_t i = 0; i < ops; i++) {
        uint64_t k = keys[g.range(0, nk - 1)];
        auto addn = [&](uint64_t v) { bl_salt = salt_b; Bloom_probe(b, v); salt_b = bl_salt; bl_salt = salt_t; Bloom_probe(t, v); salt_t = bl_salt; model[v]++; live++; adds++; };
        switch (g.weighted({6, 1 + wr, 3, wb, 1})) {
        case 0: TR("add %llx", (unsigned long long)k); addn(k); CHECK(Bloom_find(b, k), "%llx not found straight after it was added", (unsigned long long)k); break;
        case 1: {
            bool inmodel = model.count(k) && model[k];
            // remove only what is present or what the filter says is absent: removing a false positive is outside the property
            if (typ == B_CNT && !inmodel && Bloom_find(b, k)) break;
            int r = Bloom_remove(b, k), r2 = Bloom_remove(t, k);
            TR("remove %llx = %d", (unsigned long long)k, r);
            CHECK(r == r2, "twin filters disagree on removing %llx", (unsigned long long)k);
            if (typ == B_CNT) { CHECK(!!r == inmodel, "remove(%llx) = %d, in the filter: %d", (unsigned long long)k, r, inmodel); if (inmodel) { model[k]--; live--; removes++; } }
            break; }
        case 2: { int r = Bloom_find(b, k); TR("find %llx = %d", (unsigned long long)k, r); if (model.count(k) && model[k]) CHECK(r, "%llx was added %llu times more than removed but is not found", (unsigned long long)k, (unsigned long long)model[k]); break; }
        case 3: { uint64_t m = g.pick<uint64_t>({3, 20, 100, 254, 255, 256, 257, 300}); TR("add %llx %llu times", (unsigned long long)k, (unsigned long long)m); for (uint64_t j = 0; j < m; j++) addn(k); break; }
        default: { BlDesc d = bl_parse(b); CHECK(d.elems == live, "description counts %llu elements, %llu were added and not removed", (unsigned long long)d.elems, (unsigned long long)live); everbig = everbig || d.levels > 1; }
        }
        maxadds = std::max(maxadds, live);
        if (i % 8 == 7 || i + 1 == ops) {
            for (auto& kv : model) if (kv.second) CHECK(Bloom_find(b, kv.first), "%llx (added, %llu outstanding) is no longer found", (unsigned long long)kv.first, (unsigned long long)kv.second);
            CHECK(Bloom_eq(b, t) && Bloom_eq(t, b), "queries changed the filter: it differs from its twin that was never queried");
        }
    }
    BlDesc d = bl_parse(b); CHECK(d.elems == live, "description counts %llu elements, %llu were added and not removed", (unsigned long long)d.elems, (unsigned long long)live);
    if (typ != B_SCALE) CHECK(d.levels == 1, "%u levels in a filter of fixed size", d.levels);
    // description in a buffer of any size: a terminated prefix of the full one
    { std::string full = bl_desc(b); size_t bs = 1 + g.size(full.size() + 3); Exact buf(bs, 'Z'); Bloom_desc(b, buf.c(), bs); size_t l = strnlen(buf.c(), bs); CHECK(l < bs, "description is not terminated in a buffer of %zu bytes", bs); CHECK(full.compare(0, l, buf.c(), l) == 0, "truncated description is not a prefix of the full one"); if (bs > full.size()) CHECK(l == full.size(), "description is cut although it fits"); }
    // one more element in the twin: no longer equal
    { bl_salt = salt_t; Bloom_probe(t, g.u()); CHECK(!Bloom_eq(b, t), "filters with different contents compare equal"); }
    Bloom* o = bl_make((typ + 1) % 3, n, e, nullptr); CHECK(!Bloom_eq(b, o), "filters of different types compare equal"); Bloom_delete(o);
    c.nontrivial(adds >= 10 && (typ == B_CNT ? removes > 0 : typ == B_SCALE ? d.levels > 1 : true));
    c.label(btypname[typ]); if (maxadds >= 256) c.label("a counter could pass 255"); if (d.levels > 8) c.label(">8 levels");
    if (st) { Bloom_fini(b); Bloom_fini(t); } else { Bloom_delete(b); Bloom_delete(t); }
}

// false positives: counted over many foreign keys, against the configured bound
static void fpcheck(pbt::Src& g, pbt::Ctx& c, int typ, uint64_t n, double e, uint64_t fill, const char* what) {
    c.leakcheck = true; bl_fixed = false; bl_salt = g.u();
    Bloom* b = bl_make(typ, n, e, nullptr); CHECK(b, "constructor returned NULL");
    uint64_t style = g.range(0, 2), base = g.u(); auto key = [&](uint64_t i) { return style == 0 ? base + i : style == 1 ? (base + i) * 0x9E3779B97F4A7C15ull : i; };
    TR("%s n=%llu e=%g fill=%llu keys style %llu", btypname[typ], (unsigned long long)n, e, (unsigned long long)fill, (unsigned long long)style);
    for (uint64_t i = 0; i < fill; i++) Bloom_probe(b, key(i));
    if (typ == B_CNT && g.flip()) { // churn: what was removed must not count
        for (uint64_t i = 0; i < fill; i++) { Bloom_probe(b, key(1000000 + i)); CHECK(Bloom_remove(b, key(1000000 + i)), "cannot remove an element just added"); } c.label("churned");
    }
    for (uint64_t i = 0; i < fill; i++) CHECK(Bloom_find(b, key(i)), "element %llu of %llu not found", (unsigned long long)i, (unsigned long long)fill);
    uint64_t Q = 30000, hits = 0;
    for (uint64_t i = 0; i < Q; i++) hits += !!Bloom_find(b, key(5000000 + i));
    BlDesc d = bl_parse(b); CHECK(d.elems == fill, "description counts %llu elements of %llu", (unsigned long long)d.elems, (unsigned long long)fill);
    double bound = e;
    if (typ == B_SCALE) { bound = 0; double x = e; for (unsigned i = 0; i < d.levels; i++) { bound += x; x *= 0.9; } if (d.levels > 1) c.label("grew"); }
    double lim = 1.6 * bound * (double)Q + 8 * sqrt(1.6 * bound * (double)Q) + 30;
    CHECK((double)hits <= lim, "%llu of %llu foreign keys reported present (%.5f); %s, configured bound %.5f", (unsigned long long)hits, (unsigned long long)Q, (double)hits / (double)Q, what, bound);
    c.nontrivial(lim < 0.9 * (double)Q);
    Bloom_delete(b);
}
TARGET(false_positives, 2, "fill a standard or counting filter up to its configured capacity (counting also with churn) and query 30000 foreign keys; non-trivial: the bound is below 90% of the queries") {
    int typ = g.flip() ? B_CNT : B_STD; uint64_t n = g.chance(1, 20) ? 4000 + g.big(100000) : 300 + g.range(0, 4000); double e = g.pick<double>({0.01, 0.005, 0.1, 0.25, 0.001, 0.05, 0.4});
    fpcheck(g, c, typ, n, e, g.flip() ? n : 1 + g.range(0, n - 1), "at or below the configured capacity");
}
TARGET(scalable_growth, 2, "fill a scalable filter to many times its initial capacity and query 30000 foreign keys; bound: the sum of its levels' configured errors; non-trivial: the bound is below 90% of the queries") {
    uint64_t n = g.pick<uint64_t>({256, 300, 1000, 500, 2000}); double e = g.pick<double>({0.01, 0.005, 0.001, 0.05});
    fpcheck(g, c, B_SCALE, n, e, 1 + g.range(0, 30 * n), "scalable filter after growing");
}
