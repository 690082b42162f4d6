//@ src: src/hashtable/fast-ht.c
//@ wrap: getentropy posix_memalign free
//@ quick: 24
//@ variant: asan 4
//@ variant: nosimd 1
// C01: fast-ht behaves as a map.  Model: std::unordered_map.  The salt (getentropy) is a generated value, so a case is
// a pure function of its choices and colliding keys can be built.
#include "pbt.h"
#include <unordered_map>
#include "utils/fast-ht.h"

static uint64_t salt_state; static bool salt_fixed;
static std::unordered_map<void*, size_t>* mem; static size_t membytes;
extern "C" int __wrap_getentropy(void* p, size_t n) {
    uint8_t* b = (uint8_t*)p;
    for (size_t i = 0; i < n; i++) { if (!salt_fixed && i % 8 == 0) { salt_state = salt_state * 6364136223846793005ull + 1442695040888963407ull; } b[i] = (uint8_t)((salt_state ^ (salt_state >> 29)) >> (8 * (i % 8))); }
    return 0;
}
extern "C" int __real_posix_memalign(void**, size_t, size_t);
extern "C" void __real_free(void*);
extern "C" int __wrap_posix_memalign(void** p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r && mem) { (*mem)[*p] = n; membytes += n; } return r; }
extern "C" void __wrap_free(void* p) { if (p && mem) { auto it = mem->find(p); if (it != mem->end()) { membytes -= it->second; mem->erase(it); } } __real_free(p); }

struct Mem { std::unordered_map<void*, size_t> m; Mem() { mem = &m; membytes = 0; } ~Mem() { mem = nullptr; } };

static std::string* dumpout;
static void dumpcb(const char* s, size_t n) { dumpout->append(s, n); }

typedef std::unordered_map<uint64_t, void*> Model;

// every live (key, value) printed by the dump, in one pass
static void check_dump(ht* h, const Model& m) {
    std::string out; dumpout = &out;
    ht_dump(h, "x", dumpcb);
    unsigned long long hdr = ~0ull; const char* p = strstr(out.c_str(), ": ht ");
    CHECK(p && (p = strchr(p + 2, ':')) && sscanf(p, ": %llu elems", &hdr) == 1, "dump has no header: %s", out.substr(0, 200).c_str());
    CHECK(hdr == m.size(), "dump header says %llu elements, model has %zu", hdr, m.size());
    std::unordered_map<uint64_t, int> seen;
    for (size_t i = 0; (i = out.find("     [0x", i)) != std::string::npos || (false);) {
        unsigned long long k = 0; void* v = 0;
        if (sscanf(out.c_str() + i, "     [%llx, %p]", &k, &v) >= 1 && k) {
            CHECK(++seen[k] == 1, "dump lists key %llx twice", k);
            auto it = m.find(k);
            CHECK(it != m.end(), "dump lists key %llx which is not in the table", k);
            CHECK(it->second == v || (!it->second && !v), "dump shows a stale value for key %llx", k);
        }
        i += 4;
    }
    CHECK(seen.size() == m.size(), "dump lists %zu live keys, model has %zu", seen.size(), m.size());
    // what the dump says about each bucket is what it then lists, and so is the number of buckets in use
    unsigned long long filled = 0, nb = 0, used = 0, in = 0, bags = 0, hin = 0, hbags = 0; bool open = false, ok = sscanf(p, ": %*u elems; %llu/%llu buckets filled", &filled, &nb) == 2;
    auto close = [&] { if (open) { CHECK(hin == in && hbags == bags, "the dump shows a bucket of %llu elements in %llu bags and lists %llu in %llu", hin, hbags, in, bags); used += in > 0; } open = true; in = bags = 0; };
    for (size_t i = out.find('\n'); ok && i != std::string::npos && i + 1 < out.size(); i = out.find('\n', i + 1)) {
        const char* l = out.c_str() + i + 1; unsigned long long k;
        if (l[0] == '[') { close(); ok = sscanf(l, "[%*u]: %llu elems in %llu bags", &hin, &hbags) == 2; }
        else if (!strncmp(l, "  bag.", 6)) bags++;
        else if (sscanf(l, "     [%llx,", &k) == 1) in += k != 0;
    }
    if (ok) { close(); CHECK(used == filled, "the dump says %llu buckets are in use, %llu are", filled, used); CHECK(nb == h->n, "the dump says %llu buckets, there are %llu", nb, (unsigned long long)h->n); }
}
static void check_all(ht* h, const Model& m, const std::vector<uint64_t>& keys) {
    CHECK(h->nodes == m.size(), "element count %llu, model %zu", (unsigned long long)h->nodes, m.size());
    for (uint64_t k : keys) {
        void* v = (void*)0x5a5a; int r = ht_find(h, k, &v); auto it = m.find(k);
        CHECK(!!r == (it != m.end()), "find(%llx) = %d, model %s", (unsigned long long)k, r, it != m.end() ? "has it" : "has it not");
        if (r) CHECK(v == it->second, "find(%llx) gives value %p, last stored %p", (unsigned long long)k, v, it->second);
        else CHECK(v == (void*)0x5a5a || v == 0, "find miss wrote a value");
    }
}

static std::vector<uint64_t> gen_keys(pbt::Src& g, size_t n) {
    std::vector<uint64_t> ks; int style = (int)g.weighted({3, 3, 3, 2});
    uint64_t base = g.u();
    for (size_t i = 0; i < n; i++) {
        uint64_t k;
        switch (style) {
        case 0: k = g.range(1, 3 * n + 2); break;                        // dense
        case 1: k = (g.range(1, 4 * n + 4) << 8) | (base & 0xff); break; // one fingerprint
        case 2: k = g.u(); break;
        default: k = g.chance(1, 2) ? g.range(1, 40) << 8 : (g.range(0, 40) << g.range(0, 58)) + g.range(0, 3);
        }
        ks.push_back(k ? k : 1);
    }
    return ks;
}
static void setup_salt(pbt::Src& g) { salt_fixed = g.flip(); salt_state = g.u(); }

TARGET(histories, 6, "random op history over a key pool (dense / same-fingerprint / boundary keys), compared with a map after each op and fully at the end; non-trivial: had a remove of a present key and a later insert, and >=4 live keys at some time") {
    Mem mm; c.leakcheck = true;
    setup_salt(g);
    unsigned big = (unsigned)g.weighted({5, 2, 1});
    size_t nk = 1 + g.range(0, big == 0 ? 24 : big == 1 ? 200 : 1500);
    auto keys = gen_keys(g, nk);
    uint32_t size = g.pick<uint32_t>({1, 0, 2, 3, 8, 16, 17, 64, 128, 1000});
    uint32_t maxfill = g.pick<uint32_t>({0, 85, 10000, 50, 100, 1, 99});
    bool dyn = g.flip();
    ht st; ht* h = dyn ? ht_new(size, maxfill) : ht_init(&st, size, maxfill);
    CHECK(h, "constructor failed");
    TR("%s(size=%u, maxfill=%u) salt=%s/%llx", dyn ? "ht_new" : "ht_init", size, maxfill, salt_fixed ? "fixed" : "stream", (unsigned long long)salt_state);
    Model m; size_t maxlive = 0, removes = 0, after = 0, splits0 = h->splits; size_t ops = 5 + g.size(big == 0 ? 200 : big == 1 ? 800 : 3000); uint64_t serial = 0x1000;
    unsigned wins = (unsigned)g.range(2, 12), wrem = (unsigned)g.range(1, 8);
    if (big) for (uint64_t k : keys) if (m.size() < nk / 2) { void* v = (void*)(serial += 16); void* r = ht_probe(h, k, v); auto it = m.find(k); CHECK((it == m.end()) ? !r : r == it->second, "probe(%llx) returned %p in the fill phase", (unsigned long long)k, r); m.emplace(k, v); }
    maxlive = m.size();
    for (size_t i = 0; i < ops; i++) {
        uint64_t k = keys[g.range(0, nk - 1)];
        void* v = g.chance(1, 12) ? nullptr : (void*)(serial += 16);
        auto it = m.find(k); bool has = it != m.end();
        switch (g.weighted({wins, 2, 3, wrem})) {
        case 0: {
            TR("probe(%llx, %p)", (unsigned long long)k, v);
            void* r = ht_probe(h, k, v);
            if (has) CHECK(r == it->second, "probe(%llx) of a present key returned %p, stored %p", (unsigned long long)k, r, it->second);
            else { CHECK(r == 0, "probe(%llx) of an absent key returned %p", (unsigned long long)k, r); m[k] = v; if (removes) after++; }
            break; }
        case 1: {
            TR("replace(%llx, %p)", (unsigned long long)k, v);
            int r = ht_replace(h, k, v);
            CHECK(!!r == has, "replace(%llx) = %d, present=%d", (unsigned long long)k, r, has);
            if (has) it->second = v;
            break; }
        case 2: {
            void* o = (void*)0x77; int r = g.chance(1, 6) ? ht_find(h, k, nullptr) : ht_find(h, k, &o);
            TR("find(%llx) = %d", (unsigned long long)k, r);
            CHECK(!!r == has, "find(%llx) = %d, present=%d", (unsigned long long)k, r, has);
            if (r && o != (void*)0x77) CHECK(o == it->second, "find(%llx) value %p, last stored %p", (unsigned long long)k, o, it->second);
            break; }
        default: {
            void* o = (void*)0x77; bool np = g.chance(1, 6); int r = np ? ht_remove(h, k, nullptr) : ht_remove(h, k, &o);
            TR("remove(%llx) = %d", (unsigned long long)k, r);
            CHECK(!!r == has, "remove(%llx) = %d, present=%d", (unsigned long long)k, r, has);
            if (has) { if (!np) CHECK(o == it->second, "remove(%llx) gave value %p, last stored %p", (unsigned long long)k, o, it->second); m.erase(it); removes++; }
            break; }
        }
        maxlive = std::max(maxlive, m.size());
        CHECK(h->nodes == m.size(), "element count %llu after the operation, model %zu", (unsigned long long)h->nodes, m.size());
        // the key just used and one other
        for (uint64_t q : {k, keys[i % nk]}) { void* o = 0; int r = ht_find(h, q, &o); auto j = m.find(q); CHECK(!!r == (j != m.end()), "find(%llx) = %d after the operation, model says %d", (unsigned long long)q, r, j != m.end()); if (r) CHECK(o == j->second, "find(%llx) gives %p, last stored %p", (unsigned long long)q, o, j->second); }
        if (big == 0 && i % 8 == 0) check_all(h, m, keys);
    }
    check_all(h, m, keys);
    if (h->n <= 4096) check_dump(h, m);
    // bucket count stays proportional to the most keys ever alive
    uint32_t mf = maxfill ? maxfill : 85; uint64_t n0 = size ? size : 128; uint64_t p2 = 1; while (p2 < n0) p2 *= 2;
    uint64_t bound = std::max<uint64_t>(p2, 2 * (100 * maxlive / mf + 1));
    CHECK(h->n <= bound * 2, "%llu buckets for at most %zu live keys (limit %llu)", (unsigned long long)h->n, maxlive, (unsigned long long)bound * 2);
    c.nontrivial(removes && after && maxlive >= 4);
    if (h->splits > splits0) c.label("grew"); if (removes) c.label("removed"); if (maxfill == 10000) c.label("no growth, long chains"); if (nk > 100) c.label("large");
    if (dyn) ht_del(h); else ht_fini(h);
    CHECK(mm.m.empty(), "%zu blocks still allocated after deletion", mm.m.size());
}

TARGET(churn, 1, "insert and remove the same generated keys in many rounds; live memory must stop growing; non-trivial: >=2 keys") {
    Mem mm; setup_salt(g);
    size_t nk = 1 + g.range(0, 60); auto keys = gen_keys(g, nk); uint32_t size = g.pick<uint32_t>({1, 2, 8, 64, 128}); uint32_t mf = g.pick<uint32_t>({0, 50, 85, 100, 10000});
    ht* h = ht_new(size, mf); TR("size=%u maxfill=%u %zu keys", size, mf, nk);
    std::set<uint64_t> u(keys.begin(), keys.end()); unsigned keepmod = (unsigned)g.range(1, 4); size_t at60 = 0; uint64_t n60 = 0;
    for (int round = 0; round < 160; round++) {
        for (uint64_t k : u) ht_probe(h, k, (void*)(k | 1));
        CHECK(h->nodes == u.size(), "round %d: count %llu, expected %zu", round, (unsigned long long)h->nodes, u.size());
        size_t i = 0; for (uint64_t k : u) { if (i++ % keepmod == 0) { void* v = 0; CHECK(ht_remove(h, k, &v) && v == (void*)(k | 1), "round %d: key %llx not removable", round, (unsigned long long)k); } }
        if (round == 60) { at60 = membytes; n60 = h->n; }
        CHECK(h->n <= 4096 + 64 * (uint64_t)size, "round %d: %llu buckets for %zu keys", round, (unsigned long long)h->n, u.size());
    }
    CHECK(membytes == at60, "memory grew from %zu to %zu bytes while the same %zu keys were inserted and removed (buckets %llu -> %llu)", at60, membytes, u.size(), (unsigned long long)n60, (unsigned long long)h->n);
    // bag use: a table with B buckets and N keys per bucket at most needs 1+N/7 bags each
    c.nontrivial(u.size() >= 2);
    ht_del(h);
    CHECK(mm.m.empty(), "%zu blocks still allocated after deletion", mm.m.size());
}

TARGET(density, 1, "fill a one-bucket table with generated keys: 7 elements share each chained array, before and after a growth; non-trivial: >=8 keys") {
    Mem mm; setup_salt(g);
    size_t nk = 1 + g.range(0, 120); auto keys = gen_keys(g, nk); std::set<uint64_t> u(keys.begin(), keys.end());
    ht* h = ht_new(1, 100000); size_t base = membytes;
    for (uint64_t k : u) ht_probe(h, k, (void*)k);
    size_t bags = (membytes - base) / sizeof(bag);
    TR("%zu keys in one bucket use %zu arrays", u.size(), bags);
    CHECK(bags <= (u.size() + 6) / 7, "%zu keys in one bucket take %zu arrays of 7", u.size(), bags);
    // removal frees the slots for reuse
    for (uint64_t k : u) CHECK(ht_remove(h, k, 0), "remove");
    size_t b2 = membytes; for (uint64_t k : u) ht_probe(h, k ^ 0x8000000000000000ull ? k ^ 0x8000000000000000ull : 5, (void*)k);
    CHECK(membytes == b2, "slots of removed keys are not reused: %zu -> %zu bytes", b2, membytes);
    c.nontrivial(u.size() >= 8);
    ht_del(h);
}
