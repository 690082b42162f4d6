//@ src: src/arena.c src/memmgr.c src/error.c
//@ wrap: malloc calloc free
//@ quick: 20
// C09: arenas.  Oracle: intervals and content patterns of every block handed out; all memory back on deletion.
#include "pbt.h"
#include "utils/arena.h"
#include <errno.h>
static long budget = -1; static bool rec; static std::map<uint8_t*, size_t>* regs;
extern "C" void* __real_malloc(size_t); extern "C" void* __real_calloc(size_t, size_t); extern "C" void __real_free(void*);
static bool deny(size_t n) { if (!rec) return false; if (n > (256u << 20)) return true; if (budget == 0) return true; if (budget > 0) budget--; return false; }
extern "C" void* __wrap_malloc(size_t n) { if (deny(n)) return nullptr; void* p = __real_malloc(n); if (rec) (*regs)[(uint8_t*)p] = n; return p; }
extern "C" void* __wrap_calloc(size_t a, size_t b) { if (deny(a * b)) return nullptr; void* p = __real_calloc(a, b); if (rec) (*regs)[(uint8_t*)p] = a * b; return p; }
extern "C" void __wrap_free(void* p) { if (rec && p) { auto it = regs->find((uint8_t*)p); CHECK(it != regs->end(), "%p freed twice or never allocated", p); regs->erase(it); } __real_free(p); }
struct Blk { uint8_t* p; size_t n; uint64_t tag; };
static uint8_t pat(uint64_t tag, size_t i) { return (uint8_t)(tag * 131 + i * 7 + (i >> 8)); }
static void fill(const Blk& b) { if (b.n > 70000) { for (size_t i = 0; i < 4096; i++) { b.p[i] = pat(b.tag, i); b.p[b.n - 1 - i] = pat(b.tag, b.n - 1 - i); } } else for (size_t i = 0; i < b.n; i++) b.p[i] = pat(b.tag, i); }
static void verify(const Blk& b) { auto ck = [&](size_t i) { if (b.p[i] != pat(b.tag, i)) FAIL("byte %zu of block %p (%zu bytes) changed", i, (void*)b.p, b.n); }; if (b.n > 70000) { for (size_t i = 0; i < 4096; i++) { ck(i); ck(b.n - 1 - i); } } else for (size_t i = 0; i < b.n; i++) ck(i); }

TARGET(histories, 5, "requests of mixed sizes (0 to several chunks, and impossible ones), string duplications, an allocator that can fail, then deletion; blocks carry patterns; non-trivial: >=5 blocks in >=2 chunks") {
    c.leakcheck = true; std::map<uint8_t*, size_t> R; regs = &R; budget = -1; rec = true; size_t chunk = g.pick<size_t>({64, 0, 1, 7, 8, 100, 1000, 4096, 33, (size_t)-1, (size_t)-32, 257}); arena_t a = (arena_t)1;
    if (g.chance(1, 6)) budget = (long)g.range(0, 6); int r = arena_new(&a, chunk);
    TR("arena_new(chunk=%zu) budget=%ld: %d", chunk, budget, r);
    if (r != 0) { CHECK((r == -ENOMEM || r == -EINVAL) && (budget == 0 || chunk > ((size_t)-1) / 64), "arena_new failed with %d", r); CHECK(R.empty(), "failed arena_new kept memory"); rec = false; c.label("no memory"); return; }
    std::vector<Blk> v; std::map<uint8_t*, size_t> iv; uint64_t tag = 1; size_t ops = 1 + g.size(80); size_t big = chunk && chunk < 100000 ? chunk : 3000; uint64_t total = 0;
    auto place = [&](uint8_t* p, size_t n) {
        CHECK(((uintptr_t)p & 7) == 0, "block %p is not 8-byte aligned", (void*)p);
        if (n) { auto it = iv.upper_bound(p); if (it != iv.end()) CHECK(p + n <= it->first, "block %p (%zu) overlaps %p", (void*)p, n, (void*)it->first); if (it != iv.begin()) { --it; CHECK(it->first + it->second <= p, "block %p overlaps %p (%zu)", (void*)p, (void*)it->first, it->second); } iv[p] = n;
            rec = false; auto q = R.upper_bound(p); CHECK(q != R.begin(), "block outside the arena's memory"); --q; CHECK(p + n <= q->first + q->second, "block %p+%zu runs past the arena's memory", (void*)p, n); rec = true; }
    };
    for (size_t i = 0; i < ops; i++) {
        switch (g.weighted({6, 3, 1, 2})) {
        case 0: case 1: { size_t n = g.flip() ? g.range(0, 64) : g.chance(1, 3) ? big - std::min(big, (size_t)g.range(0, 20)) + g.range(0, 20) : g.range(0, 3 * big); if (g.chance(1, 30)) n = 100000 + g.range(0, 200000); size_t before = R.size();
            uint8_t* p = (uint8_t*)arena_alloc(a, n); TR("alloc %zu -> %p", n, (void*)p); if (!p) { CHECK(budget == 0 || chunk > ((size_t)-1) / 64, "request for %zu bytes refused", n); CHECK(R.size() == before, "refused request kept memory"); c.label("refused"); if (budget == 0 && g.flip()) budget = 2; break; }
            rec = false; place(p, n); Blk b{p, n, tag++}; fill(b); v.push_back(b); total += n; rec = true; break; }
        case 2: { size_t n = g.flip() ? (size_t)-1 - g.range(0, 40) : ((size_t)1 << (40 + g.range(0, 23))) + g.range(0, 64); size_t before = R.size(); void* p = arena_alloc(a, n); TR("alloc %zu -> %p", n, p); CHECK(!p, "a request for %zu bytes was granted", n); CHECK(R.size() == before, "refused request kept memory"); break; }
        default: { std::string s = g.bytes(g.size(80)); for (auto& ch : s) if (!ch) ch = 'x'; rec = false; char* src = (char*)__real_malloc(s.size() + 1); memcpy(src, s.c_str(), s.size() + 1); rec = true; char* d = arena_strdup(a, src); __real_free(src); if (!d) { CHECK(budget == 0 || chunk > ((size_t)-1) / 64, "arena_strdup failed"); break; } rec = false; CHECK(!memcmp(d, s.c_str(), s.size() + 1), "copy differs from %s", pbt::show(s).c_str()); place((uint8_t*)d, s.size() + 1); Blk b{(uint8_t*)d, s.size() + 1, tag++}; fill(b); v.push_back(b); rec = true; TR("strdup of %zu characters", s.size()); }
        }
        rec = false; if (i % 10 == 9) for (auto& b : v) verify(b); rec = true;
    }
    rec = false; for (auto& b : v) verify(b); c.nontrivial(v.size() >= 5 && R.size() >= 3); rec = true;
    arena_delete(a); CHECK(R.empty(), "deleting the arena left %zu blocks allocated", R.size()); rec = false;
}
TARGET(as_memmgr, 1, "an arena used through the memory-manager interface; non-trivial: always") {
    c.leakcheck = true; rec = false; arena_t a; CHECK(arena_new(&a, g.range(0, 500)) == 0, "arena_new"); memmgr m; arena_memmgr(&m, a); std::vector<Blk> v; size_t n = 1 + g.size(30);
    for (size_t i = 0; i < n; i++) { size_t sz = 1 + g.range(0, 300); uint8_t* p = (uint8_t*)m.alloc(m.context, sz); CHECK(p, "refused"); Blk b{p, sz, i}; fill(b); v.push_back(b); if (g.flip() && v.size() > 1) { size_t j = g.range(0, v.size() - 2); m.free(m.context, v[j].p); } }
    for (auto& b : v) verify(b); arena_delete(a); CHECK(arena_new(nullptr, 5) == -EINVAL, "NULL result pointer accepted"); c.nontrivial(true);
}
