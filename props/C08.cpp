//@ src: src/mempool.c
//@ quick: 20
// C08: fixed-size pools.  Oracle: address intervals of the backing memory and of live blocks, content patterns, counts.
#include <algorithm>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "pbt.h"
#include <new>
#include <utility>
#include <errno.h>
#include "utils/mempool.h"

struct Back { std::map<uint8_t*, size_t> regs; long budget = -1; uint64_t allocs = 0, frees = 0, big = 0; };
static void* back_alloc(void* x, size_t n) { Back* b = (Back*)x; if (b->budget == 0 || n > (64u << 20)) { b->big += n > (64u << 20); return nullptr; } if (b->budget > 0) b->budget--; uint8_t* p = (uint8_t*)malloc(n); memset(p, 0xC3, n); b->regs[p] = n; b->allocs++; return p; }
static void back_free(void* x, void* p) { Back* b = (Back*)x; auto it = b->regs.find((uint8_t*)p); CHECK(it != b->regs.end(), "backing memory %p released twice or never obtained", p); b->regs.erase(it); b->frees++; free(p); }

struct Blk { uint8_t* p; uint64_t tag; };
struct Pool {
    mempool* a; size_t req; size_t bs; std::vector<Blk> live; std::map<uint8_t*, size_t> iv; Back* back; uint8_t* lo = nullptr; uint8_t* hi = nullptr; uint64_t serial = 1; std::set<uint8_t*> seen;
    void paint(Blk& b) { uint64_t s = b.tag * 0x9E3779B97F4A7C15ull; for (size_t i = 0; i < bs; i++) { b.p[i] = (uint8_t)(s >> (8 * (i & 7))); if ((i & 7) == 7) s = s * 6364136223846793005ull + 1; } }
    void verify(const Blk& b) const { uint64_t s = b.tag * 0x9E3779B97F4A7C15ull; for (size_t i = 0; i < bs; i++) { if (b.p[i] != (uint8_t)(s >> (8 * (i & 7)))) FAIL("byte %zu of live block %p changed", i, (void*)b.p); if ((i & 7) == 7) s = s * 6364136223846793005ull + 1; } }
    bool alloc() {
        uint8_t* p = (uint8_t*)mempool_alloc(a); if (!p) return false;
        CHECK(((uintptr_t)p & 7) == 0, "block %p is not 8-byte aligned", (void*)p);
        auto it = iv.upper_bound(p); if (it != iv.end()) CHECK(p + bs <= it->first, "block %p overlaps live block %p", (void*)p, (void*)it->first);
        if (it != iv.begin()) { --it; CHECK(it->first + bs <= p, "block %p overlaps live block %p", (void*)p, (void*)it->first); }
        if (back) { auto r = back->regs.upper_bound(p); CHECK(r != back->regs.begin(), "block %p lies outside the pool's memory", (void*)p); --r; CHECK(p >= r->first && p + bs <= r->first + r->second, "block %p+%zu lies outside the pool's memory", (void*)p, bs); }
        else if (lo) CHECK(p >= lo && p + bs <= hi, "block %p+%zu lies outside the caller's memory [%p,%p)", (void*)p, bs, (void*)lo, (void*)hi);
        Blk b{p, serial++}; paint(b); live.push_back(b); iv[p] = bs; seen.insert(p); return true;
    }
    void release(size_t i) { verify(live[i]); uint8_t* p = live[i].p; iv.erase(p); live[i] = live.back(); live.pop_back(); mempool_free(a, p); }
    void verify_all() { for (auto& b : live) verify(b); }
};
static void run(pbt::Src& g, pbt::Ctx& c, Pool& P, uint64_t limit, size_t maxlive, bool canfail) {
    size_t ops = 5 + g.size(300); unsigned wa = 2 + (unsigned)g.range(0, 8), wf = 1 + (unsigned)g.range(0, 8); uint64_t frees = 0, reuse = 0, refused = 0;
    for (size_t i = 0; i < ops; i++) {
        if (P.live.size() < maxlive && (P.live.empty() || g.weighted({wa, wf}) == 0)) {
            size_t before = P.seen.size(); uint64_t ba = P.back ? P.back->allocs : 0; bool spare = P.live.size() < P.seen.size(); // a freed block exists
            bool ok = P.alloc(); TR("alloc -> %d (%zu live)", ok, P.live.size());
            if (spare) { CHECK(ok, "allocation refused although a freed block is available"); if (P.back) CHECK(P.back->allocs == ba, "new memory was requested although a freed block is available"); }
            if (ok && P.seen.size() == before) reuse++;
            if (limit) { if (ok) CHECK(P.live.size() <= limit, "%zu blocks are live in a pool limited to %llu", P.live.size(), (unsigned long long)limit); else CHECK(P.live.size() == limit, "refused with %zu live blocks of %llu", P.live.size(), (unsigned long long)limit); }
            else if (!ok) CHECK(canfail && P.back && (P.back->budget == 0), "unlimited pool refused although memory is available");
            if (!ok) { refused++; if (P.back && P.back->budget == 0 && g.flip()) P.back->budget = 1 + (long)g.range(0, 2); }
        } else if (!P.live.empty()) { size_t j = g.range(0, P.live.size() - 1); TR("free %p", (void*)P.live[j].p); P.release(j); frees++; }
        if ((i & 15) == 15) P.verify_all();
    }
    P.verify_all(); if (refused) c.label("refusals"); if (reuse) c.label("reuse");
    c.nontrivial(frees >= 3 && reuse > 0);
    // exhaust
    if (limit && limit <= maxlive) { while (P.live.size() < limit) CHECK(P.alloc(), "only %zu of %llu blocks can be had", P.live.size(), (unsigned long long)limit); CHECK(!mempool_alloc(P.a), "block %llu of a pool limited to %llu", (unsigned long long)limit + 1, (unsigned long long)limit); P.verify_all();
        // free all, then all can be had again
        if (g.flip()) { while (!P.live.empty()) P.release(g.range(0, P.live.size() - 1)); std::set<uint8_t*> s; while (P.live.size() < limit) CHECK(P.alloc(), "only %zu of %llu blocks come back", P.live.size(), (unsigned long long)limit); CHECK(!mempool_alloc(P.a), "more blocks than the limit after freeing all"); } }
}
static size_t gen_bs(pbt::Src& g) { return g.chance(1, 3) ? g.range(0, 40) : g.pick<size_t>({8, 16, 1, 7, 17, 24, 31, 64, 100, 255, 4096, 33}); }

TARGET(backed, 6, "alloc/free history of a pool over a recording backing allocator that can fail, any block size, limit and chunk granularity; live blocks carry patterns; non-trivial: >=3 frees and a freed block handed out again") {
    c.leakcheck = true; Back B; Pool P; P.back = &B; memmgr tr; tr.alloc = back_alloc; tr.free = back_free; tr.context = &B;
    size_t bs = gen_bs(g); uint64_t max = g.chance(1, 2) ? 0 : 1 + g.size(60); uint64_t units = g.pick<uint64_t>({1, 0, 2, 3, 7, 16, 64}); bool dyn = g.flip(), dflt = g.chance(1, 8);
    if (g.chance(1, 6)) B.budget = (long)g.range(0, 3); else if (g.chance(1, 3)) B.budget = 4 + (long)g.range(0, 4);
    if (bs > 200 && units == 0) units = 4;
    mempool st; mempool* a = (mempool*)0x1234; int r; if (dflt) P.back = nullptr;
    r = dyn ? mempool_new(&a, dflt ? nullptr : &tr, (unsigned)bs, (unsigned)max, (unsigned)units) : mempool_init(&st, dflt ? nullptr : &tr, (unsigned)bs, (unsigned)max, (unsigned)units);
    TR("%s block=%zu max=%llu units=%llu budget=%ld%s: %d", dyn ? "new" : "init", bs, (unsigned long long)max, (unsigned long long)units, B.budget, dflt ? " (libc)" : "", r);
    if (r != 0) { CHECK(r == -ENOMEM && !dflt && B.budget == 0, "constructor failed with %d although memory was available", r); CHECK(B.regs.empty(), "failed constructor kept memory"); CHECK(!dyn || a == (mempool*)0x1234 || !a, "failed constructor returned a pool"); c.label("constructor out of memory"); return; }
    P.a = dyn ? a : &st; P.req = bs; P.bs = mempool_block_size(P.a); CHECK(P.bs >= bs && P.bs <= (bs < 16 ? 16 : bs) + 16, "block size %zu for a request of %zu", P.bs, bs); CHECK(mempool_total_blocks(P.a) == max, "limit reported as %u, not %llu", mempool_total_blocks(P.a), (unsigned long long)max);
    uint64_t a0 = B.allocs;
    run(g, c, P, max, 200, true);
    if (max) CHECK(B.allocs == a0, "a limited pool asked for more memory");
    else if (!dflt) { uint64_t want = units ? units : 4096; CHECK(B.allocs - a0 + 1 == std::max<uint64_t>(1, (P.seen.size() + want - 1) / want), "%zu blocks in chunks of %llu took %llu chunks", P.seen.size(), (unsigned long long)want, (unsigned long long)(B.allocs - a0 + 1)); }
    if (dyn) mempool_delete(P.a); else mempool_fini(P.a);
    CHECK(B.regs.empty(), "deleting the pool left %zu pieces of backing memory", B.regs.size());
    if (!max && P.seen.size() > (units ? units : 4096)) c.label("several chunks");
}
TARGET(caller_memory, 3, "pool inside caller-supplied memory of any size and alignment, exact and too small areas included: hands out exactly the blocks it reports, touches nothing outside; non-trivial: >=3 frees and reuse") {
    c.leakcheck = true; size_t bs = gen_bs(g); if (bs > 300) bs = 300; size_t mis = g.range(0, 15); bool neu = g.flip(); size_t need = sizeof(mempool) * neu + 24 + 8; size_t sz = g.chance(1, 3) ? 1 + g.range(0, need + 2 * bs + 40) : need + g.range(0, 60 * (bs + 16));
    uint8_t* base = (uint8_t*)malloc(sz + mis); memset(base, 0x5C, sz + mis); uint8_t* m = base + mis; // ASan guards the end
    mempool st; mempool* a = (mempool*)0x1234; int r = neu ? mempool_new_from_mem(&a, (unsigned)bs, m, (unsigned)sz) : mempool_init_from_mem(&st, (unsigned)bs, m, (unsigned)sz);
    TR("%s block=%zu memory of %zu bytes at offset %zu: %d", neu ? "new_from_mem" : "init_from_mem", bs, sz, mis, r);
    size_t real = ((bs < 16 ? 16 : bs) + 7) & ~(size_t)7;
    if (r != 0) { CHECK(r == -ENOMEM, "error %d", r); CHECK(sz < need + real + 16 + 8, "%zu bytes were refused for blocks of %zu", sz, bs); for (size_t i = 0; i < mis; i++) CHECK(base[i] == 0x5C, "byte before the area changed"); c.label("too small"); free(base); return; }
    Pool P; P.back = nullptr; P.a = neu ? a : &st; P.req = bs; P.bs = mempool_block_size(P.a); CHECK(P.bs >= bs, "block size %zu for a request of %zu", P.bs, bs); P.lo = m; P.hi = m + sz;
    uint64_t tot = mempool_total_blocks(P.a); CHECK(tot >= 1, "no blocks in a pool that was created"); CHECK(tot * P.bs <= sz, "reports more blocks than fit"); CHECK((tot + 1) * P.bs > sz - std::min(sz, sizeof(mempool) + 24 + 32), "reports only %llu blocks of %zu in %zu bytes", (unsigned long long)tot, P.bs, sz);
    run(g, c, P, tot, 200, false);
    for (size_t i = 0; i < mis; i++) CHECK(base[i] == 0x5C, "byte before the area changed");
    if (neu) mempool_delete(P.a); else mempool_fini(P.a);
    free(base);
}
struct Obj { static int alive; uint64_t v; char pad[20]; explicit Obj(uint64_t x = 7) : v(x) { alive++; } ~Obj() { alive--; } }; int Obj::alive;
TARGET(cxx_and_stacked, 1, "the C++ wrapper (construction, destruction, bad_alloc at the limit), a pool used as another's memory manager, impossible parameters; non-trivial: >=2 objects") {
    c.leakcheck = true; Obj::alive = 0;
    { int max = (int)g.range(0, 20); putils::Mempool<Obj> P(max, (int)g.range(1, 5)); std::vector<Obj*> v; size_t ops = g.size(60); uint64_t s = 0; std::vector<uint64_t> val;
      for (size_t i = 0; i < ops; i++) { if (v.empty() || g.range(0, 2)) { Obj* o = nullptr; try { o = P.Alloc(s); } catch (std::bad_alloc&) { } if (!o) { CHECK(max && v.size() == (size_t)max, "bad_alloc with %zu objects, limit %d", v.size(), max); continue; } CHECK(!max || v.size() < (size_t)max, "limit %d exceeded", max); CHECK(o->v == s, "object not constructed"); v.push_back(o); val.push_back(s++); } else { size_t j = g.range(0, v.size() - 1); CHECK(v[j]->v == val[j], "object changed"); P.Free(v[j]); v.erase(v.begin() + (long)j); val.erase(val.begin() + (long)j); } CHECK(Obj::alive == (int)v.size(), "%d objects alive, %zu handed out", Obj::alive, v.size()); }
      c.nontrivial(s >= 2); while (!v.empty()) { P.Free(v.back()); v.pop_back(); } CHECK(Obj::alive == 0, "objects not destroyed"); CHECK(P.Blocksize() >= sizeof(Obj) && P.Totalblocks() == (unsigned)max, "wrapper reports %u/%u", P.Blocksize(), P.Totalblocks()); }
    { Back B; memmgr tr; tr.alloc = back_alloc; tr.free = back_free; tr.context = &B; mempool lo; unsigned bs = (unsigned)(64 + g.range(0, 400)); CHECK(mempool_init(&lo, &tr, bs, 0, 4) == 0, "init failed"); memmgr m2; CHECK(mempool_make_memmgr(&m2, &lo) == &m2, "make_memmgr"); unsigned units = (mempool_block_size(&lo) - 40) / 16; if (units < 1) units = 1; mempool hi; CHECK(mempool_init(&hi, &m2, 16, 0, units) == 0, "init over a stacked pool failed"); std::set<void*> s; for (int i = 0; i < 40; i++) { void* p = mempool_alloc(&hi); CHECK(p && s.insert(p).second, "stacked pool repeats a block"); memset(p, i, 16); } mempool_fini(&hi); mempool_fini(&lo); CHECK(B.regs.empty(), "stacked pools left memory"); }
    // impossible sizes fail, nothing is kept
    { Back B; memmgr tr; tr.alloc = back_alloc; tr.free = back_free; tr.context = &B; mempool st; unsigned bs = ~0u - (unsigned)g.range(0, 20); int r = mempool_init(&st, &tr, bs, (unsigned)g.range(0, 3), (unsigned)g.range(0, 3)); CHECK(r < 0, "a pool of %u-byte blocks was created", bs); char mem[600]; r = mempool_init_from_mem(&st, bs, mem, sizeof mem); CHECK(r < 0, "a pool of %u-byte blocks fits in 600 bytes", bs); CHECK(B.regs.empty(), "failed init kept memory"); memmgr bad = tr; bad.alloc = nullptr; CHECK(mempool_init(&st, &bad, 16, 0, 0) == -EINVAL && mempool_init(nullptr, &tr, 16, 0, 0) == -EINVAL, "bad arguments accepted"); }
}
// chunks beyond 4 GB (unknown to the sanitizer, which would shadow them), over an allocator that only reserves addresses
struct Huge { std::vector<std::pair<uint8_t*, size_t>> r; };
static void* huge_alloc(void* x, size_t n) { Huge* h = (Huge*)x; if (h->r.size() >= 3) return nullptr; void* p = (void*)syscall(SYS_mmap, nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0L); if (p == MAP_FAILED) return nullptr; h->r.push_back({(uint8_t*)p, n}); return p; }
static void huge_free(void* x, void* p) { Huge* h = (Huge*)x; for (auto i = h->r.begin(); i != h->r.end(); ++i) if (i->first == p) { syscall(SYS_munmap, p, i->second); h->r.erase(i); return; } FAIL("memory that was not obtained is freed"); }
TARGET(huge, 1, "a pool whose chunks exceed 4 GB: a chunk has room for all its blocks and those handed out lie within it, apart; non-trivial: the blocks of a chunk take 4 GB or more") {
    Huge h; memmgr tr; tr.alloc = huge_alloc; tr.free = huge_free; tr.context = &h; unsigned bs = (unsigned)((1ull << g.range(4, 16)) + g.range(0, 16) * 8); uint64_t u = (1ull << g.range(30, 34)) / bs + g.range(0, 3); unsigned units = (unsigned)u; bool lim = g.flip(); mempool a;
    TR("%u blocks of %u bytes to a chunk%s", units, bs, lim ? ", no more" : ""); int r = mempool_init(&a, &tr, bs, lim ? units : 0, lim ? 0 : units);
    if (r < 0) { CHECK(h.r.empty(), "a failed creation keeps memory"); c.discard = true; return; } // no address space
    CHECK(h.r.size() == 1 && h.r[0].second >= (uint64_t)bs * units, "a chunk of %zu bytes", h.r.size() ? h.r[0].second : 0);
    std::vector<uint8_t*> got;
    for (unsigned i = 0; i < 5; i++) { uint8_t* p = (uint8_t*)mempool_alloc(&a); CHECK(p && p >= h.r[0].first && p + bs <= h.r[0].first + h.r[0].second, "block %u is not within the memory obtained", i); for (uint8_t* q : got) CHECK((p > q ? p - q : q - p) >= (long)bs, "two blocks overlap"); memset(p, (int)i, bs); got.push_back(p); }
    mempool_fini(&a); CHECK(h.r.empty(), "%zu areas are kept", h.r.size()); c.nontrivial((uint64_t)bs * units >= 1ull << 32);
}
