//@ src: src/hashtable/bloom.c src/hashtable/bloom_marshal.c src/hashtable/xorfilter.c src/hashtable/xorfilter_marshal.c src/humanize.c src/strcopy.c
//@ wrap: getentropy mmap munmap open fstat malloc calloc realloc strdup posix_memalign aligned_alloc
//@ libs: -lm -lsodium
//@ quick: 25
// C06: saved filters reload identically, or are rejected.
#include "bloom_common.h"
#define XOR_NO_GETENTROPY
#include "xor_common.h"
#include "filt_file.h"
#include <sodium.h>
#include "oom.h"

static std::map<void*, size_t> maps;
extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t); extern "C" int __real_munmap(void*, size_t);
static int fl_what = -1, fl_errno; static bool fl_hit; // which call of a reload fails: 0 open, 1 fstat, 2 mmap
static bool fail_now(int w) { if (fl_what != w) return false; fl_hit = true; errno = fl_errno; return true; }
extern "C" int __real_open(const char*, int, ...); extern "C" int __real_fstat(int, struct stat*);
extern "C" int __wrap_open(const char* p, int f, ...) { va_list ap; va_start(ap, f); int m = va_arg(ap, int); va_end(ap); if (fail_now(0)) return -1; return __real_open(p, f, m); }
extern "C" int __wrap_fstat(int fd, struct stat* st) { if (fail_now(1)) { memset(st, 0x5a, sizeof *st); return -1; } return __real_fstat(fd, st); }
extern "C" void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) { if (fd >= 0 && fail_now(2)) return MAP_FAILED; void* r = __real_mmap(a, n, p, f, fd, o); if (r != MAP_FAILED && fd >= 0) maps[r] = n; return r; }
extern "C" int __wrap_munmap(void* a, size_t n) {
    auto it = maps.find(a); if (it != maps.end()) { size_t pg = 4096; CHECK((it->second + pg - 1) / pg == (n + pg - 1) / pg, "mapping of %zu bytes is unmapped as %zu", it->second, n); maps.erase(it); }
    else FAIL("munmap(%p, %zu) of something that is not mapped", a, n);
    return __real_munmap(a, n);
}
struct World { int fd0; World() { maps.clear(); fd0 = lowfd(); } void done() { CHECK(maps.empty(), "%zu file mapping(s) left behind", maps.size()); int f = lowfd(); CHECK(f == fd0, "file descriptor leaked"); } };

static std::string path(const char* n) { return pbt::scratch() + "/" + n; }

static Bloom* gen_bloom(pbt::Src& g, std::vector<uint64_t>& keys, int* ptyp, std::map<uint64_t, int>* live) {
    bl_fixed = false; bl_salt = g.u(); int typ = (int)g.range(0, 2); *ptyp = typ; uint64_t n = g.pick<uint64_t>({8, 1, 2, 3, 5, 16, 40, 100, 500}); double e = g.pick<double>({0.01, 0.005, 0.5, 0.1, 0.25, 0.9, 0.001, 1e-4, 0.49, 1e-6}); bool large = g.chance(1, 200); if (large) n = 500 + g.big(60000);
    keys = bl_keys(g, 1 + g.range(0, 40)); Bloom* b = bl_make(typ, n, e, nullptr); CHECK(b, "constructor returned NULL");
    size_t ops = g.size(60); GTR("%s bloom n=%llu e=%g, %zu operations", btypname[typ], (unsigned long long)n, e, ops);
    for (size_t i = 0; i < ops; i++) { uint64_t k = g.pick(keys); if (typ == B_CNT && g.chance(1, 4) && (*live)[k]) { Bloom_remove(b, k); (*live)[k]--; } else { Bloom_probe(b, k); (*live)[k]++; } }
    if (large) { uint64_t m = g.range(0, typ == B_SCALE ? 3 * n : n), at = g.u(32); for (uint64_t i = 0; i < m; i++) { uint64_t k = at + i * 7919; Bloom_probe(b, k); (*live)[k]++; } }
    if (typ == B_SCALE && g.chance(1, 3)) { size_t m = 1 + g.range(0, 40 * (n < 20 ? n : 20)); for (size_t i = 0; i < m; i++) { uint64_t k = i * 7919; Bloom_probe(b, k); (*live)[k]++; } }
    return b;
}
static void same_answers(Bloom* a, Bloom* b, const std::vector<uint64_t>& keys, uint64_t base, const char* what) {
    for (uint64_t k : keys) CHECK(!!Bloom_find(a, k) == !!Bloom_find(b, k), "%s: query %llx differs from the original", what, (unsigned long long)k);
    for (uint64_t i = 0; i < 200; i++) CHECK(!!Bloom_find(a, base + i) == !!Bloom_find(b, base + i), "%s: query %llx differs from the original", what, (unsigned long long)(base + i));
}
TARGET(bloom_roundtrip, 4, "save a generated filter, reload it copied and mapped: equal answers, parameters, element counts and re-saved bytes; keep updating the copy; non-trivial: >=1 element") {
    c.leakcheck = true; World w; std::vector<uint64_t> keys; int typ; std::map<uint64_t, int> live;
    Bloom* b = gen_bloom(g, keys, &typ, &live); std::string f = path("a"), f2 = path("b"); uint64_t base = g.u();
    if (g.flip()) wrfile(f, g.bytes(g.size(9000)));
    int r = Bloom_marshal(b, f.c_str()); CHECK(r == 0, "save failed: %d", r);
    auto ls = lsdir(pbt::scratch()); for (auto& n : ls) CHECK(n == "a" || n == "b", "stray file %s after saving", n.c_str());
    std::string img = rdfile(f); CHECK(!maps.size(), "save left %zu mappings", maps.size());
    BlDesc d0 = bl_parse(b);
    for (int mm = 0; mm < 2; mm++) {
        Bloom* o = nullptr; r = Bloom_unmarshal(&o, f.c_str(), mm ? BLOOM_BITMAP_MMAP : 0); CHECK(r == 0 && o, "reload (%s) failed: %d", mm ? "mapped" : "copied", r);
        if (mm && g.flip()) { unlink(f.c_str()); c.label("file unlinked under a mapping"); }
        CHECK(o->n == b->n && o->e == b->e && o->typ == b->typ, "reloaded filter reports n=%llu e=%g type=%d, original n=%llu e=%g type=%d", (unsigned long long)o->n, o->e, o->typ, (unsigned long long)b->n, b->e, b->typ);
        CHECK(!strcmp(Bloom_name(o), Bloom_name(b)), "name %s, original %s", Bloom_name(o), Bloom_name(b));
        CHECK(Bloom_eq(b, o) && Bloom_eq(o, b), "reloaded filter (%s) is not equal to the original", mm ? "mapped" : "copied");
        same_answers(b, o, keys, base, mm ? "mapped" : "copied");
        for (auto& kv : live) if (kv.second > 0) CHECK(Bloom_find(o, kv.first), "element %llx lost by save and reload", (unsigned long long)kv.first);
        BlDesc d = bl_parse(o); CHECK(d.elems == d0.elems && d.levels == d0.levels && d.k == d0.k && d.m == d0.m && d.el == d0.el, "description after reload: %s", bl_desc(o).c_str());
        r = Bloom_marshal(o, f2.c_str()); CHECK(r == 0, "saving the reloaded filter failed: %d", r);
        CHECK(rdfile(f2) == img, "a reloaded filter saves to different bytes");
        if (!mm) { // go on updating both alike
            size_t m = g.size(40); uint64_t s = bl_salt;
            for (size_t i = 0; i < m; i++) { uint64_t k = g.pick(keys); bool rem = typ == B_CNT && live[k] > 0 && g.chance(1, 3); if (rem) { CHECK(!!Bloom_remove(o, k), "cannot remove %llx from the reloaded filter", (unsigned long long)k); live[k]--; bl_salt = s; Bloom_remove(b, k); } else { uint64_t s0 = bl_salt; Bloom_probe(o, k); uint64_t s1 = bl_salt; bl_salt = s0; Bloom_probe(b, k); bl_salt = s1; live[k]++; } }
            for (auto& kv : live) if (kv.second > 0) CHECK(Bloom_find(o, kv.first), "element %llx lost while updating a reloaded filter", (unsigned long long)kv.first);
            if (typ != B_SCALE) { CHECK(Bloom_eq(b, o), "original and reloaded filter differ after the same updates"); same_answers(b, o, keys, base, "updated copy"); }
            uint64_t tot = 0; for (auto& kv : live) tot += (uint64_t)kv.second; CHECK(bl_parse(o).elems == tot, "updated copy counts %llu elements of %llu", (unsigned long long)bl_parse(o).elems, (unsigned long long)tot);
            if (m) { // restore the file to the state of b for the mapped round
                r = Bloom_marshal(b, f.c_str()); CHECK(r == 0, "save failed: %d", r); img = rdfile(f); d0 = bl_parse(b);
            }
        }
        Bloom_delete(o);
    }
    c.nontrivial(d0.elems > 0); c.label(btypname[typ]);
    Bloom_delete(b); unlink(f.c_str()); unlink(f2.c_str()); w.done();
}
TARGET(xor_roundtrip, 2, "save a generated xor filter, reload it copied and mapped, compare answers, size and re-saved bytes; non-trivial: >=2 keys") {
    c.leakcheck = true; World w; bl_fixed = false; bl_salt = g.u(); size_t n = 1 + (g.chance(1, 80) ? g.big(120000) : g.chance(1, 8) ? g.range(0, 5000) : g.range(0, 60)); auto ks = xr_keys(g, n); n = ks.size(); bool w16 = g.flip(); uint64_t base = g.u();
    TR("xor%d of %zu keys", w16 ? 16 : 8, n);
    Xorfilter* x = w16 ? Xorfilter_new16(ks.data(), n) : Xorfilter_new8(ks.data(), n); CHECK(x, "no filter");
    std::string f = path("a"), f2 = path("b"); int r = Xorfilter_marshal(x, f.c_str()); CHECK(r == 0, "save failed: %d", r); CHECK(lsdir(pbt::scratch()).size() == 1, "stray files after saving"); std::string img = rdfile(f); CHECK(maps.empty(), "save left a mapping");
    for (int mm = 0; mm < 2; mm++) {
        Xorfilter* o = nullptr; r = Xorfilter_unmarshal(&o, f.c_str(), mm ? XORFILTER_MMAP : 0); CHECK(r == 0 && o, "reload (%s) failed: %d", mm ? "mapped" : "copied", r);
        if (mm) unlink(f.c_str());
        for (uint64_t k : ks) CHECK(Xorfilter_contains(o, k), "key %llx lost by save and reload", (unsigned long long)k);
        for (uint64_t i = 0; i < 2000; i++) CHECK(!!Xorfilter_contains(o, base + i) == !!Xorfilter_contains(x, base + i), "foreign query %llx differs after reload", (unsigned long long)(base + i));
        CHECK(Xorfilter_bpe(o) == Xorfilter_bpe(x), "size differs after reload");
        r = Xorfilter_marshal(o, f2.c_str()); CHECK(r == 0 && rdfile(f2) == img, "a reloaded filter saves to different bytes (%d)", r);
        Xorfilter_delete(o);
    }
    c.nontrivial(n >= 2); c.label(w16 ? "16-bit" : "8-bit");
    Xorfilter_delete(x); unlink(f2.c_str()); w.done();
}
static std::string saved(pbt::Src& g, pbt::Ctx& c, bool* isbloom, int* typ) {
    std::string f = path("a"); *isbloom = g.weighted({2, 1}) == 0; int r;
    if (*isbloom) { std::vector<uint64_t> keys; std::map<uint64_t, int> live; Bloom* b = gen_bloom(g, keys, typ, &live); r = Bloom_marshal(b, f.c_str()); Bloom_delete(b); }
    else { bl_salt = g.u(); size_t n = 1 + g.range(0, 60); auto ks = xr_keys(g, n); *typ = (int)g.range(0, 1); Xorfilter* x = *typ ? Xorfilter_new16(ks.data(), ks.size()) : Xorfilter_new8(ks.data(), ks.size()); CHECK(x, "no filter"); r = Xorfilter_marshal(x, f.c_str()); Xorfilter_delete(x); TR("xor filter of %zu keys", ks.size()); }
    CHECK(r == 0, "save failed: %d", r);
    return rdfile(f);
}
static void* const SENT = (void*)0x1234;
static int reload(bool isbloom, bool mm, void** p) { std::string f = path("a"); *p = SENT; return isbloom ? Bloom_unmarshal((Bloom**)p, f.c_str(), mm ? BLOOM_BITMAP_MMAP : 0) : Xorfilter_unmarshal((Xorfilter**)p, f.c_str(), mm ? XORFILTER_MMAP : 0); }
TARGET(corrupted, 5, "alter (flip bits, overwrite, truncate, extend, remove or repeat a span of) a saved file; reloading must fail with a negative error and no resources kept; non-trivial: the bytes really differ") {
    c.leakcheck = true; World w; bool isb; int typ; std::string img = saved(g, c, &isb, &typ), bad = img;
    unsigned k = (unsigned)g.weighted({4, 2, 3, 2, 1, 1, 1, 1}); size_t n = bad.size();
    auto pos = [&]() -> size_t { switch (g.weighted({2, 3, 1, 1})) { case 0: return g.range(0, n - 1); case 1: return g.range(0, std::min<size_t>(n - 1, 200)); case 2: return n - 1 - g.range(0, std::min<size_t>(n - 1, 40)); default: return std::min<size_t>(n - 1, 4096 + g.range(0, 40)); } };
    switch (k) {
    case 0: { size_t m = 1 + g.size(3); for (size_t i = 0; i < m; i++) { size_t p = pos(); unsigned bit = (unsigned)g.range(0, 7); bad[p] = (char)(bad[p] ^ (1 << bit)); TR("flip bit %u of byte %zu", bit, p); } break; }
    case 1: { size_t p = pos(), l = 1 + g.size(16); for (size_t i = p; i < std::min(n, p + l); i++) bad[i] = (char)g.u(8); TR("overwrite %zu bytes at %zu", l, p); break; }
    case 2: { size_t l = g.flip() ? g.range(0, n - 1) : n - 1 - g.range(0, std::min<size_t>(n - 1, 70)); bad.resize(l); TR("truncate to %zu of %zu", l, n); break; }
    case 3: { size_t l = 1 + g.size(5000); bad += g.flip() ? std::string(l, 0) : g.bytes(l); TR("extend by %zu", l); break; }
    case 4: { size_t p = pos(), l = 1 + g.range(0, n - p - 1); bad.erase(p, l); TR("remove %zu bytes at %zu", l, p); break; }
    case 5: { size_t p = pos(), l = 1 + g.range(0, std::min<size_t>(n - p - 1, 64)); bad.insert(p, bad.substr(p, l)); TR("repeat %zu bytes at %zu", l, p); break; }
    case 6: { size_t p = n - 32 + g.range(0, 31); bad[p] = (char)(bad[p] + 1 + g.range(0, 253)); TR("alter checksum byte %zu", p); break; }
    default: { size_t l = g.flip() ? g.size(200) : g.size(9000); bad = g.bytes(l); if (l > 8 && g.flip()) bad.replace(0, 8, img.substr(0, 8)); TR("garbage of %zu bytes", l); break; }
    }
    if (bad == img) { c.discard = true; unlink(path("a").c_str()); return; }
    wrfile(path("a"), bad);
    for (int mm = 0; mm < 2; mm++) {
        void* p; int r = reload(isb, mm, &p);
        CHECK(r < 0, "an altered %s filter file (%zu of %zu bytes) was accepted: %d", isb ? "Bloom" : "xor", bad.size(), img.size(), r);
    }
    c.nontrivial(true); c.label(isb ? "bloom" : "xor"); unlink(path("a").c_str()); w.done();
}
TARGET(nomem, 1, "reload a Bloom filter, copied, without the memory for one of its bitmaps: -ENOMEM as documented, nothing is kept, the caller's pointer is untouched; then it reloads; non-trivial: an allocation failed") {
    c.leakcheck = true; World w; bl_fixed = false; bl_salt = g.u(); int typ = (int)g.range(0, 2); uint64_t n = 2500 + g.range(0, 3000); double e = g.pick<double>({0.01, 0.1, 0.001}); Bloom* b = bl_make(typ, n, e, nullptr); CHECK(b, "constructor returned NULL");
    uint64_t m = g.range(0, typ == B_SCALE ? 2 * n : n), at = g.u(32); for (uint64_t i = 0; i < m; i++) Bloom_probe(b, at + i * 7919);
    std::string f = path("a"); int r = Bloom_marshal(b, f.c_str()); CHECK(r == 0, "save failed: %d", r); int k = (int)g.range(0, typ == B_SCALE ? 2 : 0); Bloom* o = (Bloom*)SENT; TR("%s bloom n=%llu e=%g, %llu elements; allocation %d fails", btypname[typ], (unsigned long long)n, e, (unsigned long long)m, k);
    { Oom oo(k, 2048); r = Bloom_unmarshal(&o, f.c_str(), 0); }
    if (oom_hit) { CHECK(r == -ENOMEM, "reloading without memory returned %d", r); CHECK((void*)o == SENT, "the caller's pointer was changed by a failed load"); CHECK(maps.empty(), "a failed load leaves a mapping"); r = Bloom_unmarshal(&o, f.c_str(), 0); }
    CHECK(r == 0, "reload failed: %d", r); CHECK(Bloom_eq(b, o), "the reloaded filter differs"); for (uint64_t i = 0; i < m; i++) CHECK(Bloom_find(o, at + i * 7919), "an element was lost");
    c.nontrivial(oom_hit); Bloom_delete(o); Bloom_delete(b); unlink(f.c_str()); w.done();
}
TARGET(unreadable, 1, "reload a good or altered file while opening, examining or mapping it fails, or from a path that is absent, a directory, a pipe end, empty or too long: that error is returned, nothing is kept and the caller's pointer is untouched; then the good file still reloads; non-trivial: always") {
    c.leakcheck = true; World w; bool isb; int typ; std::string img = saved(g, c, &isb, &typ), f = path("a"); bool mm = g.flip(); void* p = SENT; int r, want; unsigned k = (unsigned)g.weighted({4, 1, 1, 1, 1}); const char* what = isb ? "Bloom" : "xor";
    auto from = [&](const std::string& q) { p = SENT; errno = (int)g.range(0, 1) * 77; return isb ? Bloom_unmarshal((Bloom**)&p, q.c_str(), mm ? BLOOM_BITMAP_MMAP : 0) : Xorfilter_unmarshal((Xorfilter**)&p, q.c_str(), mm ? XORFILTER_MMAP : 0); };
    if (k == 0) { if (g.chance(1, 3)) { std::string bad = img; bad[g.range(0, bad.size() - 1)] ^= 1; wrfile(f, bad); } fl_what = (int)g.range(0, 2); fl_errno = want = g.pick<int>({EIO, ENOMEM, EACCES, EMFILE, EINTR, ENODEV}); fl_hit = false; int q = fl_what; r = from(f); bool hit = fl_hit; fl_what = -1; TR("%s %s fails with %d -> %d", what, q == 0 ? "open" : q == 1 ? "fstat" : "mmap", want, r);
        if (!hit) { if (r == 0) { if (isb) Bloom_delete((Bloom*)p); else Xorfilter_delete((Xorfilter*)p); } c.discard = true; unlink(f.c_str()); return; } c.label(q == 0 ? "open fails" : q == 1 ? "fstat fails" : "mmap fails"); }
    else if (k == 1) { want = ENOENT; r = from(path("absent")); TR("%s absent file -> %d", what, r); }
    else if (k == 2) { want = 0; std::string d = path("dir"); mkdir(d.c_str(), 0700); r = from(d); rmdir(d.c_str()); TR("%s directory -> %d", what, r); }
    else if (k == 3) { want = 0; wrfile(path("e"), ""); r = from(path("e")); unlink(path("e").c_str()); TR("%s empty file -> %d", what, r); }
    else { want = ENAMETOOLONG; r = from(path("") + std::string(4096 + g.range(0, 200), 'x')); TR("%s long path -> %d", what, r); }
    CHECK(r < 0, "a %s filter was loaded although its file could not be read", what); CHECK(p == SENT, "the caller's pointer was changed by a failed load"); if (want) CHECK(r == -want, "returned %d, the error is %d", r, -want);
    wrfile(f, img); r = from(f); CHECK(r == 0 && p != SENT, "the intact file no longer loads: %d", r); if (isb) Bloom_delete((Bloom*)p); else Xorfilter_delete((Xorfilter*)p);
    c.nontrivial(true); unlink(f.c_str()); w.done();
}
static void put(std::string& s, size_t off, uint64_t v, int n) { for (int i = 0; i < n; i++) if (off + (size_t)i < s.size()) s[off + (size_t)i] = (char)(v >> (8 * i)); }
static uint64_t get(const std::string& s, size_t off, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) if (off + (size_t)i < s.size()) v |= (uint64_t)(uint8_t)s[off + (size_t)i] << (8 * i); return v; }
TARGET(forged, 3, "change header fields, offsets or sizes of a saved file and recompute its checksum (SHA-256, or BLAKE2b for Bloom filters): reloading fails, or gives a filter every query of which stays in bounds; non-trivial: a field changed") {
    c.leakcheck = true; World w; bool isb; int typ; std::string img = saved(g, c, &isb, &typ); std::string body = img.substr(0, img.size() - 32); bool chg = false;
    size_t m = g.range(0, 3); bool b2 = isb && g.chance(1, 3);
    for (size_t i = 0; i < m; i++) {
        size_t off; int len;
        if (isb) {
            uint64_t h = get(body, 80, 8); // first filter header
            static const struct { size_t o; int n; bool rel; } F[] = {{0, 4, 0}, {4, 1, 0}, {5, 1, 0}, {6, 1, 0}, {8, 8, 0}, {16, 8, 0}, {24, 8, 0}, {64, 4, 0}, {68, 4, 0}, {72, 8, 0}, {80, 8, 0}, {88, 8, 0}, {0, 8, 1}, {8, 8, 1}, {16, 8, 1}, {24, 8, 1}, {32, 8, 1}};
            auto& f = F[g.range(0, 16)]; off = f.o + (f.rel ? (size_t)h : 0); len = f.n; if (off >= body.size()) off = 64;
        } else { static const struct { size_t o; int n; } F[] = {{0, 4}, {4, 1}, {5, 1}, {8, 8}, {16, 4}, {20, 4}}; auto& f = F[g.range(0, 5)]; off = f.o; len = f.n; }
        uint64_t old = get(body, off, len), v;
        switch (g.range(0, 5)) { case 0: v = g.u(len * 8); break; case 1: v = old + 1; break; case 2: v = old - 1; break; case 3: v = g.pick<uint64_t>({0, 1, 2, 3, 64, body.size(), body.size() - 1, body.size() - 40, body.size() - 64, body.size() + 64}); break; case 4: v = old * 2; break; default: v = ~0ull - g.range(0, 70); }
        put(body, off, v, len); chg = chg || get(body, off, len) != old; TR("field at %zu: %llx -> %llx", off, (unsigned long long)old, (unsigned long long)get(body, off, len));
    }
    if (g.chance(1, 4)) { size_t l = g.range(0, body.size()); if (g.flip()) body.resize(l); else body += std::string(g.size(200), 0); TR("resize body to %zu", body.size()); chg = true; if (isb && g.flip()) put(body, 24, body.size(), 8); }
    if (isb && body.size() > 7) { body[7] = b2; }
    unsigned char ck[32];
    if (isb) { unsigned char l8[8]; for (int i = 0; i < 8; i++) l8[i] = (unsigned char)(body.size() >> (56 - 8 * i));
        if (b2) { crypto_generichash_state st; crypto_generichash_init(&st, 0, 0, 32); crypto_generichash_update(&st, (unsigned char*)body.data(), body.size()); crypto_generichash_update(&st, l8, 8); crypto_generichash_final(&st, ck, 32); }
        else { crypto_hash_sha256_state st; crypto_hash_sha256_init(&st); crypto_hash_sha256_update(&st, (unsigned char*)body.data(), body.size()); crypto_hash_sha256_update(&st, l8, 8); crypto_hash_sha256_final(&st, ck); } }
    else { unsigned char l8[8]; uint64_t tot = body.size() + 32; for (int i = 0; i < 8; i++) l8[i] = (unsigned char)(tot >> (8 * i)); crypto_hash_sha256_state st; crypto_hash_sha256_init(&st); crypto_hash_sha256_update(&st, l8, 8); crypto_hash_sha256_update(&st, (unsigned char*)body.data(), body.size()); crypto_hash_sha256_final(&st, ck); }
    wrfile(path("a"), body + std::string((char*)ck, 32));
    uint64_t base = g.u();
    for (int mm = 0; mm < 2; mm++) {
        void* p; int r = reload(isb, mm, &p);
        if (!chg) CHECK(r == 0, "an intact file with a valid %s checksum was rejected: %d", b2 ? "BLAKE2b" : "SHA-256", r);
        if (r != 0) { CHECK(r < 0, "reload returned %d", r); c.label("rejected"); continue; }
        c.label("accepted");
        CHECK(p != SENT && p, "success without a filter");
        if (isb) { Bloom* b = (Bloom*)p; for (uint64_t i = 0; i < 60; i++) (void)Bloom_find(b, base + i * 0x9E3779B97F4A7C15ull); (void)bl_desc(b);
            if (!mm && b->typ != 2) for (uint64_t i = 0; i < 30; i++) { Bloom_probe(b, base + i); CHECK(Bloom_find(b, base + i), "an element added to a reloaded filter is not found"); }
            Bloom_delete(b); }
        else { Xorfilter* x = (Xorfilter*)p; for (uint64_t i = 0; i < 300; i++) (void)Xorfilter_contains(x, base + i * 0x9E3779B97F4A7C15ull); Xorfilter_delete(x); }
    }
    c.nontrivial(chg); c.label(isb ? "bloom" : "xor"); unlink(path("a").c_str()); w.done();
}
