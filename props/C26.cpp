//@ src: src/hashfunc/murmur3_hash.c src/hashfunc/fnvhash.c src/hashfunc/hsieh_hash.c src/hashfunc/fasthash.c src/hashfunc/yorrike.c src/hashfunc/cityhash.c src/hashfunc/siphash24.c src/hashfunc/xxhash.c src/fletcher-cksum.c
//@ quick: 16
//@ assume: FNV takes no seed: its header documents none and the code ignores the argument
#include "utils/utils.h"
#include "utils/hashfunc.h"
#include "utils/siphash.h"
#include "utils/xxhash.h"
#include "pbt.h"
#include <algorithm>
#include "hash_ref.h"
#include <functional>
#include <vector>
using pbt::Src; using pbt::Ctx; typedef unsigned long long ull;
struct R { uint64_t a, b; bool operator==(const R& o) const { return a == o.a && b == o.b; } };
struct Fn { const char* name; bool seeded; R (*lib)(const void*, size_t, uint64_t, uint64_t); R (*ref)(const uint8_t*, size_t, uint64_t, uint64_t); };
static R u128(uint_128_t v) { return {v.v[0], v.v[1]}; }
static const Fn FN[] = {
    {"murmur3_hash_32", true, [](const void* p, size_t n, uint64_t s, uint64_t) { return R{murmur3_hash_32(p, n, (uint32_t)s), 0}; }, [](const uint8_t* p, size_t n, uint64_t s, uint64_t) { return R{ref::murmur32(p, n, (uint32_t)s), 0}; }},
    {"murmur3_hash_128", true, [](const void* p, size_t n, uint64_t s, uint64_t) { return u128(murmur3_hash_128(p, n, (uint32_t)s)); },
        [](const uint8_t* p, size_t n, uint64_t s, uint64_t) { uint32_t h[4]; ref::murmur128x86(p, n, (uint32_t)s, h); return R{(uint64_t)h[0] << 32 | h[1], (uint64_t)h[2] << 32 | h[3]}; }},
    {"murmur3_hash64_128", true, [](const void* p, size_t n, uint64_t s, uint64_t) { return u128(murmur3_hash64_128(p, n, (uint32_t)s)); }, [](const uint8_t* p, size_t n, uint64_t s, uint64_t) { auto h = ref::murmur128x64(p, n, (uint32_t)s); return R{h.a, h.b}; }},
    {"fnv_hash", false, [](const void* p, size_t n, uint64_t s, uint64_t) { return R{fnv_hash(p, n, (uint32_t)s), 0}; }, [](const uint8_t* p, size_t n, uint64_t, uint64_t) { return R{ref::fnv1a32(p, n), 0}; }},
    {"fnv_hash64", false, [](const void* p, size_t n, uint64_t s, uint64_t) { return R{fnv_hash64(p, n, s), 0}; }, [](const uint8_t* p, size_t n, uint64_t, uint64_t) { return R{ref::fnv1a64(p, n), 0}; }},
    {"hsieh_hash", true, [](const void* p, size_t n, uint64_t s, uint64_t) { return R{hsieh_hash(p, n, (uint32_t)s), 0}; }, [](const uint8_t* p, size_t n, uint64_t s, uint64_t) { return R{ref::hsieh(p, n, (uint32_t)s), 0}; }},
    {"fasthash32", true, [](const void* p, size_t n, uint64_t s, uint64_t) { return R{fasthash32(p, n, (uint32_t)s), 0}; }, [](const uint8_t* p, size_t n, uint64_t s, uint64_t) { return R{ref::fast32(p, n, (uint32_t)s), 0}; }},
    {"fasthash64", true, [](const void* p, size_t n, uint64_t s, uint64_t) { return R{fasthash64(p, n, s), 0}; }, [](const uint8_t* p, size_t n, uint64_t s, uint64_t) { return R{ref::fast64(p, n, s), 0}; }},
    {"yorrike_hash32", true, [](const void* p, size_t n, uint64_t s, uint64_t) { return R{yorrike_hash32(p, n, (uint32_t)s), 0}; }, [](const uint8_t* p, size_t n, uint64_t s, uint64_t) { return R{ref::yorikke(p, n, (uint32_t)s), 0}; }},
    {"city_hash", true, [](const void* p, size_t n, uint64_t s, uint64_t) { return R{city_hash(p, n, s), 0}; }, [](const uint8_t* p, size_t n, uint64_t s, uint64_t) { uint64_t h = ref::city::h64(p, n); return R{s ? ref::city::h16(h - ref::city::k2, s) : h, 0}; }},
    {"city_hash_128", true, [](const void* p, size_t n, uint64_t s, uint64_t t) { uint_128_t z; z.v[0] = s; z.v[1] = t; return u128(city_hash_128(p, n, z)); },
        [](const uint8_t* p, size_t n, uint64_t s, uint64_t t) { auto h = s || t ? ref::city::h128s(p, n, {s, t}) : ref::city::h128(p, n); return R{h.a, h.b}; }},
    {"siphash24", true, [](const void* p, size_t n, uint64_t s, uint64_t t) { uint64_t k[2] = {s, t}; return R{siphash24(p, n, k), 0}; }, [](const uint8_t* p, size_t n, uint64_t s, uint64_t t) { return R{ref::sip24(p, n, s, t), 0}; }},
    {"XXH32", true, [](const void* p, size_t n, uint64_t s, uint64_t) { return R{XXH32(p, n, (unsigned)s), 0}; }, [](const uint8_t* p, size_t n, uint64_t s, uint64_t) { return R{ref::xxh32(p, n, (uint32_t)s), 0}; }},
    {"XXH64", true, [](const void* p, size_t n, uint64_t s, uint64_t) { return R{XXH64(p, n, s), 0}; }, [](const uint8_t* p, size_t n, uint64_t s, uint64_t) { return R{ref::xxh64(p, n, s), 0}; }},
};
static const int NF = sizeof FN / sizeof *FN;
struct Selftest { Selftest() {  // the references reproduce published vectors
    auto b = [](const char* s) { return (const uint8_t*)s; };
    bool ok = ref::murmur32(b("hello"), 5, 0) == 0x248bfa47 && ref::murmur32(b("hello, world"), 12, 0) == 0x149bbb7f;
    auto h = ref::murmur128x64(b("hello"), 5, 0); ok &= h.a == 0xcbd8a7b341bd9b02ull && h.b == 0x5b1e906a48ae1d19ull;
    ok &= ref::fnv1a32(b("foobar"), 6) == 0xbf9cf968u && ref::fnv1a64(b("foobar"), 6) == 0x85944171f73967e8ull;
    ok &= ref::xxh32(b(""), 0, 0) == 0x02cc5d05u && ref::xxh64(b(""), 0, 0) == 0xef46db3751d8e999ull && ref::xxh32(b("abc"), 3, 0) == 0x32d153ffu && ref::xxh64(b("abc"), 3, 0) == 0x44bc2cf5ad770999ull;
    uint8_t m[64]; for (int i = 0; i < 64; i++) m[i] = (uint8_t)i;
    ok &= ref::sip24(m, 15, ref::l64(m), ref::l64(m + 8)) == 0xa129ca6149be45e5ull && ref::sip24(m, 0, ref::l64(m), ref::l64(m + 8)) == 0x726fdb47dd0e0e31ull;
    if (!ok) pbt::harness_error("reference hash self-test");
} } selftest;
static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return z ^ z >> 31; }
static size_t gen_len(Src& g) { if (g.chance(1, 500)) return g.big(70000); switch (g.weighted({6, 3, 2, 1})) { case 0: return g.range(0, 40); case 1: return g.range(0, 300); case 2: { static const int e[] = {4, 8, 16, 32, 64, 128, 144, 192, 256}; return (size_t)std::max<int64_t>(0, e[g.range(0, 8)] * (int64_t)g.range(1, 3) + g.irange(-2, 2)); } default: return g.range(0, 6000); } }
static std::string gen_data(Src& g, size_t n) {
    std::string s; if (n <= 300 && g.chance(3, 4)) { s = g.bytes(n); s.resize(n); return s; }
    if (g.chance(1, 4)) { s.assign(n, (char)g.u(8)); if (n) s[g.range(0, n - 1)] ^= (char)g.u(8); return s; }
    uint64_t x = g.u(32); for (size_t i = 0; i < n; i++) s += (char)splitmix(x); return s;
}
static uint64_t gen_seed(Src& g) { switch (g.weighted({2, 1, 4})) { case 0: return 0; case 1: return g.range(1, 255); default: return g.u(64); } }
TARGET(algorithm, 5, "more than 8 bytes hashed at an unaligned address") {
    const Fn& f = FN[g.range(0, NF - 1)]; size_t n = gen_len(g), off = g.range(0, 15), post = g.range(0, 2);
    std::string d = gen_data(g, n); uint64_t s = gen_seed(g), t = gen_seed(g);
    TR("%s(%s) n=%zu offset=%zu seed=%llx,%llx", f.name, pbt::show(d.substr(0, 80)).c_str(), n, off, (ull)s, (ull)t);
    c.nontrivial(n > 8 && off % 8); c.label(f.name);
    // flush against the end of its block: any byte read beyond is caught
    Exact e(off + n); memset(e.p, (int)(0x11 * post), off + n); memcpy(e.p + off, d.data(), n);
    R r = f.lib(e.p + off, n, s, t), w = f.ref((const uint8_t*)d.data(), n, s, t);
    CHECK(r == w, "%s of %zu bytes = %016llx %016llx, published algorithm gives %016llx %016llx", f.name, n, (ull)r.a, (ull)r.b, (ull)w.a, (ull)w.b);
    CHECK(!memcmp(e.p + off, d.data(), n), "%s changed its input", f.name);
    // flush against the beginning, other surroundings
    Exact e2(n + 9); memcpy(e2.p, d.data(), n); for (int i = 0; i < 9; i++) e2.p[n + i] = (uint8_t)(0xa5 + i * 31);
    R r2 = f.lib(e2.p, n, s, t); CHECK(r2 == r, "%s depends on where the bytes lie or what follows them", f.name);
}
TARGET(sensitivity, 2, "a byte of a 2+ byte input changed, or the seed") {
    const Fn& f = FN[g.range(0, NF - 1)]; size_t n = 1 + g.range(0, g.chance(1, 5) ? 700 : 70); uint64_t x = g.u(48), s = splitmix(x) | 1, t = splitmix(x); 
    std::string d; for (size_t i = 0; i < n; i++) d += (char)splitmix(x);
    size_t at = g.range(0, n - 1); TR("%s n=%zu byte %zu", f.name, n, at); c.nontrivial(n > 1); c.label(f.name);
    auto h = [&](const std::string& v, uint64_t s, uint64_t t) { Exact e(v, false); return f.lib(e.p, v.size(), s, t); };
    R r = h(d, s, t); bool diff = false;
    for (int i = 1; i <= 3; i++) { std::string v = d; v[at] = (char)(v[at] + i * 37); diff |= !(h(v, s, t) == r); }
    CHECK(diff, "%s of %zu bytes does not depend on byte %zu", f.name, n, at);
    bool d2 = false; for (int i = 1; i <= 3; i++) d2 |= !(h(d + std::string(i, (char)(i * 91)), s, t) == r); CHECK(d2, "%s does not see bytes added at the end of %zu", f.name, n);
    if (n > 3) { bool d3 = false; for (int i = 1; i <= 3; i++) d3 |= !(h(d.substr(0, n - i), s, t) == r); CHECK(d3, "%s does not see bytes dropped from %zu", f.name, n); }
    if (f.seeded) { bool d4 = false; for (int i = 1; i <= 3; i++) d4 |= !(h(d, s ^ (uint64_t)i * 0x5bd1e995u, t) == r); CHECK(d4, "%s does not depend on the seed", f.name); }
}
static std::vector<size_t> gen_split(Src& g, size_t n) { std::vector<size_t> v; size_t left = n; int mode = (int)g.range(0, 3);
    while (left) { size_t k = mode == 0 ? g.range(0, std::min<size_t>(left, 5)) : mode == 1 ? g.range(0, std::min<size_t>(left, 40)) : g.range(0, left); if (v.size() > 60) k = left; v.push_back(k); left -= k; } return v; }
static std::string showsplit(const std::vector<size_t>& v) { std::string s; for (size_t i = 0; i < v.size() && i < 40; i++) s += pbt::fmt("%zu ", v[i]); return s; }
TARGET(streaming, 3, "at least two non-empty updates, one of them not a multiple of the block size") {
    int which = (int)g.range(0, 2); size_t n = gen_len(g); std::string d = gen_data(g, n); auto sp = gen_split(g, n); uint64_t s = gen_seed(g), t = gen_seed(g);
    int ne = 0; bool odd = false; size_t bs = which == 0 ? 8 : which == 1 ? 16 : 32; for (size_t k : sp) { ne += k > 0; odd |= k % bs != 0; } c.nontrivial(ne >= 2 && odd);
    static const char* nm[] = {"siphash24", "XXH32", "XXH64"}; TR("%s n=%zu split %s seed %llx %llx", nm[which], n, showsplit(sp).c_str(), (ull)s, (ull)t); c.label(nm[which]);
    c.leakcheck = true; size_t o = 0; const uint8_t* p = (const uint8_t*)d.data();
    if (which == 0) {
        siphash24_state st; memset(&st, 0xee, sizeof st); uint64_t k[2] = {s, t}; siphash24_init(&st, k);
        for (size_t m : sp) { Exact e(d.substr(o, m), false); siphash24_update(&st, e.p, m); o += m; }
        uint64_t r = siphash24_finish(&st), w = ref::sip24(p, n, s, t); CHECK(r == w, "incremental siphash24 of %zu bytes = %016llx, one-shot %016llx", n, (ull)r, (ull)w);
    } else if (which == 1) {
        XXH32_state_t* st = XXH32_createState(); CHECK(st != 0, "no state"); int rounds = (int)g.range(1, 2);
        for (int q = 0; q < rounds; q++) { CHECK(XXH32_reset(st, (unsigned)s) == XXH_OK, "reset"); o = 0;
            for (size_t m : sp) { Exact e(d.substr(o, m), false); CHECK(XXH32_update(st, e.p, m) == XXH_OK, "update"); o += m; CHECK(XXH32_digest(st) == ref::xxh32(p, o, (uint32_t)s), "XXH32 digest after %zu of %zu bytes", o, n); }
            CHECK(XXH32_digest(st) == ref::xxh32(p, n, (uint32_t)s), "incremental XXH32 of %zu bytes", n); }
        XXH32_freeState(st);
    } else {
        XXH64_state_t* st = XXH64_createState(); CHECK(st != 0, "no state"); int rounds = (int)g.range(1, 2);
        for (int q = 0; q < rounds; q++) { CHECK(XXH64_reset(st, s) == XXH_OK, "reset"); o = 0;
            for (size_t m : sp) { Exact e(d.substr(o, m), false); CHECK(XXH64_update(st, e.p, m) == XXH_OK, "update"); o += m; CHECK(XXH64_digest(st) == ref::xxh64(p, o, s), "XXH64 digest after %zu of %zu bytes", o, n); }
            CHECK(XXH64_digest(st) == ref::xxh64(p, n, s), "incremental XXH64 of %zu bytes", n); }
        XXH64_freeState(st);
    }
}
TARGET(canonical, 1, "a hash with at least two non-zero bytes") {
    uint64_t h = g.u(64); TR("hash %llx", (ull)h); c.nontrivial((h & 0xff) && (h >> 8 & 0xff));
    XXH32_canonical_t a; XXH64_canonical_t b; XXH32_canonicalFromHash(&a, (XXH32_hash_t)h); XXH64_canonicalFromHash(&b, h);
    for (int i = 0; i < 4; i++) CHECK(a.digest[i] == (uint8_t)((uint32_t)h >> (24 - 8 * i)), "canonical 32-bit form is not big-endian");
    for (int i = 0; i < 8; i++) CHECK(b.digest[i] == (uint8_t)(h >> (56 - 8 * i)), "canonical 64-bit form is not big-endian");
    CHECK(XXH32_hashFromCanonical(&a) == (uint32_t)h, "32-bit canonical form does not round-trip"); CHECK(XXH64_hashFromCanonical(&b) == h, "64-bit canonical form does not round-trip");
}

extern "C" uint32_t fletcher32(uint16_t* data, size_t len);
TARGET(fletcher, 1, "more than 360 words, or all words at the maximum") {
    size_t n = g.weighted({3, 2, 2, 1}) == 0 ? g.range(0, 20) : g.flip() ? g.range(300, 800) : g.flip() ? (size_t)std::max<int64_t>(0, 360 * (int64_t)g.range(0, 6) + g.irange(-1, 1)) : g.range(0, 5000); unsigned k = (unsigned)g.weighted({3, 1, 1, 1}); uint64_t x = g.u(48); uint16_t one = (uint16_t)g.u(16);
    Exact e(n * 2); uint16_t* w = (uint16_t*)e.p; for (size_t i = 0; i < n; i++) w[i] = k == 0 ? (uint16_t)splitmix(x) : k == 1 ? 0xffff : k == 2 ? 0 : one; if (n && g.flip()) w[g.range(0, n - 1)] = (uint16_t)g.u(16);
    // sums modulo 65535; zero is written 65535, as the sums start there
    uint64_t a = 0, b = 0; for (size_t i = 0; i < n; i++) { a = (a + w[i]) % 65535; b = (b + a) % 65535; } uint32_t want = (uint32_t)((b ? b : 65535) << 16 | (a ? a : 65535)); std::string before((char*)e.p, n * 2);
    uint32_t r = fletcher32(w, n); TR("fletcher32 of %zu words (kind %u) = %08x", n, k, r); c.nontrivial(n > 360 || k == 1); c.label("fletcher32"); CHECK(r == want, "fletcher32 of %zu words = %08x, should be %08x", n, r, want); CHECK(!memcmp(before.data(), e.p, n * 2), "fletcher32 changed its input");
}
