// shared by C04, C06, C07
#pragma once
#include "pbt.h"
#include <sys/random.h>
#include "utils/utils.h"
#include "utils/bloom.h"
static uint64_t bl_salt; static bool bl_fixed;
extern "C" int __wrap_getentropy(void* p, size_t n) {
    uint8_t* b = (uint8_t*)p;
    for (size_t i = 0; i < n; i++) { if (i % 8 == 0 && !bl_fixed) bl_salt = bl_salt * 6364136223846793005ull + 1442695040888963407ull; uint64_t z = bl_salt ^ (bl_salt >> 31); z *= 0x9E3779B97F4A7C15ull; z ^= z >> 29; b[i] = (uint8_t)(z >> (8 * (i % 8))); }
    return 0;
}
enum { B_STD, B_CNT, B_SCALE };
static const char* const btypname[] = {"standard", "counting", "scalable"};
static inline Bloom* bl_make(int typ, uint64_t n, double e, Bloom* st) {
    switch (typ) {
    case B_CNT: return st ? Counting_bloom_init(st, n, e) : Counting_bloom_new(n, e);
    case B_STD: return st ? Standard_bloom_init(st, n, e, 0) : Standard_bloom_new(n, e, 0);
    default: return st ? Standard_bloom_init(st, n, e, 1) : Standard_bloom_new(n, e, 1);
    }
}
static inline std::string bl_desc(Bloom* b) {
    std::string s(64 * 1024, 0); char* r = Bloom_desc(b, &s[0], s.size());
    CHECK(r == &s[0], "Bloom_desc returned %p, not its buffer", (void*)r); s.resize(strlen(s.c_str())); return s;
}
struct BlDesc { uint64_t elems = 0; unsigned levels = 0; std::vector<uint64_t> k, m, el; double fp = 0; };
static inline BlDesc bl_parse(Bloom* b) {
    std::string s = bl_desc(b); BlDesc d; size_t p = 0;
    while ((p = s.find("FP-prob: ", p)) != std::string::npos) {
        double e; unsigned long long k, m, n;
        if (sscanf(s.c_str() + p, "FP-prob: %lf: %llu partitions x %llu slots/partition", &e, &k, &m) != 3) FAIL("cannot parse description: %s", s.c_str());
        size_t q = s.find(" elem (", p); CHECK(q != std::string::npos, "cannot parse description: %s", s.c_str());
        size_t z = q; while (z > 0 && isdigit((unsigned char)s[z - 1])) z--;
        n = strtoull(s.c_str() + z, 0, 10);
        if (!d.levels) d.fp = e;
        d.levels++; d.elems += n; d.k.push_back(k); d.m.push_back(m); d.el.push_back(n); p = q;
    }
    CHECK(d.levels, "description names no filter: %s", s.c_str());
    return d;
}
static inline std::vector<uint64_t> bl_keys(pbt::Src& g, size_t n) {
    std::vector<uint64_t> ks; int style = (int)g.range(0, 2); uint64_t base = g.u();
    for (size_t i = 0; i < n; i++) ks.push_back(style == 0 ? base + i : style == 1 ? g.u() : (uint64_t)i << g.range(0, 40));
    return ks;
}
