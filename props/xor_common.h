#pragma once
#include "pbt.h"
#include "utils/utils.h"
#include "utils/xorfilter.h"
static uint64_t xr_salt; static uint64_t xr_calls;
#ifndef XOR_NO_GETENTROPY
extern "C" int __wrap_getentropy(void* p, size_t n) {
    uint8_t* b = (uint8_t*)p; xr_calls++;
    for (size_t i = 0; i < n; i++) { if (i % 8 == 0) xr_salt = xr_salt * 6364136223846793005ull + 1442695040888963407ull; uint64_t z = xr_salt ^ (xr_salt >> 31); z *= 0x9E3779B97F4A7C15ull; z ^= z >> 29; b[i] = (uint8_t)(z >> (8 * (i % 8))); }
    return 0;
}
#endif
static inline uint64_t xr_mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
// distinct keys, many relations
static inline std::vector<uint64_t> xr_keys(pbt::Src& g, size_t n, int* style_out = nullptr) {
    int style = (int)g.range(0, 6); uint64_t base = g.u(), step = g.u() | 1; unsigned sh = (unsigned)g.range(0, 50);
    std::vector<uint64_t> v; v.reserve(n);
    switch (style) {
    case 0: for (size_t i = 0; i < n; i++) v.push_back(i); break;
    case 1: for (size_t i = 0; i < n; i++) v.push_back(base + i); break;
    case 2: for (size_t i = 0; i < n; i++) v.push_back(base + i * step); break;
    case 3: for (size_t i = 0; i < n; i++) v.push_back(((uint64_t)i << sh) ^ base); break;   // high-order differences
    case 4: for (size_t i = 0; i < n; i++) v.push_back(xr_mix(base + i)); break;
    case 5: for (size_t i = 0; i < n; i++) v.push_back((i & 1) ? ~(uint64_t)(i / 2) : i / 2); break; // complements
    default: for (size_t i = 0; i < n; i++) v.push_back(n <= 64 ? g.u() : base ^ ((uint64_t)(i & 0xff) << 56) ^ (i >> 8)); break;
    }
    std::set<uint64_t> seen; std::vector<uint64_t> o; o.reserve(n);
    if (style == 3 || style == 6) { for (uint64_t k : v) if (seen.insert(k).second) o.push_back(k); } else o = v;
    if (style_out) *style_out = style;
    return o;
}
