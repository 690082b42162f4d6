// Reference implementations of the published hash algorithms, written byte-wise
// (little-endian loads) and independently of the library's code.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
namespace ref {
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
typedef std::basic_string<unsigned char> B;  // unused alias kept simple
static inline u64 ld(const u8* p, int n) { u64 v = 0; for (int i = n - 1; i >= 0; i--) v = v << 8 | p[i]; return v; }
static inline u32 l32(const u8* p) { return (u32)ld(p, 4); }
static inline u64 l64(const u8* p) { return ld(p, 8); }
static inline u32 rl(u32 x, int r) { return x << r | x >> (32 - r); }
static inline u64 rl(u64 x, int r) { return x << r | x >> (64 - r); }
static inline u64 rr(u64 x, int r) { return r ? (x >> r | x << (64 - r)) : x; }
struct H128 { u64 a, b; };

static inline u32 mfmix(u32 h) { h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; return h ^ h >> 16; }
static inline u64 mfmix(u64 k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdull; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ull; return k ^ k >> 33; }
static inline u32 murmur32(const u8* p, size_t n, u32 seed) {
    u32 h = seed; size_t i = 0;
    auto k = [](u32 k) { return rl(k * 0xcc9e2d51u, 15) * 0x1b873593u; };
    for (; i + 4 <= n; i += 4) h = rl(h ^ k(l32(p + i)), 13) * 5 + 0xe6546b64u;
    if (n > i) h ^= k((u32)ld(p + i, (int)(n - i)));
    return mfmix(h ^ (u32)n);
}
// x86_128: four words in order h1..h4
static inline void murmur128x86(const u8* p, size_t n, u32 seed, u32 out[4]) {
    static const u32 C[5] = {0x239b961bu, 0xab0e9789u, 0x38b34ae5u, 0xa1e38b93u, 0x239b961bu};
    static const int R[4] = {15, 16, 17, 18}, S[4] = {19, 17, 15, 13};
    static const u32 A[4] = {0x561ccd1bu, 0x0bcaa747u, 0x96cd1c35u, 0x32ac3b17u};
    u32 h[4] = {seed, seed, seed, seed}; size_t i = 0;
    for (; i + 16 <= n; i += 16) for (int j = 0; j < 4; j++) {
        h[j] ^= rl(l32(p + i + 4 * j) * C[j], R[j]) * C[j + 1];
        h[j] = (rl(h[j], S[j]) + h[(j + 1) & 3]) * 5 + A[j];
    }
    for (int j = 3; j >= 0; j--) { size_t o = i + 4 * j; if (o < n) { u32 k = (u32)ld(p + o, (int)std::min<size_t>(4, n - o)); h[j] ^= rl(k * C[j], R[j]) * C[j + 1]; } }
    for (int j = 0; j < 4; j++) h[j] ^= (u32)n;
    auto mixall = [&] { h[0] += h[1] + h[2] + h[3]; for (int j = 1; j < 4; j++) h[j] += h[0]; };
    mixall(); for (int j = 0; j < 4; j++) h[j] = mfmix(h[j]); mixall();
    memcpy(out, h, sizeof h);
}
static inline H128 murmur128x64(const u8* p, size_t n, u32 seed) {
    const u64 c1 = 0x87c37b91114253d5ull, c2 = 0x4cf5ad432745937full; u64 h1 = seed, h2 = seed; size_t i = 0;
    for (; i + 16 <= n; i += 16) {
        h1 ^= rl(l64(p + i) * c1, 31) * c2; h1 = (rl(h1, 27) + h2) * 5 + 0x52dce729;
        h2 ^= rl(l64(p + i + 8) * c2, 33) * c1; h2 = (rl(h2, 31) + h1) * 5 + 0x38495ab5;
    }
    size_t t = n - i;
    if (t > 8) h2 ^= rl(ld(p + i + 8, (int)(t - 8)) * c2, 33) * c1;
    if (t > 0) h1 ^= rl(ld(p + i, (int)std::min<size_t>(8, t)) * c1, 31) * c2;
    h1 ^= n; h2 ^= n; h1 += h2; h2 += h1; h1 = mfmix(h1); h2 = mfmix(h2); h1 += h2; h2 += h1;
    return {h1, h2};
}
static inline u32 fnv1a32(const u8* p, size_t n) { u32 h = 2166136261u; while (n--) h = (h ^ *p++) * 16777619u; return h; }
static inline u64 fnv1a64(const u8* p, size_t n) { u64 h = 14695981039346656037ull; while (n--) h = (h ^ *p++) * 1099511628211ull; return h; }
static inline u64 fast64(const u8* p, size_t n, u64 seed) {
    const u64 m = 0x880355f21e6d1965ull; auto mix = [](u64 h) { h ^= h >> 23; h *= 0x2127599bf4325c37ull; return h ^ h >> 47; };
    u64 h = seed ^ (n * m); size_t i = 0;
    for (; i + 8 <= n; i += 8) h = (h ^ mix(l64(p + i))) * m;
    if (n > i) h = (h ^ mix(ld(p + i, (int)(n - i)))) * m;
    return mix(h);
}
static inline u32 fast32(const u8* p, size_t n, u32 seed) { u64 h = fast64(p, n, seed); return (u32)(h - (h >> 32)); }
static inline u32 hsieh(const u8* p, size_t n, u32 seed) {
    if (!n) return 0;
    u32 h = seed; size_t i = 0;
    for (; i + 4 <= n; i += 4) { h += (u32)ld(p + i, 2); u32 t = ((u32)ld(p + i + 2, 2) << 11) ^ h; h = (h << 16) ^ t; h += h >> 11; }
    p += i;
    switch (n - i) {
        case 3: h += (u32)ld(p, 2); h ^= h << 16; h ^= (u32)(int)(int8_t)p[2] << 18; h += h >> 11; break;
        case 2: h += (u32)ld(p, 2); h ^= h << 11; h += h >> 17; break;
        case 1: h += (u32)(int)(int8_t)p[0]; h ^= h << 10; h += h >> 1; break;
    }
    h ^= h << 3; h += h >> 5; h ^= h << 4; h += h >> 17; h ^= h << 25; h += h >> 6; return h;
}
static inline u32 yorikke(const u8* p, size_t n, u32 seed) {
    const u32 P = 709607; u32 a = seed ? seed : 2166136261u, b = a; size_t i = 0;
    for (; n - i >= 16; i += 16) { a = (a ^ rl(l32(p + i), 5) ^ l32(p + i + 4)) * P; b = (b ^ rl(l32(p + i + 8), 5) ^ l32(p + i + 12)) * P; }
    size_t t = n - i; p += i;
    if (t & 8) { a = (a ^ l32(p)) * P; b = (b ^ l32(p + 4)) * P; p += 8; }
    if (t & 4) { a = (a ^ (u32)ld(p, 2)) * P; b = (b ^ (u32)ld(p + 2, 2)) * P; p += 4; }
    if (t & 2) { a = (a ^ (u32)ld(p, 2)) * P; p += 2; }
    if (t & 1) a = (a ^ *p) * P;
    a = (a ^ rl(b, 5)) * P; return a ^ a >> 16;
}
static inline u64 sip24(const u8* p, size_t n, u64 k0, u64 k1) {
    u64 v[4] = {k0 ^ 0x736f6d6570736575ull, k1 ^ 0x646f72616e646f6dull, k0 ^ 0x6c7967656e657261ull, k1 ^ 0x7465646279746573ull};
    auto rnd = [&] { v[0] += v[1]; v[1] = rl(v[1], 13) ^ v[0]; v[0] = rl(v[0], 32); v[2] += v[3]; v[3] = rl(v[3], 16) ^ v[2];
                     v[0] += v[3]; v[3] = rl(v[3], 21) ^ v[0]; v[2] += v[1]; v[1] = rl(v[1], 17) ^ v[2]; v[2] = rl(v[2], 32); };
    auto blk = [&](u64 m) { v[3] ^= m; rnd(); rnd(); v[0] ^= m; };
    size_t i = 0; for (; i + 8 <= n; i += 8) blk(l64(p + i));
    blk(ld(p + i, (int)(n - i)) | (u64)n << 56);
    v[2] ^= 0xff; for (int j = 0; j < 4; j++) rnd();
    return v[0] ^ v[1] ^ v[2] ^ v[3];
}
static inline u32 xxh32(const u8* p, size_t n, u32 seed) {
    const u32 P1 = 2654435761u, P2 = 2246822519u, P3 = 3266489917u, P4 = 668265263u, P5 = 374761393u; u32 h; size_t i = 0;
    if (n >= 16) {
        u32 v[4] = {seed + P1 + P2, seed + P2, seed, seed - P1};
        for (; i + 16 <= n; i += 16) for (int j = 0; j < 4; j++) v[j] = rl(v[j] + l32(p + i + 4 * j) * P2, 13) * P1;
        h = rl(v[0], 1) + rl(v[1], 7) + rl(v[2], 12) + rl(v[3], 18);
    } else h = seed + P5;
    h += (u32)n;
    for (; i + 4 <= n; i += 4) h = rl(h + l32(p + i) * P3, 17) * P4;
    for (; i < n; i++) h = rl(h + p[i] * P5, 11) * P1;
    h ^= h >> 15; h *= P2; h ^= h >> 13; h *= P3; return h ^ h >> 16;
}
static inline u64 xxh64(const u8* p, size_t n, u64 seed) {
    const u64 P1 = 11400714785074694791ull, P2 = 14029467366897019727ull, P3 = 1609587929392839161ull, P4 = 9650029242287828579ull, P5 = 2870177450012600261ull; u64 h; size_t i = 0;
    auto round = [&](u64 a, u64 in) { return rl(a + in * P2, 31) * P1; };
    if (n >= 32) {
        u64 v[4] = {seed + P1 + P2, seed + P2, seed, seed - P1};
        for (; i + 32 <= n; i += 32) for (int j = 0; j < 4; j++) v[j] = round(v[j], l64(p + i + 8 * j));
        h = rl(v[0], 1) + rl(v[1], 7) + rl(v[2], 12) + rl(v[3], 18);
        for (int j = 0; j < 4; j++) h = (h ^ round(0, v[j])) * P1 + P4;
    } else h = seed + P5;
    h += n;
    for (; i + 8 <= n; i += 8) h = rl(h ^ round(0, l64(p + i)), 27) * P1 + P4;
    if (i + 4 <= n) { h = rl(h ^ (u64)l32(p + i) * P1, 23) * P2 + P3; i += 4; }
    for (; i < n; i++) h = rl(h ^ p[i] * P5, 11) * P1;
    h ^= h >> 33; h *= P2; h ^= h >> 29; h *= P3; return h ^ h >> 32;
}
// CityHash 1.0.x
namespace city {
const u64 k0 = 0xc3a5c85c97cb3127ull, k1 = 0xb492b66fbe98f273ull, k2 = 0x9ae16a3b2f90404full, k3 = 0xc949d7c7509e6557ull;
static inline u64 sm(u64 v) { return v ^ v >> 47; }
static inline u64 h16(u64 u, u64 v) { const u64 m = 0x9ddfea08eb382d69ull; u64 a = sm((u ^ v) * m); return sm((v ^ a) * m) * m; }
static inline u64 upto16(const u8* s, size_t n) {
    if (n > 8) { u64 a = l64(s), b = l64(s + n - 8); return h16(a, rr(b + n, (int)n)) ^ b; }
    if (n >= 4) return h16(n + ((u64)l32(s) << 3), l32(s + n - 4));
    if (n) { u32 y = s[0] + ((u32)s[n >> 1] << 8), z = (u32)n + ((u32)s[n - 1] << 2); return sm(y * k2 ^ z * k3) * k2; }
    return k2;
}
static inline H128 weak(const u8* s, u64 a, u64 b) {
    u64 w = l64(s), x = l64(s + 8), y = l64(s + 16), z = l64(s + 24);
    a += w; b = rr(b + a + z, 21); u64 c = a; a += x + y; b += rr(a, 44); return {a + z, b + c};
}
struct St { u64 x, y, z; H128 v, w;
    void step(const u8* s) {
        x = rr(x + y + v.a + l64(s + 8), 37) * k1; y = rr(y + v.b + l64(s + 48), 42) * k1;
        x ^= w.b; y += v.a + l64(s + 40); z = rr(z + w.a, 33) * k1;
        v = weak(s, v.b * k1, x + w.a); w = weak(s + 32, z + w.b, y + l64(s + 16)); std::swap(x, z);
    } };
static inline u64 h64(const u8* s, size_t n) {
    if (n <= 16) return upto16(s, n);
    if (n <= 32) { u64 a = l64(s) * k1, b = l64(s + 8), c = l64(s + n - 8) * k2, d = l64(s + n - 16) * k0; return h16(rr(a - b, 43) + rr(c, 30) + d, a + rr(b ^ k3, 20) - c + n); }
    if (n <= 64) {
        auto half = [&](u64 a, u64 z, u64 m1, u64 m2) { u64 b = rr(a + z, 52), c = rr(a, 37); a += m1; c += rr(a, 7); a += m2; return H128{a + z, b + rr(a, 31) + c}; };
        H128 v = half(l64(s) + (n + l64(s + n - 16)) * k0, l64(s + 24), l64(s + 8), l64(s + 16));
        H128 w = half(l64(s + 16) + l64(s + n - 32), l64(s + n - 8), l64(s + n - 24), l64(s + n - 16));
        u64 r = sm((v.a + w.b) * k2 + (w.a + v.b) * k0); return sm(r * k0 + v.b) * k2;
    }
    St t; t.x = l64(s + n - 40); t.y = l64(s + n - 16) + l64(s + n - 56); t.z = h16(l64(s + n - 48) + n, l64(s + n - 24));
    t.v = weak(s + n - 64, n, t.z); t.w = weak(s + n - 32, t.y + k1, t.x); t.x = t.x * k1 + l64(s);
    for (size_t m = (n - 1) & ~(size_t)63; m; m -= 64, s += 64) t.step(s);
    return h16(h16(t.v.a, t.w.a) + sm(t.y) * k1 + t.z, h16(t.v.b, t.w.b) + t.x);
}
static inline H128 h128s(const u8* s, size_t n, H128 seed) {
    if (n < 128) {
        u64 a = seed.a, b = seed.b, c, d;
        if (n <= 16) { a = sm(a * k1) * k1; c = b * k1 + upto16(s, n); d = sm(a + (n >= 8 ? l64(s) : c)); }
        else {
            c = h16(l64(s + n - 8) + k1, a); d = h16(b + n, c + l64(s + n - 16)); a += d;
            for (long l = (long)n - 16; l > 0; l -= 16, s += 16) { a = (a ^ sm(l64(s) * k1) * k1) * k1; b ^= a; c = (c ^ sm(l64(s + 8) * k1) * k1) * k1; d ^= c; }
        }
        a = h16(a, c); b = h16(d, b); return {a ^ b, h16(b, a)};
    }
    St t; t.x = seed.a; t.y = seed.b; t.z = n * k1;
    t.v.a = rr(t.y ^ k1, 49) * k1 + l64(s); t.v.b = rr(t.v.a, 42) * k1 + l64(s + 8);
    t.w.a = rr(t.y + t.z, 35) * k1 + t.x; t.w.b = rr(t.x + l64(s + 88), 53) * k1;
    for (; n >= 128; n -= 128) { t.step(s); t.step(s + 64); s += 128; }
    t.x += rr(t.v.a + t.z, 49) * k0; t.z += rr(t.w.a, 37) * k0;
    for (size_t d = 0; d < n;) {
        d += 32; const u8* q = s + n - d;
        t.y = rr(t.x + t.y, 42) * k0 + t.v.b; t.w.a += l64(q + 16); t.x = t.x * k0 + t.w.a; t.z += t.w.b + l64(q); t.w.b += t.v.a; t.v = weak(q, t.v.a + t.z, t.v.b);
    }
    u64 x = h16(t.x, t.v.a), y = h16(t.y + t.z, t.w.a);
    return {h16(x + t.v.b, t.w.b) + y, h16(x + t.w.b, y + t.v.b)};
}
static inline H128 h128(const u8* s, size_t n) {
    if (n >= 16) return h128s(s + 16, n - 16, {l64(s) ^ k3, l64(s + 8)});
    if (n >= 8) return h128s(0, 0, {l64(s) ^ (n * k0), l64(s + n - 8) ^ k1});
    return h128s(s, n, {k0, k1});
}
}
}
