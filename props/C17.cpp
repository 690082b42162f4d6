//@ shim: c17_shim.c c17_be.c
//@ covmain: yes
//@ quick: 12
// C17: byte order, alignment, powers of two, time units, delimiter bit sets vs arithmetic definitions.
#include "pbt.h"
#include "utils/utils.h"
#include "c17_shim.h"
static uint64_t val(pbt::Src& g, int bits) { uint64_t v = g.u(64); if (g.chance(1, 3)) v = (1ull << g.range(0, 63)) + (uint64_t)g.irange(-2, 2); return bits == 64 ? v : v & ((1ull << bits) - 1); }
static uint64_t rev(uint64_t v, int bits) { uint64_t r = 0; for (int i = 0; i < bits; i += 8) r |= ((v >> i) & 0xff) << (bits - 8 - i); return r; }
TARGET(byteorder, 3, "a boundary-biased value through every byte-order and swap macro of both endiannesses; non-trivial: more than one distinct byte") {
    uint64_t x = val(g, 64); TR("value %#llx", (unsigned long long)x); CHECK(u_consts(), "constant byte swaps are wrong");
    for (const ep_t* t : {ep_le, ep_be}) for (; t->name; t++) { uint64_t v = t->bits == 64 ? x : x & ((1ull << t->bits) - 1), w = t->swaps ? rev(v, t->bits) : v, r = t->f(v); CHECK(r == w, "%s(%#llx) is %#llx, not %#llx", t->name, (unsigned long long)v, (unsigned long long)r, (unsigned long long)w); }
    c.nontrivial(rev(x, 64) != x);
}
TARGETF(exhaustive16, 1, "all 65536 16-bit values through the 16-bit macros and codecs; non-trivial: always", pbt::ONCE) {
    for (uint64_t v = 0; v < 65536; v++) { for (const ep_t* t : {ep_le, ep_be}) for (; t->name; t++) if (t->bits == 16) CHECK(t->f(v) == (t->swaps ? rev(v, 16) : v), "%s(%#llx)", t->name, (unsigned long long)v);
        for (int k = 0; k < 2; k++) { unsigned char b[2]; CHECK(ed_enc(k, b, v) == b + 2 && (uint64_t)(b[0] | b[1] << 8) == (k ? rev(v, 16) : v) && ed_dec(k, b) == v, "16-bit codec %d of %#llx", k, (unsigned long long)v); }
        for (uint64_t p = 1; p < 65536; p <<= 1) { CHECK(u_align(1, 2, v, p) == v / p * p && u_align(2, 2, v, p) == (v % p == 0) && u_align(0, 4, v, p) == (v + p - 1) / p * p, "alignment of %llu to %llu", (unsigned long long)v, (unsigned long long)p); }
        uint64_t np = 1; while (np < v) np *= 2; if (v) CHECK(u_nextpow2(4, v) == np && putils::round_up_pow2<uint32_t>((uint32_t)v) == np, "next power of two of %llu", (unsigned long long)v); CHECK(u_ispow2(2, v) == (v && np == v), "_IS_POW2(%llu)", (unsigned long long)v); }
    c.nontrivial(true);
}
TARGET(codec, 3, "a value encoded and decoded at any alignment inside a guarded buffer; bytes, returned pointer, surroundings and value compared; non-trivial: non-palindromic value") {
    static const int W[] = {2, 2, 4, 4, 8, 8, 8, 8}; static const char* const N[] = {"LE_u16", "BE_u16", "LE_u32", "BE_u32", "LE_u64", "BE_u64", "LE_float64", "BE_float64"}; int k = (int)g.range(0, 7), w = W[k]; uint64_t v = val(g, 8 * w); if (k >= 6 && (v & 0x7ff0000000000000ull) == 0x7ff0000000000000ull) v |= 0x0008000000000000ull; // NaNs: quiet ones
    size_t pre = g.range(0, 9), post = g.range(0, 9); Exact e(pre + (size_t)w + post); TR("%s of %#llx at offset %zu", N[k], (unsigned long long)v, pre); unsigned char* r = ed_enc(k, e.p + pre, v); CHECK(r == e.p + pre + w, "enc_%s returned a pointer %td bytes on, not %d", N[k], r - (e.p + pre), w);
    for (int i = 0; i < w; i++) { unsigned want = (unsigned)(v >> 8 * (k & 1 ? w - 1 - i : i)) & 0xff; CHECK(e.p[pre + (size_t)i] == want, "enc_%s: byte %d is %02x, not %02x", N[k], i, e.p[pre + (size_t)i], want); }
    for (size_t i = 0; i < e.n; i++) if (i < pre || i >= pre + (size_t)w) CHECK(e.p[i] == 0xA5, "enc_%s changed a byte outside its %d bytes", N[k], w);
    uint64_t d = ed_dec(k, e.p + pre); CHECK(d == v, "dec_%s gives %#llx, not %#llx", N[k], (unsigned long long)d, (unsigned long long)v); c.nontrivial(rev(v, 8 * w) != v); c.label(N[k]);
}
template <class T> static void tmpl(uint64_t v0, unsigned long n) { T v = (T)v0; unsigned __int128 up = ((unsigned __int128)v + n - 1) / n * n; if (up <= (T)~(T)0) CHECK(putils::align_up<T>(v, n) == (T)up, "align_up(%llu, %lu)", (unsigned long long)v, n); CHECK(putils::align_down<T>(v, n) == v / n * n, "align_down(%llu, %lu)", (unsigned long long)v, n); CHECK(putils::is_aligned<T>(v, n) == (v % n == 0), "is_aligned(%llu, %lu)", (unsigned long long)v, n); }
TARGET(align, 3, "alignment and power-of-two helpers (macros for 8-64 bit and pointer types, templates) vs division; results that do not fit the type excluded; non-trivial: value not already aligned") {
    int width = g.pick<int>({1, 2, 4, 8, 9}), bits = width == 9 ? 64 : 8 * width; uint64_t v = val(g, bits), n = 1ull << g.range(0, (uint64_t)bits - 1), max = bits == 64 ? ~0ull : (1ull << bits) - 1; unsigned __int128 up = ((unsigned __int128)v + n - 1) / n * n; TR("width %d, value %#llx, boundary %#llx", width, (unsigned long long)v, (unsigned long long)n);
    if (up <= max) CHECK(u_align(0, width, v, n) == (uint64_t)up, "_ALIGN_UP(%#llx, %#llx) is %#llx", (unsigned long long)v, (unsigned long long)n, (unsigned long long)u_align(0, width, v, n));
    CHECK(u_align(1, width, v, n) == v / n * n, "_ALIGN_DOWN(%#llx, %#llx) is %#llx", (unsigned long long)v, (unsigned long long)n, (unsigned long long)u_align(1, width, v, n)); CHECK(u_align(2, width, v, n) == (v % n == 0), "_IS_ALIGNED(%#llx, %#llx)", (unsigned long long)v, (unsigned long long)n);
    CHECK(u_ispow2(width, v) == (__builtin_popcountll(v) == 1), "_IS_POW2(%#llx) is %d", (unsigned long long)v, u_ispow2(width, v));
    unsigned __int128 np = 1; while (np < v) np *= 2; if (v && np <= max) { CHECK(u_nextpow2(width, v) == (uint64_t)np, "NEXTPOW2(%#llx) is %#llx", (unsigned long long)v, (unsigned long long)u_nextpow2(width, v)); if (width == 8) CHECK(putils::round_up_pow2<uint64_t>(v) == (uint64_t)np, "round_up_pow2(%#llx)", (unsigned long long)v); if (width == 4) CHECK(putils::round_up_pow2<uint32_t>((uint32_t)v) == (uint32_t)np, "round_up_pow2(%#llx)", (unsigned long long)v); }
    switch (width) { case 2: tmpl<uint16_t>(v, n); break; case 4: tmpl<uint32_t>(v, n); break; case 8: tmpl<uint64_t>(v, n); break; default:; } c.nontrivial(v % n != 0); c.label(width == 9 ? "pointer" : "integer");
}
TARGET(timeunits, 1, "durations and time units in 128-bit arithmetic, exact wherever the result fits; clocks never run backwards; non-trivial: result fits") {
    static const uint64_t U[] = {3600000000000ull, 60000000000ull, 1000000000ull, 1000000, 1000, 1}; int u = (int)g.range(0, 5); uint64_t n = g.flip() ? g.range(0, 100000) : ~0ull / U[u] - g.range(0, 5); if (g.flip()) n = g.u(64) % (~0ull / U[u]); TR("unit %d, %llu", u, (unsigned long long)n);
    CHECK(u_dur(u, n) == U[u] * n, "duration unit %d of %llu is %llu ns, not %llu", u, (unsigned long long)n, (unsigned long long)u_dur(u, n), (unsigned long long)(U[u] * n));
    static const uint64_t T[] = {1000000, 1000, 1, 1000000, 1000, 1}; long lim = u < 3 ? (long)(~0ull >> 1) / (long)T[u] : 0x7fffffff; long m = (long)(g.u(63) % (uint64_t)lim); CHECK(u_tm(u, m) == (uint64_t)m * T[u], "time unit %d of %ld is %llu", u, m, (unsigned long long)u_tm(u, m));
    if (g.chance(1, 16)) { uint64_t a = u_now(1), b = u_now(1); CHECK(b >= a, "timenow ran backwards"); struct timespec m0, r0; clock_gettime(CLOCK_MONOTONIC, &m0); uint64_t x = u_now(1), w = (uint64_t)m0.tv_sec * 1000000000ull + (uint64_t)m0.tv_nsec; CHECK(x >= w && x - w < 60000000000ull, "timenow is %llu, the monotonic clock %llu", (unsigned long long)x, (unsigned long long)w);
        for (int k : {0, 2}) { clock_gettime(CLOCK_REALTIME, &r0); uint64_t y = u_now(k), z = (uint64_t)r0.tv_sec * 1000000ull + (uint64_t)r0.tv_nsec / 1000; CHECK(y + 60000000 >= z && y < z + 60000000, "the clock %d gives %llu, it is %llu us", k, (unsigned long long)y, (unsigned long long)z); } }
    CHECK(u_arrsz(0) == 7 && u_arrsz(1) == 300 && u_arrsz(2) == 5, "ARRAY_SIZE"); c.nontrivial(n > 0);
}
TARGET(delims, 1, "delimiter bit sets over all 256 bytes, indexed by char and by int; non-trivial: 2-255 members") {
    std::string s = g.bytes(g.range(0, g.flip() ? 8 : 300)); uint8_t in[256]; bool sg = g.flip(); dl_test((const uint8_t*)s.data(), s.size(), in, sg); bool want[256] = {}; int n = 0; for (char x : s) n += !want[(uint8_t)x], want[(uint8_t)x] = true; TR("set %s%s", pbt::show(s).c_str(), sg ? ", char" : "");
    for (int i = 0; i < 256; i++) CHECK(in[i] == want[i], "the set says %d for character %d, %d was added", in[i], i, want[i]); c.nontrivial(n >= 2 && n < 256);
}
TARGET(nospec, 1, "array_index_nospec keeps an index that is in bounds and turns any other into 0, for unsigned and signed index types, any size up to half the range; non-trivial: the index is next to the size or to a sign boundary") {
    int width = g.pick<int>({1, 2, 4, 8, 5}), bits = width == 5 ? 64 : 8 * width; uint64_t max = bits == 64 ? ~0ull : (1ull << bits) - 1, n = val(g, bits); if (n > 1ull << 63) n >>= 1;
    uint64_t i = g.chance(1, 2) ? n + g.irange(-2, 2) : val(g, bits); i &= max; if (width == 5) { i = (uint64_t)(int64_t)(int32_t)i; }
    TR("index %#llx of %#llx, width %d", (unsigned long long)i, (unsigned long long)n, width); uint64_t r = u_nospec(width, i, n), w = i < n ? i : 0; c.nontrivial(i - n + 2 <= 4 || i >> (bits - 1)); c.label(i < n ? "in bounds" : "out of bounds");
    CHECK(r == w, "array_index_nospec(%#llx, %#llx) is %#llx, expected %#llx", (unsigned long long)i, (unsigned long long)n, (unsigned long long)r, (unsigned long long)w);
}
