//@ src: src/hashtable/xorfilter.c
//@ wrap: getentropy
//@ libs: -lm
//@ quick: 20
//@ hang: 60
// C05: xor filters hold every key they were built from.
#include "xor_common.h"
#include <math.h>

TARGET(members, 6, "build an 8- or 16-bit filter from n distinct keys (n from 1; sequential, strided, shifted, complemented, random) and query each; the caller's key array must be unchanged and read only in bounds; non-trivial: n >= 2") {
    c.leakcheck = true; xr_salt = g.u(); xr_calls = 0;
    size_t n = 1 + (g.chance(1, 300) ? 20000 + g.big(180000) : g.chance(1, 12) ? g.range(0, 20000) : g.chance(1, 3) ? g.range(0, 600) : g.range(0, 40)); int st;
    auto ks = xr_keys(g, n, &st); n = ks.size(); bool w16 = g.flip();
    TR("xor%d of %zu keys, style %d, first %llx", w16 ? 16 : 8, n, st, (unsigned long long)ks[0]);
    Exact e(n * 8); memcpy(e.p, ks.data(), n * 8);
    Xorfilter* x = w16 ? Xorfilter_new16((uint64_t*)e.p, n) : Xorfilter_new8((uint64_t*)e.p, n);
    CHECK(x, "no filter for %zu distinct keys", n);
    CHECK(!memcmp(e.p, ks.data(), n * 8), "building changed the caller's keys");
    for (size_t i = 0; i < n; i++) CHECK(Xorfilter_contains(x, ks[i]), "key %zu of %zu (%llx) is reported absent", i, n, (unsigned long long)ks[i]);
    for (size_t i = 0; i < n; i += 1 + n / 16) CHECK(Xorfilter_contains(x, ks[i]), "second query of key %zu fails", i);
    double bpe = Xorfilter_bpe(x), want = (w16 ? 16.0 : 8.0) * (1.23 * (double)n + 33) / (double)n;
    CHECK(bpe >= (w16 ? 16 : 8) * 1.23 && bpe <= want + 1e-9, "%.3f bits per entry; the construction needs %.3f", bpe, want);
    CHECK(xr_calls < 200, "%llu seeds were tried", (unsigned long long)xr_calls);
    for (int i = 0; i < 50; i++) (void)Xorfilter_contains(x, g.u());
    c.nontrivial(n >= 2); c.label(w16 ? "16-bit" : "8-bit"); if (n < 18) c.label("n<18"); if (n > 5000) c.label("n>5000");
    Xorfilter_delete(x);
}
TARGET(foreign, 1, "false-positive rate over 100k (8-bit) or 600k (16-bit) foreign keys; non-trivial: always") {
    c.leakcheck = true; xr_salt = g.u();
    size_t n = 1 + (g.chance(1,4) ? g.range(0, 9000) : g.flip() ? g.range(0, 1500) : g.range(0, 60)); auto ks = xr_keys(g, n); n = ks.size(); bool w16 = g.flip();
    TR("xor%d of %zu keys", w16 ? 16 : 8, n);
    std::set<uint64_t> in(ks.begin(), ks.end());
    Xorfilter* x = w16 ? Xorfilter_new16(ks.data(), n) : Xorfilter_new8(ks.data(), n); CHECK(x, "no filter for %zu distinct keys", n);
    uint64_t Q = w16 ? 600000 : 100000, hits = 0, asked = 0, base = g.u(); int style = (int)g.range(0, 2);
    for (uint64_t i = 0; i < Q; i++) { uint64_t k = style == 0 ? base + i : style == 1 ? xr_mix(base + i) : ks[0] + i + 1; if (in.size() < 100 ? in.count(k) : in.count(k)) continue; asked++; hits += !!Xorfilter_contains(x, k); }
    double mu = (double)asked / (w16 ? 65536.0 : 256.0);
    // Known finding (KNOWN_FINDINGS, C05): in filters of even slot count and fewer than 3000 keys the slot index and the fingerprint
    // share hash bits, which multiplies the rate. Those are held to a looser bound, all others to the nominal rate.
    size_t slots = (size_t)(32.0 + ceil(1.23 * (double)n)) / 3; bool strict = (slots & 1) || n >= 3000; double tol = strict ? 1.5 : w16 ? 25 : 6;
    c.label(strict ? "nominal rate" : "small even filter");
    CHECK((double)hits <= tol * mu + 9 * sqrt(tol * mu) + 5, "%llu of %llu foreign keys reported present; %.1f expected", (unsigned long long)hits, (unsigned long long)asked, mu);
    c.nontrivial(true); c.label(w16 ? "16-bit" : "8-bit");
    Xorfilter_delete(x);
}
TARGET(repeated, 1, "keys given more than once, or none: no filter, or one with every key, and nothing is kept; non-trivial: a repeated key") {
    c.leakcheck = true; xr_salt = g.u(); xr_calls = 0; size_t n = !g.chance(1, 400) ? 0 : 1 + g.range(0, 3); std::vector<uint64_t> ks; if (n) ks = xr_keys(g, n); size_t m = ks.size(); if (m) for (size_t i = 0, d = 1 + g.range(0, 3); i < d; i++) ks.insert(ks.begin() + (long)g.range(0, ks.size()), ks[g.range(0, m - 1)]);
    bool w16 = g.flip(); Exact e(ks.size() * 8); if (ks.size()) memcpy(e.p, ks.data(), ks.size() * 8); Xorfilter* x = w16 ? Xorfilter_new16((uint64_t*)e.p, ks.size()) : Xorfilter_new8((uint64_t*)e.p, ks.size()); TR("xor%d of %zu keys, %zu different: %s", w16 ? 16 : 8, ks.size(), m, x ? "built" : "none");
    if (x) { for (uint64_t k : ks) CHECK(Xorfilter_contains(x, k), "key %llx is reported absent", (unsigned long long)k); Xorfilter_delete(x); } c.label(m ? x ? "repeated, built" : "repeated, none" : "no keys"); c.nontrivial(m > 0);
}
