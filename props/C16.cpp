//@ src: src/pack.c
//@ wrap: malloc calloc realloc strdup posix_memalign aligned_alloc
//@ quick: 20
// C16: Pack/Unpack vs an independently written layout model.
#include "pbt.h"
#include "oom.h"
#include <errno.h>
#include <ctype.h>
#include "utils/utils.h"
#include "utils/pack.h"
typedef std::string B;
struct D { char t; int mode; size_t n; std::vector<uint64_t> v; B s; bool nul; }; // mode 0 plain, 1 counted, 2 '*'
static size_t width(char t) { switch (t) { case 'b': case 'B': case 'z': case 'Z': case 'x': return 1; case 's': case 'S': return 2; case 'i': case 'I': case 'f': return 4; default: return 8; } }
static void put(B& b, uint64_t v, size_t w, bool be) { for (size_t i = 0; i < w; i++) b += (char)(v >> 8 * (be ? w - 1 - i : i)); }
static uint64_t get(const uint8_t* p, size_t w, bool be) { uint64_t v = 0; for (size_t i = 0; i < w; i++) v |= (uint64_t)p[i] << 8 * (be ? w - 1 - i : i); return v; }
static bool isstr(char t) { return t == 'z' || t == 'Z'; }
struct Args { uint64_t i[24]; unsigned ni = 0; double d[8]; unsigned nd = 0; void I(uint64_t x) { if (ni < 24) i[ni++] = x; else ni = 99; } void F(double x) { if (nd < 8) d[nd++] = x; else nd = 99; } };
// integers and pointers occupy one 8-byte slot each, doubles their own registers (SysV x86-64)
static ssize_t callp(bool pk, uint8_t* b, size_t n, const char* f, const Args& A) {
    const uint64_t* a = A.i; const double* d = A.d;
#define ALL a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15],a[16],a[17],a[18],a[19],a[20],a[21],a[22],a[23],d[0],d[1],d[2],d[3],d[4],d[5],d[6],d[7]
    return pk ? Pack(b, n, f, ALL) : Unpack(b, n, f, ALL);
}
static std::vector<D> gend(pbt::Src& g, unsigned maxn, bool big) {
    std::vector<D> v; unsigned n = 1 + (unsigned)g.range(0, maxn - 1), slots = 0, dbl = 0;
    for (unsigned k = 0; k < n; k++) {
        D d; d.t = "bBsSiIlLfDxzZ"[g.range(0, 12)]; d.mode = (int)g.weighted({3, 3, 2}); d.nul = false; size_t lim = big ? (size_t)(g.chance(1, 60) ? g.big(d.t == 'z' || d.t == 'Z' || isstr(d.t) ? 70000 : 9000) : (size_t)g.pick<int>({12, 12, 300, 1200})) : 12; d.n = d.mode == 0 ? 1 : d.mode == 1 ? 1 + g.range(0, lim) : g.range(0, lim);
        bool fp = (d.t == 'f' || d.t == 'D') && d.mode != 2 && d.n == 1; unsigned use = d.mode == 2 ? 2 : 1; if (slots + use > 24 || (fp && dbl == 8)) break; slots += use; dbl += fp;
        if (isstr(d.t)) { d.nul = g.chance(1, 8); if (!d.nul) { d.s = g.bytes(g.range(0, d.mode ? d.n + 3 : lim)); for (char& c : d.s) if (!c) c = 'Z'; } if (d.mode == 0) d.n = d.s.size() + 1; }
        else if (d.t != 'x') for (size_t i = 0; i < d.n; i++) { uint64_t x = g.u(64); if (d.t == 'f') { float f; uint32_t y = (uint32_t)x; memcpy(&f, &y, 4); if (f != f) y = 0x3fc00000; x = y; } else if (d.t == 'D') { double f; memcpy(&f, &x, 8); if (f != f) x = 0x3ff8000000000000ull; } d.v.push_back(x); }
        v.push_back(d);
    }
    return v;
}
static B one(const D& d, pbt::Src& g) { B f; if (d.mode == 2) { f = "*"; while (g.chance(1, 2)) f += " \t\n"[g.range(0, 2)]; } else if (d.mode == 1) f = std::to_string(d.n); return f + d.t; }
static B sep(pbt::Src& g) { B s; while (g.chance(1, 2) && s.size() < 3) s += " \t\n"[g.range(0, 2)]; return s; }
// the argument(s) of one descriptor for Pack, its bytes appended to `out`
static void packarg(const D& d, Args& A, std::vector<B>& hold, B& out, bool be) {
    size_t w = width(d.t); if (d.mode == 2) { A.I(d.n | 0xdead000000000000ull); put(out, d.n, 4, be); }
    if (d.t == 'x') { out += B(d.n, 0); return; }
    if (isstr(d.t)) { hold.push_back(d.s + '\0'); B h = d.s.substr(0, d.n); h.resize(d.n, 0); if (d.nul) { A.I(0); out += B(d.n, 0); } else { A.I((uint64_t)(uintptr_t)hold.back().data()); out += h; } return; }
    for (auto x : d.v) put(out, x, w, be);
    if (d.mode != 2 && d.n == 1) { if (d.t == 'f') { float f; uint32_t y = (uint32_t)d.v[0]; memcpy(&f, &y, 4); A.F(f); } else if (d.t == 'D') { double f; memcpy(&f, &d.v[0], 8); A.F(f); } else { uint64_t m = w == 8 ? ~0ull : (1ull << 8 * w) - 1; A.I((d.v[0] & m) | (w < 4 ? (d.v[0] & 1 ? ~m & 0xffffffff : 0) : 0)); } return; }
    B a; for (auto x : d.v) put(a, x, w, false); hold.push_back(a); A.I((uint64_t)(uintptr_t)hold.back().data());
}
TARGET(pack, 3, "a generated format and arguments packed into buffers of the exact, a larger and shorter sizes; bytes, length and errors vs a layout model, then unpacked again; non-trivial: >=2 descriptors, one counted") {
    bool be = g.flip(); auto ds = gend(g, g.flip() ? 3 : 10, g.chance(1, 3)); B f = be ? ">" : g.flip() ? "<" : ""; std::vector<B> hold; hold.reserve(64); B want; Args A; bool cnt = false; std::vector<size_t> cuts;
    for (auto& d : ds) { f += (f.empty() ? "" : sep(g)) + one(d, g); packarg(d, A, hold, want, be); cuts.push_back(want.size()); cnt |= d.mode != 0; }
    f += sep(g); TR("Pack(%s), %zu bytes expected", pbt::show(f).c_str(), want.size());
    { Exact e(want.size()); memset(e.p, 0xAA, want.size()); ssize_t r = callp(true, e.p, want.size(), f.c_str(), A); CHECK(r == (ssize_t)want.size(), "Pack into a buffer of %zu bytes returned %zd", want.size(), r); CHECK(!memcmp(e.p, want.data(), want.size()), "Pack wrote %s, expected %s", pbt::show(B(e.c(), want.size())).c_str(), pbt::show(want).c_str()); }
    { size_t ex = 1 + g.range(0, 20); Exact e(want.size() + ex); memset(e.p, 0xAA, want.size() + ex); ssize_t r = callp(true, e.p, want.size() + ex, f.c_str(), A); CHECK(r == (ssize_t)want.size(), "Pack into a larger buffer returned %zd, not %zu", r, want.size()); CHECK(!memcmp(e.p, want.data(), want.size()), "Pack into a larger buffer wrote other bytes"); for (size_t i = 0; i < ex; i++) CHECK(e.p[want.size() + i] == 0xAA, "Pack changed byte %zu after the encoding", i); }
    for (int k = 0; k < 3 && want.size(); k++) { size_t s = k == 0 ? want.size() - 1 : g.range(0, want.size() - 1); Exact e(s); ssize_t r = callp(true, e.p, s, f.c_str(), A); CHECK(r == -ENOSPC, "Pack of %zu bytes into a buffer of %zu returned %zd, not -ENOSPC", want.size(), s, r); }
    // and back
    Args U; std::vector<uint32_t> vn(ds.size()); std::vector<void*> ptr(ds.size()); std::vector<Exact*> arr(ds.size());
    for (size_t i = 0; i < ds.size(); i++) { D& d = ds[i]; if (d.mode == 2) U.I((uintptr_t)&vn[i]); if (d.t == 'x') continue; if (isstr(d.t) || d.mode == 2) U.I((uintptr_t)&ptr[i]); else { arr[i] = new Exact(d.n * width(d.t)); U.I((uintptr_t)arr[i]->p); } }
    Exact in(want); ssize_t r = callp(false, in.p, want.size(), f.c_str(), U); CHECK(r == (ssize_t)want.size(), "Unpack of the %zu packed bytes returned %zd", want.size(), r);
    for (size_t i = 0; i < ds.size(); i++) { D& d = ds[i]; size_t w = width(d.t); if (d.mode == 2) CHECK(vn[i] == d.n, "element %zu: count %u, packed %zu", i, vn[i], d.n); if (d.t == 'x') continue;
        if (isstr(d.t)) { if (d.n) { B h = d.s.substr(0, d.n); CHECK(ptr[i] && strlen((char*)ptr[i]) == (d.mode ? h.size() : d.s.size()) && B((char*)ptr[i]) == h, "string %zu comes back as %s, packed %s", i, ptr[i] ? pbt::show((char*)ptr[i]).c_str() : "nothing", pbt::show(h).c_str()); } }
        else { const uint8_t* p = d.mode == 2 ? (uint8_t*)ptr[i] : arr[i]->p; uint64_t m = w == 8 ? ~0ull : (1ull << 8 * w) - 1; for (size_t k = 0; k < d.n; k++) CHECK(p && get(p + k * w, w, false) == (d.v[k] & m), "element %zu[%zu] (%c) does not come back", i, k, d.t); }
        free(ptr[i]); delete arr[i]; }
    c.nontrivial(ds.size() >= 2 && cnt); if (be) c.label("big endian");
}
TARGET(unpack, 2, "arbitrary or mutated bytes decoded under a generated format, with buffers of any length and null arguments, vs a reference decoder; non-trivial: >=2 descriptors") {
    bool be = g.flip(); auto ds = gend(g, g.flip() ? 3 : 8, false); B f = be ? ">" : g.flip() ? "<" : ""; std::vector<B> hold; hold.reserve(64); B buf; Args A; for (auto& d : ds) { f += (f.empty() ? "" : sep(g)) + one(d, g); packarg(d, A, hold, buf, be); }
    switch (g.weighted({2, 2, 1})) { case 0: buf.resize(g.range(0, buf.size())); break; case 1: for (int k = 0; k < 3 && buf.size(); k++) buf[g.range(0, buf.size() - 1)] = (char)g.u(8); if (g.flip()) buf.resize(g.range(0, buf.size())); break; default: buf = g.bytes(g.range(0, 80)); for (char& ch : buf) if ((uint8_t)ch < 64) ch = 0; }
    int nullat = g.chance(1, 6) ? (int)g.range(0, ds.size() - 1) : -1; bool nullcnt = g.flip();
    // reference
    size_t pos = 0, n = buf.size(); int err = 0; const uint8_t* q = (const uint8_t*)buf.data(); std::vector<size_t> cnt(ds.size()), at(ds.size()); std::vector<char> has(ds.size()); size_t i = 0;
    for (; i < ds.size() && !err; i++) { D& d = ds[i]; size_t w = width(d.t); uint64_t k = d.n; if (d.mode == 2) { if (nullat == (int)i && nullcnt) { err = -EINVAL; break; } if (n - pos < 4) { err = -ENOSPC; break; } k = get(q + pos, 4, be); pos += 4; cnt[i] = k; has[i] = 2; }
        if (d.t == 'x') { if (k > n - pos) err = -ENOSPC; else pos += k; continue; }
        if (nullat == (int)i && !(d.mode == 2 && nullcnt)) { err = -EINVAL; break; }
        if (d.mode == 2 && k == 0) continue;
        if (isstr(d.t) && d.mode == 0) { size_t e = buf.find('\0', pos); if (e == B::npos) { err = -EINVAL; break; } at[i] = pos; cnt[i] = e + 1 - pos; pos = e + 1; has[i] = 1; continue; }
        if (k * w > n - pos) { err = -ENOSPC; break; } at[i] = pos; cnt[i] = k; pos += k * w; has[i] = 1; }
    Args U; std::vector<uint32_t> vn(ds.size(), 0xabcdef); std::vector<void*> ptr(ds.size()); std::vector<Exact*> arr(ds.size());
    for (size_t j = 0; j < ds.size(); j++) { D& d = ds[j]; bool nl = nullat == (int)j; if (d.mode == 2) U.I(nl && nullcnt ? 0 : (uintptr_t)&vn[j]); if (d.t == 'x') continue; if (nl && !(d.mode == 2 && nullcnt)) { U.I(0); continue; } if (isstr(d.t) || d.mode == 2) U.I((uintptr_t)&ptr[j]); else { arr[j] = new Exact(d.n * width(d.t)); U.I((uintptr_t)arr[j]->p); } }
    Exact in(buf); TR("Unpack(%s, %s), null argument %d: expect %zd", pbt::show(buf).c_str(), pbt::show(f).c_str(), nullat, err ? (ssize_t)err : (ssize_t)pos); ssize_t r = callp(false, in.p, n, f.c_str(), U);
    CHECK(r == (err ? (ssize_t)err : (ssize_t)pos), "Unpack returned %zd, expected %zd", r, err ? (ssize_t)err : (ssize_t)pos); CHECK(!memcmp(in.p, buf.data(), n), "Unpack changed its input");
    for (size_t j = 0; j < ds.size(); j++) { D& d = ds[j]; size_t w = width(d.t); if (!err) { if (d.mode == 2) CHECK(vn[j] == cnt[j], "element %zu: count %u, encoded %zu", j, vn[j], cnt[j]);
            if (has[j] == 1 && d.t != 'x') { if (isstr(d.t)) CHECK(ptr[j] && !memcmp(ptr[j], q + at[j], cnt[j]) && ((char*)ptr[j])[cnt[j]] == 0, "string %zu was decoded wrongly", j); else { const uint8_t* p = d.mode == 2 ? (uint8_t*)ptr[j] : arr[j]->p; for (size_t k = 0; k < cnt[j]; k++) CHECK(p && get(p + k * w, w, false) == get(q + at[j] + k * w, w, be), "element %zu[%zu] (%c) was decoded wrongly", j, k, d.t); } } }
        free(ptr[j]); delete arr[j]; }
    c.leakcheck = true; c.nontrivial(ds.size() >= 2); c.label(err ? "rejected" : "decoded");
}
TARGET(malformed, 1, "a format with a valid beginning and a malformed or too large descriptor: Pack and Unpack must return the documented error and stay inside their buffers; non-trivial: always") {
    bool be = g.flip(); std::vector<D> ds; if (g.flip()) { ds = gend(g, 3, false); for (auto& d : ds) if (isstr(d.t)) d.t = 'B', d.v.assign(d.n = d.mode == 1 ? std::max<size_t>(d.n, 1) : d.mode == 0 ? 1 : d.n, 7); }
    B f = be ? ">" : g.flip() ? "<" : ""; std::vector<B> hold; hold.reserve(64); B buf; Args A, U; std::vector<uint32_t> vn(ds.size() + 1); std::vector<void*> ptr(ds.size() + 1); std::vector<Exact*> arr(ds.size());
    for (size_t i = 0; i < ds.size(); i++) { D& d = ds[i]; f += one(d, g) + (i + 1 < ds.size() ? sep(g) : " "); packarg(d, A, hold, buf, be); if (d.mode == 2) U.I((uintptr_t)&vn[i]); if (d.t == 'x') continue; if (d.mode == 2) U.I((uintptr_t)&ptr[i]); else { arr[i] = new Exact(d.n * width(d.t)); U.I((uintptr_t)arr[i]->p); } }
    int kind = (int)g.range(0, 6), wantp = 0, wantu = 0; B bad; B extra; uint64_t big = 0; char ty = "bBsSiIlLfDzZ"[g.range(0, 11)];
    switch (kind) {
        case 0: { char ch; do ch = (char)(1 + g.range(0, 254)); while (isspace((unsigned char)ch) || isdigit((unsigned char)ch) || strchr("bBsSiIlLfDdxzZ*", ch) || (f.empty() && strchr("<>", ch))); bad = g.flip() ? B(1, ch) : std::to_string(1 + g.range(0, 400)) + ch; wantp = wantu = -ENOENT; break; }
        case 1: bad = B(g.pick<const char*>({"4294967296", "42949672950", "99999999999", "18446744073709551616", "18446744073709551617", "100000000000000000000000"})) + ty; wantp = wantu = -E2BIG; break;
        case 2: bad = g.pick<const char*>({"1", "12", "407", "4294967295"}); wantp = wantu = 0; break;                  // count without descriptor
        case 3: bad = "*"; put(extra, 3, 4, be); A.I(3); U.I((uintptr_t)&vn.back()); break;                  // star at the end
        case 4: bad = B("*") + sep(g) + "*" + ty; { uint32_t k0 = g.chance(1, 2) ? 0 : (uint32_t)g.range(1, 5); put(extra, k0, 4, be); A.I(k0); } if (g.chance(2, 3)) { uint32_t k1 = (uint32_t)g.range(0, 1); put(extra, k1, 4, be); A.I(k1); } U.I((uintptr_t)&vn.back()); break;
        case 5: bad = "*" + std::to_string(1 + g.range(0, 300)) + ty; { uint32_t k0 = g.chance(1, 2) ? 0 : (uint32_t)g.range(1, 5); put(extra, k0, 4, be); A.I(k0); } U.I((uintptr_t)&vn.back()); break;
        default: big = g.pick<uint64_t>({4294967295u, 2147483648u, 1073741824u, 536870912u, 70000}); bad = std::to_string(big) + ty; wantp = wantu = -ENOSPC; break; // valid, but fits nowhere
    }
    f += bad; static char dummy[8] = "x"; static char* dp; while (A.ni < 24) A.I((uintptr_t)dummy); while (U.ni < 24) U.I((uintptr_t)&dp);
    TR("Pack/Unpack(%s)", pbt::show(f).c_str()); size_t room = buf.size() + extra.size() + g.range(0, 40);
    { Exact e(room); ssize_t r = callp(true, e.p, room, f.c_str(), A); CHECK(r < 0 && (!wantp || r == wantp), "Pack returned %zd for a malformed format%s", r, wantp ? pbt::fmt(", expected %d", wantp).c_str() : ""); }
    { buf += extra; buf.resize(room, 1); Exact e(buf); ssize_t r = callp(false, e.p, room, f.c_str(), U); CHECK(r < 0 && (!wantu || r == wantu), "Unpack returned %zd for a malformed format%s", r, wantu ? pbt::fmt(", expected %d", wantu).c_str() : ""); }
    for (void* p : ptr) free(p); for (auto* e : arr) delete e; c.nontrivial(true); static const char* const kn[] = {"unknown character", "huge count", "count at end", "star at end", "two stars", "star and count", "too large"}; c.label(kn[kind]);
}

TARGET(nomem, 1, "decoding with the n-th allocation failing: -ENOMEM, what was delivered before is right, nothing is lost, and the same call succeeds afterwards; non-trivial: an allocation failed") {
    c.leakcheck = true; bool be = g.flip(); auto ds = gend(g, g.flip() ? 3 : 8, g.chance(1, 8)); B f = be ? ">" : g.flip() ? "<" : ""; std::vector<B> hold; hold.reserve(64); B buf; Args A; for (auto& d : ds) { f += (f.empty() ? "" : sep(g)) + one(d, g); packarg(d, A, hold, buf, be); }
    int at = (int)g.range(0, 5); bool hit = false; TR("Unpack(%s), allocation %d fails", pbt::show(f).c_str(), at);
    for (int round = 0; round < 2; round++) {
        Args U; std::vector<uint32_t> vn(ds.size(), 0xabcdef); std::vector<void*> ptr(ds.size()); std::vector<Exact*> arr(ds.size());
        for (size_t j = 0; j < ds.size(); j++) { D& d = ds[j]; if (d.mode == 2) U.I((uintptr_t)&vn[j]); if (d.t == 'x') continue; if (isstr(d.t) || d.mode == 2) U.I((uintptr_t)&ptr[j]); else { arr[j] = new Exact(d.n * width(d.t)); U.I((uintptr_t)arr[j]->p); } }
        Exact in(buf); ssize_t r; { Oom o(round ? -1 : at); r = callp(false, in.p, buf.size(), f.c_str(), U); if (!round) hit = oom_hit; }
        if (round || !hit) CHECK(r == (ssize_t)buf.size(), "Unpack returned %zd, not %zu%s", r, buf.size(), round ? ", after a failed call" : ""); else CHECK(r == -ENOMEM, "Unpack returned %zd when an allocation failed", r);
        CHECK(!memcmp(in.p, buf.data(), buf.size()), "Unpack changed its input"); int given = 0;
        for (size_t j = 0; j < ds.size(); j++) { D& d = ds[j]; size_t w = width(d.t); bool al = d.t != 'x' && (isstr(d.t) || d.mode == 2) && d.n; if (!al) { free(ptr[j]); delete arr[j]; continue; }
            if (r >= 0) CHECK(ptr[j], "nothing delivered for element %zu", j);
            if (ptr[j]) { given++; if (isstr(d.t)) { B h = d.nul ? B() : d.s.substr(0, d.n); CHECK(B((char*)ptr[j]) == h, "string %zu was decoded wrongly", j); } else { uint64_t m = w == 8 ? ~0ull : (1ull << 8 * w) - 1; for (size_t k = 0; k < d.n; k++) CHECK(get((uint8_t*)ptr[j] + k * w, w, false) == (d.v[k] & m), "element %zu[%zu] (%c) was decoded wrongly", j, k, d.t); } }
            free(ptr[j]); delete arr[j]; }
        (void)given; if (!hit) break;
    }
    c.nontrivial(hit);
}
