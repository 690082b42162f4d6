//@ src: src/strtosize.c src/humanize.c
//@ quick: 14
// C20: number and size parsing vs a 128-bit reference; humanised sizes read back.
#include "pbt.h"
#include <errno.h>
#include <ctype.h>
#include "utils/utils.h"
#include "utils/strutils.h"
typedef std::string S;
typedef unsigned __int128 u128;
static int dig(unsigned char x) { return x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'z' ? x - 'a' + 10 : x >= 'A' && x <= 'Z' ? x - 'A' + 10 : 99; }
struct R { int err; uint64_t v; size_t end; };
// reference: blanks, sign, 0x for 16 and 0, digits up to the first letter or digit that is not one in this base
static R ref(const S& s, int base) {
    R r{0, 0, 0}; if (base < 0 || base > 36 || base == 1) { r.err = -EINVAL; r.end = (size_t)-1; return r; } size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) i++; r.end = i; if (i == s.size()) return r;
    bool neg = false; if (s[i] == '-' || s[i] == '+') neg = s[i++] == '-'; bool x = i + 1 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X'); if ((base == 0 || base == 16) && x) { i += 2; base = 16; } else if (base == 0) base = i < s.size() && s[i] == '0' ? 8 : 10;
    u128 v = 0; for (; i < s.size(); i++) { if (!isalnum((unsigned char)s[i])) { r.err = -EINVAL; break; } int d = dig(s[i]); if (d >= base) break; v = v * base + d; if (v > UINT64_MAX) { r.err = -ERANGE; break; } } r.end = i; r.v = neg ? 0 - (uint64_t)v : (uint64_t)v; return r;
}
static S put(u128 v, int base, bool up) { if (!v) return "0"; S s; while (v) { int d = (int)(v % base); s.insert(s.begin(), d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= base; } return s; }
static S num(pbt::Src& g, int& base, u128 lim) { // a number around the limit, a small one, or noise
    static const int bs[] = {0, 10, 16, 8, 2, 36, 3, 7, 0, 10}; base = g.chance(1, 6) ? (int)g.range(2, 36) : bs[g.range(0, 9)]; int w = base; S pre; if (base == 0) { w = (int)g.pick<int>({10, 16, 8}); pre = w == 16 ? (g.flip() ? "0x" : "0X") : w == 8 ? "0" : ""; } else if (base == 16 && g.flip()) pre = "0x";
    u128 v; switch (g.weighted({3, 3, 2, 2})) { case 0: v = lim + g.range(0, 6) - 3; break; case 1: v = g.u(64); break; case 2: v = g.u(10); break; default: { u128 m = ((u128)1 << g.range(1, 66)); v = m + g.range(0, 2) - 1; } }
    S s = put(v, w, g.flip()); if (w == 10 && base == 0 && s != "0") pre = ""; if (g.chance(1, 6)) s = S(g.range(1, 5), '0') + s; if (base == 0 && w == 10 && s[0] == '0') w = 8; S sg = g.chance(1, 6) ? (g.flip() ? "-" : "+") : ""; S ws = g.chance(1, 6) ? S(g.range(1, 3), g.pick<char>({' ', '\t', '\n'})) : ""; return ws + sg + pre + s;
}
TARGET(number, 3, "strtou64 of generated number strings in every base (around 2^64, leading zeros, signs, prefixes, trailing letters and noise) vs a 128-bit reference: value, error and end position; non-trivial: at least one digit") {
    int base; S s = num(g, base, (u128)UINT64_MAX + 1); switch (g.weighted({4, 2, 1, 1})) { case 1: s += g.pick<const char*>({"x", "Z", "g", "9", "8", "a", " ", ".", "\xe9", "-", "k"}); break; case 2: { s.clear(); size_t n = g.range(0, 8); for (size_t i = 0; i < n; i++) s += (char)g.range(1, 255); } break; case 3: { s.clear(); size_t n = g.range(0, 6); static const char al[] = " +-0xX19aFzZ"; for (size_t i = 0; i < n; i++) s += al[g.range(0, 11)]; } break; default:; } if (g.chance(1, 20)) base = (int)g.pick<int>({1, -1, 37, 100, -36});
    R w = ref(s, base); TR("strtou64(%s, base %d)", pbt::show(s).c_str(), base); Exact e(s, true); const char* end = 0; uint64_t v = 0x1122334455667788ull; bool noend = g.chance(1, 8); int r = strtou64(e.c(), noend ? 0 : &end, base, &v);
    CHECK(r == w.err, "strtou64 returned %d, expected %d", r, w.err); if (r == 0) CHECK(v == w.v, "parsed %llu, expected %llu", (unsigned long long)v, (unsigned long long)w.v); if (!noend && w.end != (size_t)-1) CHECK(end == e.c() + w.end, "end position %ld, expected %zu", (long)(end - e.c()), w.end);
    c.nontrivial(std::any_of(s.begin(), s.end(), [](char x) { return isdigit((unsigned char)x); })); c.label(w.err == -ERANGE ? "overflow" : w.err ? "malformed" : w.end < s.size() ? "stops early" : "whole string");
}
struct Z { int err; uint64_t v; };
static Z refsize(const S& s, int base) {
    R r = ref(s, base); if (r.err) return {r.err, 0}; size_t i = r.end; uint64_t m = 1; if (i < s.size()) { static const char u[] = "KMGTPE"; char x = s[i]; if (x == 'k') x = 'K'; const char* p = strchr(u, x); if (p) { m = 1ull << (10 * (p - u + 1)); i++; if (i < s.size() && s[i] == 'b') { m /= 8; i++; } else if (i < s.size() && s[i] == 'B') i++; } else if (x == 'B') i++; else return {-EINVAL, 0}; if (i < s.size() && !isspace((unsigned char)s[i])) return {-EINVAL, 0}; }
    if ((u128)r.v * m > UINT64_MAX) return {-ERANGE, 0}; return {0, (uint64_t)((u128)r.v * m)};
}
TARGET(size, 4, "strtosize of generated size strings (numbers around the overflow point of each suffix, all suffixes, bit and byte units, junk) vs a 128-bit reference; also strtoi<T> for narrow types; non-trivial: a unit suffix present") {
    int k = (int)g.range(0, 7); static const char* const suf[] = {"", "k", "K", "M", "G", "T", "P", "E"}; static const int sh[] = {0, 10, 10, 20, 30, 40, 50, 60}; bool bits = k && g.chance(1, 4); int base; S s = num(g, base, (u128)1 << (64 - sh[k] + (bits ? 3 : 0))); if (base > 10 && g.chance(2, 3)) { base = 0; }
    s += suf[k]; if (bits) s += "b"; else if (g.chance(1, 4)) s += "B"; if (g.chance(1, 6)) s += g.pick<const char*>({"B", "b", "x", "i", "iB", " ", "\t", "k", "m", "g", "0", "\xa0", "Z"});
    Z w = refsize(s, base); TR("strtosize(%s, base %d)", pbt::show(s).c_str(), base); Exact e(s, true); uint64_t v = 77; int r = strtosize(e.c(), base, &v); CHECK(r == w.err, "strtosize returned %d, expected %d", r, w.err); if (!r) CHECK(v == w.v, "parsed %llu, expected %llu", (unsigned long long)v, (unsigned long long)w.v); if (g.chance(1, 8)) CHECK(strtosize(e.c(), base, 0) == w.err, "strtosize without a result pointer differs");
    { auto u8 = putils::strtoi<uint8_t>(s, base); bool ok = !w.err && w.v <= 255; CHECK(u8.second == ok, "strtoi<uint8_t> says %d for a value of %llu (err %d)", u8.second, (unsigned long long)w.v, w.err); if (ok) CHECK(u8.first == w.v, "strtoi<uint8_t> gave %u", u8.first);
      auto u32 = putils::strtoi<uint32_t>(s, base); ok = !w.err && w.v <= UINT32_MAX; CHECK(u32.second == ok, "strtoi<uint32_t> says %d for a value of %llu (err %d)", u32.second, (unsigned long long)w.v, w.err); if (ok) CHECK(u32.first == w.v, "strtoi<uint32_t> gave %u", u32.first);
      auto u64 = putils::strtoi<uint64_t>(s, base); CHECK(u64.second == !w.err, "strtoi<uint64_t> says %d (err %d)", u64.second, w.err); if (!w.err) CHECK(u64.first == w.v, "strtoi<uint64_t> gave %llu", (unsigned long long)u64.first); }
    c.nontrivial(k > 0); c.label(w.err == -ERANGE ? "overflow" : w.err ? "malformed" : "parsed"); if (!w.err && bits) c.label("bits"); if (!w.err && k) c.label(suf[k]);
}
TARGET(human, 3, "humanize_size of generated sizes (around powers of 1024 and their fractions) into generated buffer sizes: the text read back agrees with the size to the digits shown, output bounded and terminated; non-trivial: size above 1024") {
    uint64_t n; switch (g.weighted({2, 3, 2, 2})) { case 0: n = g.u(64); break; case 1: { uint64_t b = 1ull << (10 * g.range(1, 6)); n = b + g.range(0, 4) - 2; } break; case 2: { uint64_t b = 1ull << (10 * g.range(1, 6)); u128 x = (u128)b * g.range(1, 1023) + (u128)b * g.range(0, 1000) / 1000; n = x > UINT64_MAX ? UINT64_MAX - g.range(0, 3) : (uint64_t)x; } break; default: n = g.u(14); }
    TR("humanize %llu", (unsigned long long)n); Exact e(64); memset(e.p, 0x5a, 64); char* r = humanize_size(e.c(), 64, n); CHECK(r == e.c(), "does not return the buffer"); S t(r);
    char* q; uint64_t ip = strtoull(t.c_str(), &q, 10); CHECK(q != t.c_str() && isdigit((unsigned char)t[0]), "no number in %s", t.c_str()); uint64_t fr = 0, sc = 1; if (*q == '.') { q++; CHECK(isdigit((unsigned char)*q), "no digit after the point in %s", t.c_str()); for (; isdigit((unsigned char)*q); q++) { fr = fr * 10 + *q - '0'; sc *= 10; CHECK(sc <= 1000000, "absurd fraction in %s", t.c_str()); } } CHECK(*q == ' ', "no blank before the unit in %s", t.c_str()); S u = q + 1; uint64_t m = 0; static const char* const un[] = {"bytes", "kB", "MB", "GB", "TB", "PB", "EB"}; for (int i = 0; i < 7; i++) if (u == un[i]) m = 1ull << (10 * i); CHECK(m, "unknown unit in %s", t.c_str());
    u128 shown = ((u128)ip * sc + fr) * m, want = (u128)n * sc, d = shown > want ? shown - want : want - shown; if (sc == 1) CHECK(d == 0, "%s denotes %llu, not %llu", t.c_str(), (unsigned long long)(ip * m), (unsigned long long)n); else CHECK(d <= m, "%s is off by more than its last digit for %llu", t.c_str(), (unsigned long long)n);
    CHECK(ip <= 1024 || m >> 60, "%s is not in the largest unit that suits it", t.c_str()); CHECK(m == 1 ? n <= 1024 : n >= m, "unit of %s does not suit %llu", t.c_str(), (unsigned long long)n);
    size_t bs = g.range(1, 16); Exact sm(bs); humanize_size(sm.c(), bs, n); CHECK(S(sm.c()) == t.substr(0, bs - 1), "buffer of %zu holds %s of %s", bs, sm.c(), t.c_str());
    c.nontrivial(n > 1024); c.label(u.c_str() == S("bytes") ? "bytes" : sc > 1 ? "fraction" : "whole units");
}
