//@ src: src/strcopy.c src/strtrim.c src/strunquote.c src/dirname.c@-Ddirname=pl_dirname src/strcasecmp.c@-Dstrcasecmp=pl_strcasecmp,-Dstrncasecmp=pl_strncasecmp src/strlcpy.c@-Dstrlcpy=pl_strlcpy
//@ quick: 14
// C19: string trimming, unquoting, bounded copy, comparison and directory part vs reference functions / glibc.
#include "pbt.h"
#include <ctype.h>
#include <strings.h>
#include <libgen.h>
#include "utils/utils.h"
extern "C" const char* pl_dirname(char*, size_t, const char*);
extern "C" int pl_strcasecmp(const char*, const char*);
extern "C" int pl_strncasecmp(const char*, const char*, size_t);
extern "C" size_t pl_strlcpy(char*, const char*, size_t);
typedef std::string S;
static S gen(pbt::Src& g, const S& al, size_t max) { if (max >= 14 && g.chance(1, 100)) return g.fill(g.big(70000), al); S s; size_t n = g.range(0, max); bool any = g.chance(1, 10); for (size_t i = 0; i < n; i++) s += any ? (char)(1 + g.range(0, 254)) : al[g.range(0, al.size() - 1)]; return s; }
static int sgn(long x) { return x < 0 ? -1 : x > 0; }

TARGET(copy, 2, "strcopy and strlcpy of a generated string into a buffer of a generated size: longest prefix that fits, terminated, nothing else of the buffer written, truncation told apart; non-trivial: string not empty") {
    S s = gen(g, "ab\xff", g.chance(1, 8) ? 300 : 16); size_t n = g.flip() ? s.size() + g.range(0, 2) : g.range(0, 24), keep = n ? std::min(n - 1, s.size()) : 0; TR("%s into %zu bytes", pbt::show(s).c_str(), n); Exact src(s, true);
    for (int k = 0; k < 2; k++) {
        if (k == 0 && !n) continue; Exact d(n); if (n) memset(d.p, 0x5a, n); long r = k == 0 ? (long)strcopy(d.c(), n, src.c()) : (long)pl_strlcpy(d.c(), src.c(), n); const char* nm = k ? "strlcpy" : "strcopy";
        if (k) CHECK(r == (long)s.size(), "strlcpy returned %ld, the source has %zu bytes", r, s.size()); else if (s.size() >= n) CHECK(r < 0, "strcopy returned %ld for %zu bytes into %zu", r, s.size(), n); else CHECK(r == (long)s.size(), "strcopy returned %ld for %zu bytes into %zu", r, s.size(), n);
        if (n) { CHECK(!memcmp(d.p, s.data(), keep), "%s copied %s", nm, pbt::show(S((char*)d.p, keep)).c_str()); CHECK(d.p[keep] == 0, "%s did not terminate after %zu bytes", nm, keep); for (size_t i = keep + 1; i < n; i++) CHECK(d.p[i] == 0x5a, "%s wrote byte %zu, past the end of the copy", nm, i); }
        CHECK(S(src.c()) == s, "%s changed its source", nm);
    }
    c.nontrivial(s.size() > 0); c.label(s.size() >= n ? "truncated" : "fits"); if (s.size() + 1 == n) c.label("exact fit"); if (n == 0) c.label("no room at all");
}
TARGET(trim, 2, "strtrim of a generated string with white space of all kinds around and inside, in an exactly sized block; non-trivial: white space at an end") {
    static const char* const al[] = {"a ", " \t\n\r\v\fab", " \"\xa0\x85z", "ab"}; S s = gen(g, al[g.range(0, 3)], g.chance(1, 8) ? 200 : 14); TR("trim %s", pbt::show(s).c_str());
    size_t a = 0, b = s.size(); while (a < b && isspace((unsigned char)s[a])) a++; while (b > a && isspace((unsigned char)s[b - 1])) b--; S want = s.substr(a, b - a);
    Exact e(s, true); char* r = strtrim(e.c()); CHECK(r && (uint8_t*)r >= e.p && (uint8_t*)r < e.p + e.n, "strtrim returned a pointer outside the string"); CHECK(S(r) == want, "strtrim gave %s", pbt::show(S(r)).c_str()); CHECK(!strtrim(0), "strtrim(NULL) is not NULL");
    c.nontrivial(want.size() < s.size()); if (want.empty() && s.size()) c.label("nothing but white space"); if (want.find_first_of(" \t") != S::npos) c.label("inner blanks");
}
TARGET(unquote, 2, "strunquote of a generated string: matching pair removed, unmatched reported, unquoted untouched; non-trivial: starts with a quote") {
    static const char* const al[] = {"\"a", "'\"", "ab'", "\"\xe9 '"}; S s = gen(g, al[g.range(0, 3)], g.chance(1, 8) ? 100 : 6); if (g.chance(2, 3)) { char q = g.flip() ? '"' : '\''; s = q + s; if (g.flip()) s += q; } TR("unquote %s", pbt::show(s).c_str());
    int want = s.empty() || (s[0] != '"' && s[0] != '\'') ? 0 : s.size() < 2 || s.back() != s[0] ? -1 : s[0]; bool noret = g.chance(1, 8);
    if (g.chance(1, 50)) { char* o = 0; CHECK(strunquote(0, &o) == 0, "strunquote(NULL) reports a quote"); } Exact e(s, true); char* out = (char*)-1; int r = strunquote(e.c(), noret ? 0 : &out); if (want < 0) CHECK(r < 0, "strunquote returned %d for an unmatched quote", r); else CHECK(r == want, "strunquote returned %d, expected %d", r, want);
    if (want > 0) { if (!noret) { CHECK((uint8_t*)out >= e.p && (uint8_t*)out < e.p + e.n, "result outside the string"); CHECK(S(out) == s.substr(1, s.size() - 2), "unquoted to %s", pbt::show(S(out)).c_str()); } else CHECK(S(e.c() + 1) == s.substr(1, s.size() - 2), "unquoted in place to %s", pbt::show(S(e.c() + 1)).c_str()); } else CHECK(S(e.c()) == s, "strunquote changed a string it did not unquote to %s", pbt::show(S(e.c())).c_str());
    c.nontrivial(want != 0); c.label(want < 0 ? "unmatched" : want ? "matched" : "no quote"); if (want && s.size() <= 2) c.label("at most two characters");
}
static S refdir(S p) { // POSIX dirname
    if (p.empty()) return "."; while (p.size() > 1 && p.back() == '/') p.pop_back(); if (p == "/") return "/"; size_t k = p.rfind('/'); if (k == S::npos) return "."; while (k > 0 && p[k - 1] == '/') k--; return k ? p.substr(0, k) : "/";
}
TARGET(dirpart, 3, "dirname of a generated path (repeated, leading and trailing separators, dot components) with destination sizes around the path's, vs POSIX rules and glibc; non-trivial: a separator present") {
    S p = gen(g, g.pick<const char*>({"/a", "a/.", "//a", "ab/"}), g.chance(1, 8) ? 120 : 10); if (p.size() >= 2 && p[0] == '/' && p[1] == '/') { if (p.find_first_not_of('/') == S::npos || g.chance(7, 8)) { size_t k = p.find_first_not_of('/'); p = "/" + (k == S::npos ? S() : p.substr(k)); } }
    S want = refdir(p); { S t = p; t.push_back(0); CHECK(S(::dirname(&t[0])) == want || (p.size() > 1 && p[0] == '/' && p[1] == '/'), "harness: reference disagrees with the C library for %s", pbt::show(p).c_str()); }
    size_t n = g.chance(3, 4) ? p.size() + 1 + g.range(0, 3) : g.range(0, p.size() + 1); TR("dirname(%s) into %zu bytes", pbt::show(p).c_str(), n); Exact src(p, true), d(n); const char* r = pl_dirname(d.c(), n, src.c());
    if (n < want.size() + 1) CHECK(!r, "dirname fits no %zu bytes in %zu", want.size() + 1, n); else if (n >= p.size() + 1 && n >= 2) CHECK(r, "dirname failed with %zu bytes for a path of %zu", n, p.size());
    if (r) { CHECK((uint8_t*)r >= d.p && (uint8_t*)r < d.p + n, "result not in the buffer"); CHECK(S(r) == want, "dirname gave %s, expected %s", pbt::show(S(r)).c_str(), pbt::show(want).c_str()); } CHECK(S(src.c()) == p, "dirname changed its input");
    c.nontrivial(p.find('/') != S::npos); if (!r) c.label("no room"); if (p.find("//") != S::npos) c.label("repeated separator"); if (want == "/") c.label("root"); if (want == ".") c.label("no directory");
}
TARGET(casecmp, 2, "strcasecmp and strncasecmp of two generated strings (often equal but for case, or differing late) vs ASCII-folded byte comparison: sign, bound respected, no read past either end; non-trivial: both non-empty") {
    S a = gen(g, g.pick<const char*>({"aAbB", "zZ[{@`", "a\xe9\xc9\xff", "_^A"}), g.chance(1, 8) ? 120 : 8), b = a; for (char& x : b) if (g.flip() && isascii(x) && isalpha((unsigned char)x)) x ^= 0x20; if (g.flip()) { switch (g.range(0, 3)) { case 0: b = b.substr(0, g.range(0, b.size())); break; case 1: if (b.size()) b[g.range(0, b.size() - 1)] = (char)g.range(1, 255); break; case 2: b += (char)g.range(1, 255); break; default: b = gen(g, "aAbB\xe9", 8); } } if (g.flip()) std::swap(a, b);
    auto low = [](unsigned char x) { return x >= 'A' && x <= 'Z' ? x + 32 : (int)x; }; auto ref = [&](size_t n) { for (size_t i = 0; i < n; i++) { int x = i < a.size() ? low(a[i]) : 0, y = i < b.size() ? low(b[i]) : 0; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; };
    TR("casecmp %s %s", pbt::show(a).c_str(), pbt::show(b).c_str()); Exact ea(a, true), eb(b, true); int r = pl_strcasecmp(ea.c(), eb.c()); CHECK(sgn(r) == ref((size_t)-1), "strcasecmp returned %d, expected sign %d", r, ref((size_t)-1));
    size_t n = g.chance(1, 8) ? (size_t)-1 : g.range(0, std::max(a.size(), b.size()) + 2); r = pl_strncasecmp(ea.c(), eb.c(), n); CHECK(sgn(r) == ref(n), "strncasecmp(..., %zu) returned %d, expected sign %d", n, r, ref(n));
    { size_t m = std::min({n, a.size(), b.size()}); Exact ua(a.substr(0, m)), ub(b.substr(0, m)); r = pl_strncasecmp(ua.c(), ub.c(), m); CHECK(sgn(r) == ref(m), "strncasecmp of %zu unterminated bytes returned %d, expected sign %d", m, r, ref(m)); }
    c.nontrivial(a.size() && b.size()); c.label(ref((size_t)-1) ? "different" : "equal");
}
TARGETF(casepairs, 1, "strcasecmp and strncasecmp of all 65536 pairs of single bytes, after an equal prefix; non-trivial: always", pbt::ONCE) {
    c.nontrivial(true); S pre = g.pick<const char*>({"", "q", "Abc"}), pre2 = pre; for (char& x : pre2) x ^= 0x20; TR("prefix %s", pre.c_str()); auto low = [](int x) { return x >= 'A' && x <= 'Z' ? x + 32 : x; };
    for (int x = 0; x < 256; x++) for (int y = 0; y < 256; y++) { S a = pre + (char)x + "z", b = pre2 + (char)y + "z"; int w = sgn(low(x) - low(y)); int r1 = pl_strcasecmp(a.c_str(), b.c_str()), r2 = pl_strncasecmp(a.c_str(), b.c_str(), pre.size() + 1); CHECK(sgn(r1) == w && sgn(r2) == w, "bytes %02x and %02x: strcasecmp %d, strncasecmp %d, expected sign %d", x, y, r1, r2, w); }
}
