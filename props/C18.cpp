//@ src: src/strsplit.c src/strsplit_csv.c src/splitargs.c src/strtrim.c
//@ quick: 16
// C18: tokenisers vs independently written reference tokenisers, strings and result arrays in exactly-sized blocks.
#include "pbt.h"
#include <errno.h>
#include <ctype.h>
#include "utils/utils.h"
typedef std::string S;
typedef std::vector<S> V;
static S showv(const V& v) { S s = pbt::fmt("%zu:", v.size()); for (auto& x : v) s += " " + pbt::show(x, 30); return s.substr(0, 300); }
static S gen(pbt::Src& g, const S& al, size_t max) { if (max > 20 && g.chance(1, 100)) return g.fill(g.big(140000), g.flip() ? al : al.substr(0, 1) + al.substr(1 + g.range(0, al.size() - 2), 1)); S s; size_t n = g.range(0, max); bool any = g.chance(1, 10); for (size_t i = 0; i < n; i++) s += any ? (char)(1 + g.range(0, 254)) : al[g.range(0, al.size() - 1)]; return s; }
static V collect(char** a, int n, const Exact& e) { V v; for (int i = 0; i < n; i++) { CHECK((uint8_t*)a[i] >= e.p && (uint8_t*)a[i] < e.p + e.n, "field %d does not point into the string", i); v.push_back(S(a[i])); } return v; }
static V refsplit(S s, const S& d, bool sqz) {
    auto isd = [&](char x) { return d.find(x) != S::npos; }; V v; if (sqz) { size_t a = 0, b = s.size(); while (a < b && isspace((unsigned char)s[a])) a++; while (b > a && isspace((unsigned char)s[b - 1])) b--; s = s.substr(a, b - a); }
    S cur; for (size_t i = 0; i < s.size(); i++) { if (isd(s[i])) { v.push_back(cur); cur.clear(); if (sqz) while (i + 1 < s.size() && isd(s[i + 1])) i++; } else cur += s[i]; } if (cur.size()) v.push_back(cur);
    if (sqz && v.size() == 1 && v[0].empty()) v.clear(); // nothing but delimiters
    return v;
}
TARGET(split, 3, "strsplit and strsplit_quick of a generated string, delimiter set and array size vs a reference splitter (fields end at each delimiter or, squeezed, run of delimiters after trimming; an empty last field is none; nothing but squeezed delimiters is no field); non-trivial: >=2 fields") {
    static const char* const al[] = {"ab :", "a:.,;b", "a \t:\n", "abc\x80\xff:"}; S A = al[g.range(0, 3)], d; switch (g.weighted({3, 2, 1})) { case 0: d = S(1, A.back()); break; case 1: for (char x : A) if (g.flip()) d += x; break; default: d = gen(g, A, 6); } S s = gen(g, A, g.chance(1, 6) ? 200 : 24); bool sqz = g.flip(); V want = refsplit(s, d, sqz);
    // squeezed, with white space among the delimiters and others too, trimming may change what the first run is; the reference trims first too
    TR("split %s by %s%s", pbt::show(s).c_str(), pbt::show(d).c_str(), sqz ? ", squeezing" : "");
    { Exact e(s, true), ed(d, true); int n = -7; char** r = strsplit(g.chance(1, 8) ? 0 : &n, e.c(), ed.c(), sqz); CHECK(r, "strsplit returned no array"); if (n != -7) { CHECK(n == (int)want.size(), "strsplit found %d fields, there are %s", n, showv(want).c_str()); V got = collect(r, n, e); CHECK(got == want, "strsplit gave %s, expected %s", showv(got).c_str(), showv(want).c_str()); } free(r); }
    size_t cap = g.flip() ? want.size() : g.range(0, want.size() + 2); Exact e(s, true), ed(d, true), arr(cap * sizeof(char*)); int n = strsplit_quick((char**)arr.p, (int)cap, e.c(), ed.c(), sqz);
    if (want.size() > cap) CHECK(n < 0, "strsplit_quick returned %d for %zu fields and %zu slots", n, want.size(), cap); else { CHECK(n == (int)want.size(), "strsplit_quick with %zu slots returned %d, fields %s", cap, n, showv(want).c_str()); V got = collect((char**)arr.p, n, e); CHECK(got == want, "strsplit_quick gave %s, expected %s", showv(got).c_str(), showv(want).c_str()); }
    c.leakcheck = true; c.nontrivial(want.size() >= 2); c.label(sqz ? "squeezed" : "kept"); if (want.size() > 16) c.label("more than 16 fields"); if (want.size() > cap) c.label("array too small");
}
// 0 ok, else error
static int refcsv(const S& s, const S& seps, V& v) {
    S cur; char q = 0; for (size_t i = 0; i < s.size(); i++) { char x = s[i]; if (x == '"' || x == '\'') { if (!q) q = x; else if (q == x) { if (s[i - 1] == '\\') cur.back() = x; else q = 0; } else cur += x; } else if (!q && seps.find(x) != S::npos) { v.push_back(cur); cur.clear(); } else cur += x; }
    if (q) return -EINVAL; if (cur.size()) v.push_back(cur); return 0;
}
TARGET(csv, 3, "strsplit_csv of a generated string with quotes, escaped quotes and separators, and any array size, vs a reference parser; non-trivial: a quote and a separator present") {
    static const char* const al[] = {"ab,\"", "a,;'\"\\", "a \",'x\\", "x\xe9,\"'"}; S A = al[g.range(0, 3)]; S s = gen(g, A, 24), sep = g.flip() ? "" : g.pick<const char*>({",", ";", ",;", ":", ", \t", "\xe9", "a"}); bool dflt = sep.empty(); if (dflt) sep = ",";
    V want; int err = refcsv(s, sep, want); if (err && g.chance(3, 4)) for (const char* q : {"\"", "'"}) { V w; if (!refcsv(s + q, sep, w)) { s += q; want = w; err = 0; break; } } size_t cap = g.flip() ? want.size() : g.range(0, want.size() + 2); TR("csv %s by %s, %zu slots", pbt::show(s).c_str(), pbt::show(sep).c_str(), cap);
    Exact e(s, true), es(sep, true), arr(cap * sizeof(char*)); int n = strsplit_csv((char**)arr.p, (int)cap, e.c(), dflt ? 0 : es.c());
    if (err) CHECK(n == -EINVAL || (n == -ENOSPC && want.size() > cap), "strsplit_csv returned %d for an unterminated quote", n); else if (want.size() > cap) CHECK(n == -ENOSPC, "strsplit_csv returned %d for %zu fields and %zu slots", n, want.size(), cap);
    else { CHECK(n == (int)want.size(), "strsplit_csv returned %d, fields %s", n, showv(want).c_str()); V got = collect((char**)arr.p, n, e); CHECK(got == want, "strsplit_csv gave %s, expected %s", showv(got).c_str(), showv(want).c_str()); }
    c.nontrivial(s.find_first_of("\"'") != S::npos && s.find_first_of(sep) != S::npos); c.label(err ? "unterminated" : want.size() > cap ? "array too small" : "split");
}
static int refargs(const S& s, V& v) { size_t i = 0; auto sp = [](char x) { return x == ' ' || x == '\t'; }; while (true) { while (i < s.size() && sp(s[i])) i++; if (i == s.size()) return 0; S w; char q = 0; for (; i < s.size() && (q || !sp(s[i])); i++) { if (q) { if (s[i] == q) q = 0; else w += s[i]; } else if (s[i] == '"' || s[i] == '\'') q = s[i]; else w += s[i]; } if (q) return -EINVAL; v.push_back(w); } }
TARGET(args, 3, "strsplitargs of a generated command line (blanks, both quotes, partly quoted words, empty quoted words) vs a reference shell word splitter; non-trivial: a quote and a blank present") {
    static const char* const al[] = {"ab \"", "a \t'\"", "x '", "a\xe9 \"b"}; S A = al[g.range(0, 3)], s = gen(g, A, 28); for (char& x : s) if (x == '\\' || (isspace((unsigned char)x) && x != ' ' && x != '\t')) x = '_';
    V want; int err = refargs(s, want); if (err && g.chance(3, 4)) for (const char* q : {"\"", "'"}) { V w; if (!refargs(s + q, w)) { s += q; want = w; err = 0; break; } } size_t cap = g.flip() ? want.size() : g.range(0, want.size() + 2); TR("args %s, %zu slots", pbt::show(s).c_str(), cap); Exact e(s, true), arr(cap * sizeof(char*)); int n = strsplitargs((char**)arr.p, cap, e.c());
    if (err) CHECK(n == -EINVAL || (n == -ENOSPC && want.size() + 1 > cap), "strsplitargs returned %d for an unterminated quote", n); else if (want.size() > cap) CHECK(n == -ENOSPC, "strsplitargs returned %d for %zu words and %zu slots", n, want.size(), cap);
    else { CHECK(n == (int)want.size(), "strsplitargs returned %d, words %s", n, showv(want).c_str()); V got = collect((char**)arr.p, n, e); CHECK(got == want, "strsplitargs gave %s, expected %s", showv(got).c_str(), showv(want).c_str()); }
    c.nontrivial(s.find_first_of("\"'") != S::npos && s.find_first_of(" \t") != S::npos); c.label(err ? "unterminated" : want.size() > cap ? "array too small" : "split");
}
TARGET(anybytes, 1, "arbitrary bytes (backslashes, control characters) and array sizes through all tokenisers: no access outside the string or the array, counts within the array; non-trivial: >=4 bytes") {
    S s = gen(g, " \t\n\\\"',;a", 40), d = gen(g, " ,;\\\"a", 4); size_t cap = g.range(0, 6); TR("%s / %s, %zu slots", pbt::show(s).c_str(), pbt::show(d).c_str(), cap);
    for (int k = 0; k < 4; k++) { Exact e(s, true), ed(d, true), arr(cap * sizeof(char*)); char** a = (char**)arr.p; int n = k == 0 ? strsplit_quick(a, (int)cap, e.c(), ed.c(), 0) : k == 1 ? strsplit_quick(a, (int)cap, e.c(), ed.c(), 1) : k == 2 ? strsplit_csv(a, (int)cap, e.c(), ed.c()) : strsplitargs(a, cap, e.c()); CHECK(n <= (int)cap, "tokeniser %d returned %d for %zu slots", k, n, cap); if (n > 0) collect(a, n, e); }
    c.nontrivial(s.size() >= 4);
}
