//@ src: src/escape.c src/unescape.c src/gstring.c
//@ quick: 14
// C21: escaping round-trips and hides the escape set; unescaping vs a reference decoder of the documented sequences.
#include "pbt.h"
#include <ctype.h>
#include "utils/gstring.h"
typedef std::string S;
static const char EC[] = "\\|%^~&\"'/$";
static S gen(pbt::Src& g, const S& al, size_t max) { if (max >= 20 && g.chance(1, 100)) return g.fill(g.big(70000), al); S s; size_t n = g.range(0, max); bool any = g.chance(1, 6); for (size_t i = 0; i < n; i++) s += any || g.chance(1, 12) ? (char)(1 + g.range(0, 254)) : al[g.range(0, al.size() - 1)]; return s; }
static void want(pbt::Ctx& c, gstr* g, const S& w, const char* what) { CHECK(gstr_len(g) < gstr_cap(g), "%s: length %zu, capacity %zu", what, gstr_len(g), gstr_cap(g)); CHECK(gstr_str(g)[gstr_len(g)] == 0, "%s: not terminated at its length", what); S got(gstr_str(g), gstr_len(g)); CHECK(got == w, "%s gave %s, expected %s", what, pbt::show(got).c_str(), pbt::show(w).c_str()); }
// the decoder: \\X literal, letters, \\0ooo octal, \\d.. decimal, \\xhh hex (left alone without digits), escape at the end stands for itself
static S dec(const S& s, char e, S* plain = 0) {
    S o; for (size_t i = 0; i < s.size();) { char x = s[i++]; if (x != e) { o += x; if (plain) *plain += x; continue; } if (i == s.size()) { o += e; break; } x = s[i++]; static const char f[] = "abeEfnrtv", t[] = "\a\b\033\033\f\n\r\t\v"; const char* p = strchr(f, x);
        if (p) { o += t[p - f]; continue; } int base = x == '0' ? 8 : x == 'x' ? 16 : isdigit((unsigned char)x) ? 10 : 0; if (!base) { o += x; continue; } if (base == 10) i--; int lim = base == 16 ? 2 : 3, n = 0; unsigned v = 0; while (n < lim && i < s.size()) { unsigned char d = s[i]; int k = isdigit(d) ? d - '0' : isalpha(d) && base == 16 ? tolower(d) - 'a' + 10 : 99; if (k >= base) break; v = v * base + k; n++; i++; } if (base == 16 && !n) { o += e; o += x; continue; } o += (char)v; }
    return o;
}
TARGET(roundtrip, 4, "escape a generated string with a generated escape set and (non-alphanumeric) escape character, check the escaped form hides the set and the reference decoder reads it, then unescape and compare; non-trivial: something was escaped") {
    char e = EC[g.range(0, sizeof EC - 2)]; S al = S("ab01x") + e + "\n\t\a\v\x1b\x80\xff"; S s = gen(g, al, g.chance(1, 8) ? 300 : 20), set; switch (g.weighted({3, 2, 1, 1})) { case 0: set = gen(g, al, 5); break; case 1: set = "\a\b\t\n\v\f\r"; break; case 2: for (int i = 1; i < 256; i++) if (!isalnum(i)) set += (char)i; break; default: set = gen(g, s + "q", 4); } S t; for (char x : set) if (x != e) t += x; set = t;
    TR("escape %s, set %s, by %c", pbt::show(s).c_str(), pbt::show(set).c_str(), e); Exact es(set, true), src(s, true); gstr gs; gstr_init_from(&gs, src.c()); CHECK(gstr_escape(&gs, es.c(), e) == &gs, "escape returns another string"); S out(gstr_str(&gs), gstr_len(&gs)); want(c, &gs, out, "escape");
    S plain; S d = dec(out, e, &plain); for (char x : plain) CHECK(set.find(x) == S::npos, "byte %02x of the set is not escaped in %s", (uint8_t)x, pbt::show(out).c_str()); CHECK(d == s, "escaped form %s denotes %s", pbt::show(out).c_str(), pbt::show(d).c_str());
    { S s2 = gen(g, al, 4); Exact src2(s2, true); gstr g2; gstr_init_from(&g2, src2.c()); gstr_escape(&g2, es.c(), e); S both = out + S(gstr_str(&g2), gstr_len(&g2)); gstr_fini(&g2); CHECK(dec(both, e) == s + s2, "the escaped forms of %s and %s next to each other, %s, denote %s", pbt::show(s).c_str(), pbt::show(s2).c_str(), pbt::show(both).c_str(), pbt::show(dec(both, e)).c_str()); }
    CHECK(gstr_unescape(&gs, e) == &gs, "unescape returns another string"); want(c, &gs, s, "unescape(escape)"); gstr_fini(&gs); c.leakcheck = true; c.nontrivial(out != s); if (s.find_first_of(set) != S::npos) c.label("set member escaped"); if (s.find(e) != S::npos) c.label("escape character doubled"); if (out.size() > s.size() + 64) c.label("grew");
}
TARGET(decode, 4, "unescape of a generated string full of escape sequences (all letters, octal, decimal and hex with 0-4 digits, trailing escape, unknown letters) vs the reference decoder; non-trivial: at least two escapes") {
    char e = EC[g.range(0, sizeof EC - 2)]; S s; size_t n = g.range(0, 12), esc = 0; if (g.chance(1, 100)) { s = g.fill(g.big(70000), "abz09"); n += 3; } for (size_t i = 0; i < n; i++) { if (g.chance(1, 3)) { s += g.pick<const char*>({"a", "0", "f", "9", "x", "\xff", " ", "7", "8"}); continue; } esc++; s += e; switch (g.weighted({3, 3, 3, 3, 1, 1})) { case 0: s += "abeEfnrtv"[g.range(0, 8)]; break; case 1: s += '0'; for (int k = (int)g.range(0, 4); k--;) s += "01234567"[g.range(0, 7)]; break; case 2: s += 'x'; for (int k = (int)g.range(0, 3); k--;) s += "0123456789abcdefABCDEFgG"[g.range(0, 23)]; break; case 3: s += "123456789"[g.range(0, 8)]; for (int k = (int)g.range(0, 3); k--;) s += "0123456789"[g.range(0, 9)]; break; case 4: s += (char)g.range(1, 255); break; default: s += e; } } if (g.chance(1, 6)) s += e;
    TR("unescape %s by %c", pbt::show(s).c_str(), e); Exact src(s, true); gstr gs; gstr_init_from(&gs, src.c()); gstr_unescape(&gs, e); want(c, &gs, dec(s, e), "unescape"); gstr_fini(&gs); c.leakcheck = true; c.nontrivial(esc >= 2); if (s.size() && s.back() == e) c.label("escape at the end");
}
