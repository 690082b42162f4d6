//@ src: src/gstring_var.c src/gstring.c
//@ quick: 14
// C24: variable expansion vs a reference expander.
#include "pbt.h"
#include <ctype.h>
#include <map>
#include "utils/gstring.h"
typedef std::string S;
static S gen(pbt::Src& g, const S& al, size_t max) { S s; size_t n = g.range(0, max); for (size_t i = 0; i < n; i++) s += al[g.range(0, al.size() - 1)]; return s; }
struct Env { std::map<S, S> m; std::vector<S> asked; };
static const char* find(void* v, const char* k) { Env* e = (Env*)v; e->asked.push_back(k); auto i = e->m.find(k); return i == e->m.end() ? 0 : i->second.c_str(); }
static bool vch(char x) { return isalnum((unsigned char)x) || (x && strchr("$#@?*!<>%^&-_|:.", x)); }
static int ref(const S& t, const Env& e, S& out, std::vector<S>& asked) {
    for (size_t i = 0; i < t.size(); i++) { if (t[i] != '$') { out += t[i]; continue; } if (i && t[i - 1] == '\\') { out.back() = '$'; continue; } S v; size_t k = i + 1; if (k < t.size() && t[k] == '{') { size_t q = t.find('}', k); if (q == S::npos) return -EINVAL; v = t.substr(k + 1, q - k - 1); k = q + 1; } else { while (k < t.size() && vch(t[k])) k++; v = t.substr(i + 1, k - i - 1); } if (v.empty()) return -EINVAL; asked.push_back(v); auto z = e.m.find(v); if (z == e.m.end()) return -ENOENT; out += z->second; i = k - 1; }
    return 0;
}
TARGET(expand, 1, "templates of plain text, $NAME, ${NAME}, escaped dollars, unknown and malformed references over a generated variable map (values may contain dollars, braces and backslashes, and be long) vs a reference expander: text, error, and names looked up; non-trivial: two references") {
    Env e; std::vector<S> names; int nv = (int)g.range(0, 4); for (int i = 0; i < nv; i++) { S k = gen(g, g.flip() ? "ab" : "aB9_", 3); if (g.chance(1, 4)) k += g.pick<const char*>({" b", "-c", "\xe9", "$", "{", "\\"}); if (k.empty()) k = "a"; S v = g.chance(1, 6) ? g.chance(1, 10) ? g.fill(g.big(70000), "xyz") : gen(g, "xyz", 300) : gen(g, "xy$a{}\\", 5); e.m[k] = v; names.push_back(k); }
    S t; int refs = 0; size_t n = g.range(0, 8); if (g.chance(1, 100)) t = g.fill(g.big(70000), "pq "); for (size_t i = 0; i < n; i++) switch (g.weighted({4, 4, 2, 1, 1, 1, 1})) { case 0: { S k = names.empty() || g.chance(1, 8) ? "zz" : names[g.range(0, names.size() - 1)]; t += "${" + k + "}"; refs++; break; } case 1: { S k = names.empty() || g.chance(1, 8) ? "q" : names[g.range(0, names.size() - 1)]; t += "$" + k; refs++; if (g.chance(3, 4)) t += g.pick<const char*>({" ", "/", "}", "\\", ",", "{", "\"", "\xe9"}); break; } case 2: t += gen(g, "ab {}/.\\\xff", g.chance(1, 8) ? 100 : 5); break; case 3: t += "\\$"; break; case 4: t += "\\"; break; case 5: t += g.pick<const char*>({"$", "${", "${}", "$ ", "$$", "${a"}); break; default: t += gen(g, "$ab{}\\", 4); }
    S want; std::vector<S> asked; int err = ref(t, e, want, asked); TR("expand %s (%zu variables)", pbt::show(t).c_str(), e.m.size()); for (auto& v : e.m) TR("  %s = %s", pbt::show(v.first).c_str(), pbt::show(v.second, 30).c_str());
    Exact src(t, true); gstr gs; gstr_init_from(&gs, src.c()); int r = gstr_varexp(&gs, find, &e); CHECK(r == err, "returned %d, expected %d", r, err); if (err) want = ""; CHECK(gstr_len(&gs) == want.size() && gstr_cap(&gs) > want.size() && !memcmp(gstr_str(&gs), want.c_str(), want.size() + 1), "expanded to %s, expected %s", pbt::show(S(gstr_str(&gs), gstr_len(&gs))).c_str(), pbt::show(want).c_str()); for (auto& x : e.asked) CHECK(std::find(asked.begin(), asked.end(), x) != asked.end(), "looked up %s, which is not referenced", pbt::show(x).c_str());
    gstr_append_ch(&gs, 'z'); CHECK(gstr_len(&gs) == want.size() + 1, "result cannot grow"); gstr_fini(&gs); c.leakcheck = true; c.nontrivial(refs >= 2); c.label(err == -EINVAL ? "malformed" : err ? "unknown" : refs ? "expanded" : "plain"); if (want.size() > 128) c.label("long result");
}
