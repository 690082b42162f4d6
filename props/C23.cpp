//@ src: src/gstring.c
//@ wrap: malloc calloc realloc strdup posix_memalign aligned_alloc
//@ quick: 16
// C23: growable strings vs std::string over histories, including self-referring operations and line reads.
#include "pbt.h"
#include "oom.h"
#include <ctype.h>
#include "utils/gstring.h"
typedef std::string S;
static S gen(pbt::Src& g, size_t max) { static const char al[] = "ab \t\n\r\"'x\xe9"; S s; if (max >= 10 && g.chance(1, 200)) return g.fill(g.big(70000), al); size_t n = g.chance(1, 8) ? g.range(0, max * 8) : g.range(0, max); bool any = g.chance(1, 10); for (size_t i = 0; i < n; i++) s += any ? (char)(1 + g.range(0, 254)) : al[g.range(0, sizeof al - 2)]; return s; }
struct St { S d; size_t pos, failat; bool failed; };
static ssize_t rd(void* v, char* b, size_t n) { St* s = (St*)v; if (s->pos >= s->failat) { s->failed = true; errno = EIO; return -1; } size_t k = std::min({n, s->d.size() - s->pos, s->failat - s->pos, (size_t)7}); memcpy(b, s->d.data() + s->pos, k); s->pos += k; return (ssize_t)k; }
static void eq(pbt::Ctx& c, gstr* g, const S& w, const char* what) { CHECK(gstr_str(g) && (gstr_str)(g) == gstr_str(g) && (gstr_len)(g) == gstr_len(g) && (gstr_cap)(g) == gstr_cap(g), "%s: accessors disagree", what); CHECK(gstr_len(g) == w.size(), "%s: length %zu, expected %zu (%s)", what, gstr_len(g), w.size(), pbt::show(w).c_str()); CHECK(gstr_cap(g) > w.size(), "%s: capacity %zu for a length of %zu", what, gstr_cap(g), w.size()); CHECK(gstr_str(g)[w.size()] == 0, "%s: no terminator", what); CHECK(!memcmp(gstr_str(g), w.data(), w.size()), "%s: holds %s, expected %s", what, pbt::show(S(gstr_str(g), w.size())).c_str(), pbt::show(w).c_str()); }
TARGET(histories, 5, "1-30 operations (create, append string/character/other/itself/part of itself, copy, duplicate, truncate, reset, chop, trim, unquote, compare, read line, unbind) on three growable strings vs std::string; non-trivial: >=3 strings changed and one grew past its first capacity") {
    gstr a[3]; S m[3]; size_t cap0[3]; bool grew = false; int chg = 0; auto mk = [&](int i) { switch (g.range(0, 2)) { case 0: { size_t n = g.range(0, 20) * (g.chance(1, 6) ? 20 : 1); TR("s%d = init(%zu)", i, n); CHECK(gstr_init(&a[i], n) == &a[i], "init returns another object"); CHECK(gstr_cap(&a[i]) > n, "init(%zu) has capacity %zu", n, gstr_cap(&a[i])); m[i] = ""; break; } case 1: { S t = gen(g, 20); TR("s%d = init_from(%s)", i, pbt::show(t).c_str()); Exact e(t, true); gstr_init_from(&a[i], e.c()); m[i] = t; break; } default: TR("s%d = init_from(NULL)", i); gstr_init_from(&a[i], 0); m[i] = ""; } cap0[i] = gstr_cap(&a[i]); };
    for (int i = 0; i < 3; i++) mk(i); for (int i = 0; i < 3; i++) eq(c, &a[i], m[i], "init");
    size_t n = g.range(1, g.chance(1, 5) ? 60 : 20); for (size_t k = 0; k < n; k++) {
        int i = (int)g.range(0, 2), j = (int)g.range(0, 2); S b4 = m[i]; const char* what = "";
        switch (g.weighted({4, 4, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 3, 2, 1})) {
        case 0: { S t = gen(g, 12); what = "append_str"; TR("s%d += %s", i, pbt::show(t).c_str()); Exact e(t, true); m[i] += t; size_t r = gstr_append_str(&a[i], e.c()); CHECK(r == m[i].size(), "append_str returned %zu, new length is %zu", r, m[i].size()); break; }
        case 1: { int x = g.chance(1, 6) ? (int)g.range(1, 255) : "ab \n"[g.range(0, 3)]; what = "append_ch"; int rep = g.chance(1, 4) ? (int)g.range(1, 40) : 1; TR("s%d += %d x char %d", i, rep, x); while (rep--) { m[i] += (char)x; int r = gstr_append_ch(&a[i], x); CHECK(r == (int)m[i].size(), "append_ch returned %d, new length is %zu", r, m[i].size()); } break; }
        case 2: { if (g.chance(1, 3000)) { S t = g.fill(g.big(50000), "ab \n\xe9"); TR("s%d += %zu characters", i, t.size()); gstr_append_str(&a[i], t.c_str()); m[i] += t; } if (m[i].size() + m[j].size() > 5000 && (m[i].size() + m[j].size() > 150000 || i == j)) break; what = i == j ? "append itself" : "append"; TR("s%d += s%d", i, j); S t = m[j]; m[i] += t; int r = gstr_append(&a[i], &a[j]); CHECK(r == (int)m[i].size(), "append returned %d, new length is %zu", r, m[i].size()); break; }
        case 3: { if (m[i].size() > 3000) break; size_t o = g.range(0, m[i].size()); what = "append part of itself"; TR("s%d += s%d+%zu", i, i, o); S t = m[i].substr(o); m[i] += t; size_t r = gstr_append_str(&a[i], gstr_str(&a[i]) + o); CHECK(r == m[i].size(), "append_str returned %zu, new length is %zu", r, m[i].size()); break; }
        case 4: what = "copy"; TR("s%d = copy of s%d", i, j); if (i != j) { CHECK(gstr_copy(&a[i], &a[j]) == &a[i], "copy returns another object"); m[i] = m[j]; } break;
        case 5: if (i != j) { what = "dup"; TR("s%d = dup of s%d", i, j); gstr_fini(&a[i]); CHECK(!gstr_str(&a[i]) && !gstr_len(&a[i]), "fini leaves the string"); gstr_dup(&a[i], &a[j]); m[i] = m[j]; cap0[i] = gstr_cap(&a[i]); } break;
        case 6: { size_t t = g.range(0, m[i].size() + 3); what = "truncate"; TR("truncate s%d to %zu", i, t); if (t < m[i].size()) m[i].resize(t); int r = gstr_truncate(&a[i], t); CHECK(r == (int)m[i].size(), "truncate returned %d, length is %zu", r, m[i].size()); break; }
        case 7: what = "reset"; TR("reset s%d", i); gstr_reset(&a[i]); m[i] = ""; break;
        case 8: { what = "chop"; S x = g.pick<const char*>({"", "\n", "\r\n", "\r", "\n\n"}); TR("s%d += %s, chop", i, pbt::show(x).c_str()); gstr_append_str(&a[i], x.c_str()); m[i] += x; if (m[i].size() && m[i].back() == '\n') m[i].pop_back(); if (m[i].size() && m[i].back() == '\r') m[i].pop_back(); gstr_chop(&a[i]); break; }
        case 9: { what = "chop_if"; S t = g.flip() && m[i].size() ? gen(g, 2) + m[i].back() : gen(g, 4); TR("chop s%d if in %s", i, pbt::show(t).c_str()); int x = m[i].size() ? m[i].back() : 0; bool in = m[i].size() && t.find((char)x) != S::npos; int r = gstr_chop_if(&a[i], t.c_str()); if (m[i].empty()) CHECK(r == 0, "chop_if of an empty string returned %d", r); if (in) { m[i].pop_back(); CHECK((char)r == (char)x, "chop_if returned %d, last was %d", r, x); } break; }
        case 10: { what = "trim"; TR("trim s%d", i); size_t p = 0, q = m[i].size(); while (p < q && isspace((unsigned char)m[i][p])) p++; while (q > p && isspace((unsigned char)m[i][q - 1])) q--; m[i] = m[i].substr(p, q - p); CHECK(gstr_trim(&a[i]) == &a[i], "trim returns another object"); break; }
        case 11: { what = "unquote"; if (g.flip()) { char q = g.flip() ? '"' : '\''; S t = q + m[i]; if (g.chance(3, 4)) t += q; gstr_reset(&a[i]); gstr_append_str(&a[i], t.c_str()); m[i] = t; } TR("unquote s%d (%s)", i, pbt::show(m[i]).c_str()); int q = m[i].empty() ? 0 : m[i][0], w = q != '"' && q != '\'' ? 0 : m[i].size() < 2 || m[i].back() != q ? -1 : q; int r = gstr_unquote(&a[i]); if (w < 0) CHECK(r < 0, "unquote returned %d for an unmatched quote", r); else CHECK(r == w, "unquote returned %d, expected %d", r, w); if (w > 0) m[i] = m[i].substr(1, m[i].size() - 2); break; }
        case 12: { what = "readline"; S del = g.pick<const char*>({"\n", "\n\r", ":", "\xe9", "\xff\n"}); St st{gen(g, 40), 0, (size_t)-1, false}; if (g.chance(1, 8)) st.failat = g.range(0, st.d.size()); if (g.chance(1, 8) && st.d.size()) st.d[g.range(0, st.d.size() - 1)] = 0; TR("s%d = readline of %s by %s%s", i, pbt::show(st.d, 60).c_str(), pbt::show(del).c_str(), st.failat != (size_t)-1 ? ", failing" : ""); cookie_io_functions_t io{}; io.read = rd; FILE* fp = fopencookie(&st, "r", io); setvbuf(fp, 0, _IOFBF, g.range(1, 16)); size_t pos = 0; bool dead = false;
            int oomat = g.chance(1, 6) ? (int)g.range(0, 3) : -1; for (int q = 0; q < 4 && !dead; q++) { size_t e = st.d.find_first_of(del, pos); bool err = std::min(e, st.d.size()) >= st.failat || (e == S::npos && st.failat <= st.d.size()); int r; { Oom oo(oomat); r = gstr_readline(&a[i], fp, del.c_str()); oomat = -1; } if (oom_hit) { CHECK(r < 0, "readline returned %d without the memory for the line", r); dead = true; m[i] = S(gstr_str(&a[i]), gstr_len(&a[i])); c.label("out of memory"); } else if (err) { CHECK(r < 0, "readline returned %d for a stream that fails", r); dead = true; m[i] = S(gstr_str(&a[i]), gstr_len(&a[i])); } else { m[i] = st.d.substr(pos, e == S::npos ? S::npos : e - pos); CHECK(r == (int)m[i].size(), "readline returned %d for a line of %zu", r, m[i].size()); eq(c, &a[i], m[i], what); pos = e == S::npos ? st.d.size() : e + 1; } } fclose(fp); if (m[i].find('\0') != S::npos) { gstr_reset(&a[i]); m[i] = ""; } c.label("readline"); break; }
        case 13: { what = "compare"; TR("compare s%d s%d", i, j); CHECK(!!gstr_eq(&a[i], &a[j]) == (m[i] == m[j]), "gstr_eq of %s and %s is wrong", pbt::show(m[i]).c_str(), pbt::show(m[j]).c_str()); CHECK(!!gstr_eq_str(&a[i], m[j].c_str()) == (m[i] == m[j]), "gstr_eq_str is wrong"); CHECK((char)gstr_lastch(&a[i]) == (m[i].size() ? m[i].back() : 0) && gstr_firstch(&a[i]) == (m[i].size() ? m[i][0] : 0), "first or last character wrong"); break; }
        default: { what = "finalize"; TR("finalize s%d", i); char* p = gstr_finalize(&a[i]); CHECK(p && m[i] == p, "finalize gave %s", p ? pbt::show(S(p)).c_str() : "NULL"); free(p); mk(i); }
        }
        for (int q = 0; q < 3; q++) eq(c, &a[q], m[q], q == i ? what : "another string after this"); chg += b4 != m[i]; grew |= gstr_cap(&a[i]) > cap0[i];
    }
    for (int i = 0; i < 3; i++) gstr_fini(&a[i]); c.leakcheck = true; c.nontrivial(chg >= 3 && grew); if (grew) c.label("grew");
}
