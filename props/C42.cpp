//@ src: src/configfile.c@-Derror=cfg_error,-Dprintf=cfg_printf,-Dfprintf=cfg_fprintf,-Dputs=cfg_puts,-Dputchar=cfg_putchar,-Dfputs=cfg_fputs,-Dfputc=cfg_fputc,-Dputc=cfg_fputc,-Dfwrite=cfg_fwrite src/gstring.c src/strsplit.c src/strtrim.c
//@ quick: 16
//@ assume: tabs are 4 columns wide and indentation that matches no enclosing level is unspecified; names hold no '/', keys no '='; paths have at most 30 components
// C42: configuration files vs a reference tree.
#include "utils/utils.h"
#include "utils/configfile.h"
#include "pbt.h"
#include <csetjmp>
#include <cstdarg>
#include <map>
#include <memory>
#include <sanitizer/lsan_interface.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
using pbt::Src; using pbt::Ctx; typedef std::string S;
static jmp_buf out_; static bool armed; static S emsg; static int estatus, eerr; static S dumped;
extern "C" void cfg_error(int st, int err, const char* f, ...) { char b[8192]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); emsg = b; estatus = st; eerr = err; if (st && armed) longjmp(out_, 1); }
extern "C" int cfg_printf(const char* f, ...) { char* p = nullptr; va_list ap; va_start(ap, f); int n = vasprintf(&p, f, ap); va_end(ap); if (n > 0) dumped.append(p, n); free(p); return n; }
extern "C" { int cfg_puts(const char* s) { dumped += s; dumped += '\n'; return 0; } int cfg_putchar(int c) { dumped += (char)c; return c; } int cfg_fputs(const char* s, FILE*) { dumped += s; return 0; } int cfg_fputc(int c, FILE*) { dumped += (char)c; return c; } size_t cfg_fwrite(const void* b, size_t s, size_t n, FILE*) { dumped.append((const char*)b, s * n); return n; }
int cfg_fprintf(FILE*, const char* f, ...) { char* p = nullptr; va_list ap; va_start(ap, f); int n = vasprintf(&p, f, ap); va_end(ap); if (n > 0) dumped.append(p, n); free(p); return n; } }
static int nfds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
struct Sec; typedef std::shared_ptr<Sec> SP;
struct Sec { S name; std::vector<std::pair<S, S>> kv; std::vector<SP> sub; };
static S trim(S s) { size_t a = 0, b = s.size(); while (a < b && isspace((unsigned char)s[a])) a++; while (b > a && isspace((unsigned char)s[b - 1])) b--; return s.substr(a, b - a); }
static S word(Src& g, bool key) { static const S al = "abkv01.-_\xe9\x80#:=*%"; S s; if (g.chance(1, 500)) { s = g.fill(1 + g.big(20000), "abkv01.-_\xe9"); return s; } size_t n = g.range(1, g.chance(1, 12) ? 300 : 6); for (size_t i = 0; i < n; i++) { char ch = al[g.range(0, g.chance(1, 4) ? al.size() - 1 : 7)]; if (key && ch == '=') ch = 'q'; if (i == 0 && ch == '#') ch = 'h'; if (i + 1 == n && ch == ':') ch = 'c'; s += ch; } return s; }
struct Gen {
    Src& g; std::vector<S> lines; std::vector<int> phys; int depth = 0, maxdepth = 0, cap = 12, wide = 0, entries = 0, conts = 0, noise = 0; int lastkv = -1, lastcol = 0; // index of an entry line
    Gen(Src& s) : g(s) { if (g.chance(1, 25)) { cap = 40; } else if (g.chance(1, 40)) wide = (int)g.range(20, 400); }
    S indent(int col) { S s; int c = 0; while (c < col) { int t = (c / 4 + 1) * 4; if (t <= col && g.chance(1, 3)) { s += '\t'; c = t; } else { s += ' '; c++; } } return s; }
    void fluff() { while (g.chance(1, 5)) { noise++; unsigned k = (unsigned)g.weighted({2, 2, 3}); if (k == 0) lines.push_back(""); else if (k == 1) lines.push_back(indent((int)g.range(1, 12))); else lines.push_back(indent((int)g.range(0, 12)) + "#" + g.text(" ab:=#", g.range(0, 6))); } }
    void emit(const S& s) { lines.push_back(s); }
    void section(Sec& n, int col) { int k = (int)g.range(depth ? 1 : 0, depth < 2 ? 5 : 3); bool deep = cap > 12; if (deep) k = k > 2 ? 2 : k; if (wide && depth == (wide & 1)) { k = wide; wide = 0; } for (int i = 0; i < k; i++) { fluff();
            if (g.chance(deep ? 1 : 3, 5) || depth > cap) { S key = word(g, true), v; S line; unsigned f = (unsigned)g.weighted({4, 2, 1, 1}); // '=', blank, key alone, '=' without value
                if (f == 0 || f == 3) { if (g.chance(1, 6)) key += " " + word(g, true); line = key + S(g.range(0, 2), ' ') + "="; if (f == 0) { v = word(g, false); if (g.chance(1, 4)) v += " " + word(g, false); line += S(g.range(0, 3), g.flip() ? ' ' : '\t') + v; } }
                else if (f == 1) { v = word(g, true); if (g.chance(1, 4)) v += " " + word(g, true); line = key + " " + S(g.range(0, 3), g.flip() ? ' ' : '\t') + v; } else { v = "1"; line = key; }
                if (g.chance(1, 4)) line += S(g.range(1, 3), g.flip() ? ' ' : '\t'); n.kv.push_back({trim(key), trim(v)}); emit(indent(col) + line); lastkv = (int)lines.size() - 1; lastcol = col; entries++; }
            else { SP s = std::make_shared<Sec>(); s->name = word(g, false); n.sub.push_back(s); emit(indent(col) + s->name + ":" + (g.chance(1, 5) ? " " : "")); if (g.chance(4, 5)) { depth++; maxdepth = std::max(maxdepth, depth); section(*s, col + (int)g.pick<int>({4, 1, 2, 3, 8, 5})); depth--; } } }
    }
    S text() { S t; S eol = g.pick<const char*>({"\n", "\n", "\r\n", "\r"}); phys.clear(); int ln = 0;
        for (size_t i = 0; i < lines.size(); i++) { S s = lines[i]; int parts = 1; if (!trim(s).empty() && g.chance(1, 6)) { size_t at = 0, n = g.range(1, 3); S r; for (size_t j = 0; j < n && at < s.size(); j++) { size_t k = g.range(at, s.size()); if (g.chance(1, 6)) k = s.size(); r += s.substr(at, k - at) + "\\" + (g.chance(1, 20) && eol != "\r" ? "\n" : eol); at = k; parts++; } s = r + s.substr(at); conts += parts - 1; }
            ln += parts; phys.push_back(ln); t += s; if (i + 1 < lines.size() || g.chance(4, 5)) t += eol; }
        if (!t.empty() && g.chance(1, 12) && t.back() != '\\' && !lines.empty() && !trim(lines.back()).empty()) { while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back(); if (t.back() != '\\') t += "\\"; conts++; if (g.flip()) t += eol; }
        return t; }
};
static const Sec* find(const Sec* s, const std::vector<S>& p, size_t n) { for (size_t i = 0; i < n; i++) { const Sec* r = nullptr; for (auto& x : s->sub) if (x->name == p[i]) { r = x.get(); break; } if (!r) return nullptr; s = r; } return s; }
static const S* leaf(const Sec* s, const std::vector<S>& p) { s = find(s, p, p.size() - 1); if (s) for (auto& kv : s->kv) if (kv.first == p.back()) return &kv.second; return nullptr; }
static void show(const Sec* s, std::vector<S>& o, std::vector<int>& lv, int d = 0) { o.push_back(s->name + ":"); lv.push_back(2 * d); for (auto& kv : s->kv) { o.push_back(kv.first + "=" + kv.second); lv.push_back(2 * d + 1); } for (auto& x : s->sub) show(x.get(), o, lv, d + 1); }
static S join(Src& g, const std::vector<S>& p, bool lead) { S r; for (size_t i = 0; i < p.size(); i++) { if (i) r += g.chance(1, 10) ? "//" : "/"; else if (lead) r += "/"; r += p[i]; } return r; }
static void put(const S& f, const S& d) { int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd < 0 || write(fd, d.data(), d.size()) != (ssize_t)d.size()) pbt::harness_error("cannot write %s", f.c_str()); close(fd); }
static bool opens(configfile* cf, const char* f, int* r) { armed = true; emsg.clear(); if (setjmp(out_)) { armed = false; return false; } *r = config_open(cf, f); armed = false; return true; }
static void paths(const Sec* s, std::vector<S>& at, std::vector<std::vector<S>>& all) { for (auto& kv : s->kv) { at.push_back(kv.first); all.push_back(at); at.pop_back(); } for (auto& x : s->sub) { at.push_back(x->name); all.push_back(at); paths(x.get(), at, all); at.pop_back(); } }
TARGET(tree, 4, "a file of at least three entries and two levels of sections") {
    c.leakcheck = true; Gen G(g); Sec root; root.name = "<ROOT>"; G.section(root, g.chance(1, 8) ? (int)g.range(1, 4) : 0); G.fluff(); S t = G.text(), f = pbt::scratch() + "/c"; put(f, t); TR("file %s", pbt::show(t, 1500).c_str());
    int f0 = nfds(); configfile cf; memset(&cf, 0x5a, sizeof cf); int r = -1; bool ok = opens(&cf, f.c_str(), &r); CHECK(ok, "refused with '%s'", emsg.c_str()); CHECK(r == 0, "config_open returned %d", r); CHECK(nfds() == f0, "the file was left open");
    dumped.clear(); config_dump(&cf); std::vector<S> want, got; std::vector<int> lv, ind; show(&root, want, lv); { size_t a = 0; while (a < dumped.size()) { size_t e = dumped.find('\n', a); if (e == S::npos) e = dumped.size(); S ln = dumped.substr(a, e - a); got.push_back(trim(ln)); ind.push_back((int)ln.find_first_not_of(" \t")); a = e + 1; } }
    for (size_t i = 0; i < std::max(want.size(), got.size()); i++) { CHECK(i < got.size(), "'%s' is missing after the file was read", pbt::show(want[i]).c_str()); CHECK(i < want.size(), "'%s' is not in the file", pbt::show(got[i]).c_str()); CHECK(got[i] == trim(want[i]), "read '%s' instead of '%s'", pbt::show(got[i]).c_str(), pbt::show(want[i]).c_str()); }
    { std::map<int, int> at; for (size_t i = 0; i < want.size(); i++) { auto z = at.emplace(lv[i], ind[i]); CHECK(z.first->second == ind[i], "'%s' is listed at column %d, others of its level at %d", pbt::show(want[i]).c_str(), ind[i], z.first->second); } for (auto& x : at) if (at.count(x.first + 2)) CHECK(at[x.first + 2] > x.second, "deeper levels are not listed further right"); }
    std::vector<std::vector<S>> all; std::vector<S> at; paths(&root, at, all);
    for (int k = 0, n = (int)g.range(2, 12); k < n; k++) { if (all.empty()) break; std::vector<S> p = g.pick(all); if (g.chance(1, 6)) p.back() += "x"; if (g.chance(1, 8)) p.push_back(g.pick(all).back()); if (g.chance(1, 8) && p.size() > 1) p.erase(p.begin()); bool bad = p.size() > 30; for (auto& s : p) if (s.find('/') != S::npos || s.empty()) bad = true; if (bad) continue;
        S q = join(g, p, g.flip()); Exact e(q, true); const S* w = leaf(&root, p); const char* v = config_get_entry(&cf, e.c()); TR("entry %s -> %s", pbt::show(q).c_str(), v ? pbt::show(S(v)).c_str() : "none"); CHECK(!v == !w, w ? "the entry %s is not found" : "an entry %s is found", pbt::show(q).c_str()); if (w) CHECK(*w == v, "the entry %s is '%s', not '%s'", pbt::show(q).c_str(), pbt::show(S(v)).c_str(), pbt::show(*w).c_str());
        const Sec* ws = find(&root, p, p.size()); node* s = config_get_section(&cf, e.c()); CHECK(!s == !ws, ws ? "the section %s is not found" : "a section %s is found", pbt::show(q).c_str());
        size_t cut = g.range(0, p.size()); std::vector<S> a(p.begin(), p.begin() + (long)cut), b(p.begin() + (long)cut, p.end()); node* m = cut ? config_get_section(&cf, join(g, a, true).c_str()) : config_get_section(&cf, "/"); const Sec* wm = find(&root, a, a.size()); CHECK(!m == !wm, "section lookup"); if (!m || b.empty()) continue;
        S qb = join(g, b, g.flip()); Exact eb(qb, true); node* s2 = config_get_subsection(m, eb.c()); CHECK(s2 == s, "the section is %sfound from within another", s2 ? "" : "not "); const char* v2 = config_section_get_entry(m, eb.c()); CHECK(v2 == v, "looked up from within a section, %s is '%s'", pbt::show(qb).c_str(), v2 ? v2 : "(none)"); }
    CHECK(config_get_section(&cf, "/") != nullptr && !config_get_section(&cf, "") && !config_get_entry(&cf, "") && !config_get_entry(&cf, "/") && !config_get_section(&cf, "no such/one"), "empty and unknown paths");
    CHECK(config_close(&cf) == 0, "config_close"); unlink(f.c_str()); c.nontrivial(G.entries >= 3 && G.maxdepth >= 2); if (G.conts) c.label("continued lines"); if (G.noise) c.label("blank lines and comments"); c.label(G.maxdepth >= 4 ? "deep" : "shallow");
}
TARGET(refused, 1, "an entry with an indented line below it, or a file that cannot be opened") {
    S f = pbt::scratch() + "/c"; configfile cf; int r = 0; int f0 = nfds(); c.nontrivial(true);
    if (g.chance(1, 6)) { unlink(f.c_str()); S q = g.flip() ? f : f + "/x/" + S(g.range(0, 5000), 'y'); __lsan_disable(); bool ok = opens(&cf, q.c_str(), &r); __lsan_enable(); TR("missing file of %zu bytes", q.size()); CHECK(!ok, "a missing file was read (%d)", r); CHECK(eerr == ENOENT || eerr == ENAMETOOLONG, "the error given is %d", eerr); CHECK(emsg.find(q.substr(0, 8000)) != S::npos, "'%s' does not name the file", emsg.c_str()); CHECK(estatus != 0 && nfds() == f0, "status, descriptors"); c.label("missing"); return; }
    Gen G(g); Sec root; G.section(root, 0); if (G.lastkv < 0) { c.discard = true; return; } S bad = G.indent(G.lastcol + (int)g.range(1, 9)) + word(g, true) + (g.flip() ? "=x" : ":"); G.lines.insert(G.lines.begin() + G.lastkv + 1, bad); S t = G.text(); put(f, t); TR("file %s", pbt::show(t, 1500).c_str());
    __lsan_disable(); bool ok = opens(&cf, f.c_str(), &r); __lsan_enable(); DIR* d = opendir("/proc/self/fd"); std::vector<int> fds; while (dirent* e = readdir(d)) { int n = atoi(e->d_name); char b[64], l[512]; snprintf(b, sizeof b, "/proc/self/fd/%d", n); ssize_t z = readlink(b, l, sizeof l - 1); if (z > 0) { l[z] = 0; if (f == l) fds.push_back(n); } } closedir(d); for (int n : fds) close(n);
    CHECK(!ok, "an indented line below the entry of line %d was accepted", G.phys[G.lastkv]); CHECK(estatus != 0, "the error is not fatal"); S w = f + ":" + std::to_string(G.phys[G.lastkv + 1]) + ":"; if (G.lastkv + 2 == (int)G.lines.size()) { S w2 = f + ":" + std::to_string(G.phys[G.lastkv + 1] - 1) + ":"; if (emsg.find(w2) != S::npos) w = w2; } /* continued at the end of the file */ CHECK(emsg.find(w) != S::npos, "'%s' does not name the line, %s", emsg.c_str(), w.c_str()); unlink(f.c_str()); c.label("indented below an entry");
}
TARGET(anything, 1, "any bytes, of more than four lines") {
    S t; if (g.flip()) t = g.bytes(g.size(400)); else { Gen G(g); Sec root; G.section(root, 0); t = G.text(); for (size_t i = 0, n = g.size(6); i < n && !t.empty(); i++) { size_t k = g.range(0, t.size() - 1); switch (g.weighted({1, 1, 2})) { case 0: t.erase(k, g.range(1, 4)); break; case 1: t[k] = (char)g.u(8); break; default: t.insert(k, g.pick<const char*>({"\n", " ", "\t", "\\\n", ":", "=", "#", "\n\t", "\n   "})); } } }
    S f = pbt::scratch() + "/c"; put(f, t); TR("file %s", pbt::show(t, 1500).c_str()); configfile cf; int r = 0; __lsan_disable(); bool ok = opens(&cf, f.c_str(), &r); if (ok) { dumped.clear(); config_dump(&cf); config_close(&cf); } __lsan_enable();
    if (!ok) { DIR* d = opendir("/proc/self/fd"); std::vector<int> fds; while (dirent* e = readdir(d)) { int n = atoi(e->d_name); char b[64], l[512]; snprintf(b, sizeof b, "/proc/self/fd/%d", n); ssize_t z = readlink(b, l, sizeof l - 1); if (z > 0) { l[z] = 0; if (f == l) fds.push_back(n); } } closedir(d); for (int n : fds) close(n); CHECK(emsg.find(f) != S::npos && estatus != 0, "'%s' does not name the file", emsg.c_str()); }
    unlink(f.c_str()); c.nontrivial(std::count(t.begin(), t.end(), '\n') > 4); c.label(ok ? "accepted" : "refused");
}
TARGET(values, 2, "a number with a base prefix, sign or unit, at a limit, or a word") {
    static const struct { const char* s; int sh; } U[] = {{"", 0}, {"k", 10}, {"K", 10}, {"M", 20}, {"G", 30}, {"T", 40}, {"P", 50}, {"E", 60}};
    unsigned k = (unsigned)g.weighted({4, 3, 2, 1});
    auto num = [&](uint64_t v) { unsigned b = (unsigned)g.weighted({3, 1, 1}); return b == 0 ? pbt::fmt("%llu", (unsigned long long)v) : b == 1 ? pbt::fmt("0x%llx", (unsigned long long)v) : v ? pbt::fmt("0%llo", (unsigned long long)v) : S("0"); };
    if (k == 0) { auto u = U[g.range(0, 7)]; uint64_t v = g.u(); if (g.flip()) v = g.range(0, 5000); else if (g.flip()) v = (~0ull >> u.sh) + g.irange(-2, 3); S s = u.s[0] == 'E' ? pbt::fmt("%llu", (unsigned long long)v) : num(v); s += u.s; if (g.chance(1, 6)) s = " " + s; if (!u.sh && g.chance(1, 4)) s += " "; unsigned long out = 77; Exact e(s, true); errno = g.flip() ? ERANGE : 0; int r = config_parse_uint(e.c(), &out); TR("uint %s -> %d, %lu", pbt::show(s).c_str(), r, out); bool fits = v <= (~0ull >> u.sh);
        if (fits) CHECK(r == 0 && out == v << u.sh, "%s is %lu (returned %d), not %llu", s.c_str(), out, r, (unsigned long long)(v << u.sh)); else CHECK(r < 0 && out == 77, "%s, which does not fit, is %lu (returned %d)", s.c_str(), out, r); c.label(fits ? "fits" : "overflow"); }
    else if (k == 1) { int64_t v = g.flip() ? g.irange(-5000, 5000) : (int64_t)g.u(); if (g.chance(1, 4)) v = g.flip() ? INT64_MAX - g.irange(0, 2) : INT64_MIN + g.irange(0, 2); S s = v < 0 ? "-" + num(0 - (uint64_t)v) : (g.chance(1, 5) ? "+" : "") + num((uint64_t)v); bool over = g.chance(1, 6); if (over) s = g.flip() ? "9223372036854775808" : g.flip() ? "-9223372036854775809" : "0x" + S(g.range(17, 40), 'f'); long out = 77; Exact e(s, true); errno = g.flip() ? ERANGE : 0; int r = config_parse_int(e.c(), &out); TR("int %s -> %d, %ld", s.c_str(), r, out);
        if (!over) CHECK(r == 0 && out == v, "%s is %ld (returned %d)", s.c_str(), out, r); else CHECK(r < 0 && out == 77, "%s, which does not fit, is %ld (returned %d)", s.c_str(), out, r); c.label(over ? "overflow" : "integer"); }
    else if (k == 2) { S s = g.pick<const char*>({"", "k", "abc", "x12", "on", "-", "--5", "0q", "12x", "12abc", "1.5", "5,", "M", "+"}); long a = 77; unsigned long b = 77; Exact e(s, true); int r = config_parse_int(e.c(), &a), q = config_parse_uint(e.c(), &b); TR("'%s' -> %d %d", s.c_str(), r, q); CHECK(r < 0 && a == 77, "'%s' is taken for the integer %ld (returned %d)", s.c_str(), a, r); CHECK(q < 0 && b == 77, "'%s' is taken for the number %lu (returned %d)", s.c_str(), b, q); c.label("no number"); }
    else { S s = g.pick<const char*>({"on", "true", "1", "off", "false", "0", "tru", "onn", "", "t", "2"}); bool w = s == "on" || s == "true" || s == "1"; for (auto& ch : s) if (g.flip()) ch = (char)toupper(ch); int v = 77; Exact e(s, true); int r = config_parse_bool(e.c(), &v); TR("bool '%s' -> %d", s.c_str(), v); CHECK(r == 0 && v == (w ? 1 : 0), "'%s' is %d", s.c_str(), v); c.label("bool"); }
    c.nontrivial(true);
}
