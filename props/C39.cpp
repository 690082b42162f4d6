//@ src:
//@ libs: -ldl
//@ quick: 20
//@ thorough: 240
//@ assume: specifications as the manual describes them, with C identifiers as member names and no quotes or backslashes in texts and defaults
//@ assume: for trailing characters after a number, empty arguments and an optional integer used with and without an argument, only what the manual and the program's own messages say is required
#include "utils/utils.h"
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <spawn.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include "pbt.h"
extern char** environ;
using pbt::Src; using pbt::Ctx; using std::string; using std::vector; using std::map;
typedef __int128 big;
enum T { USHORT, UINT, ULONG, SHORT, INT, LONG, SIZE, DOUBLE, STRING, BOOL, CB, CBARG };
struct O { string lng, var, tname, def, help; char sh; T t; bool opt, place; };
struct Spec { vector<O> o; string prefix, usage; bool nopermute, nover, nohelp; int ndesc; bool cmdprefix; string text; };
static string repo() { const char* e = getenv("PBT_REPO"); return e && *e ? e : "/repo"; }
static void put(const string& p, const string& s) { FILE* f = fopen(p.c_str(), "w"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) pbt::harness_error("cannot write a scratch file"); }
static string slurp(const string& p) { string s; char b[4096]; FILE* f = fopen(p.c_str(), "r"); size_t n; if (!f) return s; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static int run(const vector<string>& a, const string& dir, string& out) { vector<char*> v; for (auto& s : a) v.push_back((char*)s.c_str()); v.push_back(nullptr); string log = dir + "/log"; posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0); posix_spawn_file_actions_addopen(&fa, 1, log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_adddup2(&fa, 1, 2); vector<char*> env; for (char** e = environ; *e; e++) if (strncmp(*e, "LD_PRELOAD", 10) && strncmp(*e, "POSIXLY", 7)) env.push_back(*e); env.push_back(nullptr); pid_t p; int st = -1; if (posix_spawnp(&p, v[0], &fa, nullptr, v.data(), env.data())) pbt::harness_error("cannot start %s", a[0].c_str()); posix_spawn_file_actions_destroy(&fa); while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} out = slurp(log); return st; }
static const char* ctype(T t) { static const char* n[] = {"unsigned short", "unsigned int", "unsigned long", "short", "int", "long", "uint64_t", "double", "char*", "int"}; return n[t]; }
static big tmin(T t) { return t == SHORT ? -32768 : t == INT ? -(big)2147483648LL : t == LONG ? -((big)1 << 63) : 0; }
static big tmax(T t) { return t == USHORT ? 65535 : t == UINT ? 4294967295LL : t == ULONG || t == SIZE ? ((big)1 << 64) - 1 : t == SHORT ? 32767 : t == INT ? 2147483647 : ((big)1 << 63) - 1; }
static string digits(big v, int base) { bool neg = v < 0; if (neg) v = -v; string s; do { s += "0123456789abcdef"[(int)(v % base)]; v /= base; } while (v); if (base == 16) s += "x0"; else if (base == 8 && s != "0") s += "0"; if (neg) s += "-"; std::reverse(s.begin(), s.end()); return s; }
static string quote(Src& g, const string& s, bool must) { if (!must && g.chance(3, 4)) return s; char q = s.find('\'') != string::npos || g.flip() ? '"' : '\''; return q + s + q; }
static string word(Src& g, size_t n) { string s; for (size_t i = g.range(1, n); i > 0; i--) s += (char)g.range('a', 'z'); return s; }
static string dbl(double d) { return pbt::fmt("%.17g", d); }
static O gopt(Src& g, int i, std::set<string>& longs, std::set<char>& shorts, bool help) {
    O o; o.place = g.chance(1, 8); o.opt = false; static const struct { const char* n; T t; } ty[] = {{"ushort", USHORT}, {"uint", UINT}, {"ulong", ULONG}, {"short", SHORT}, {"int", INT}, {"long", LONG}, {"size", SIZE}, {"float", DOUBLE}, {"double", DOUBLE}, {"string", STRING}, {"bool", BOOL}, {"flag", BOOL}, {"boolean", BOOL}, {"callback", CB}, {"callback_arg", CBARG}}; auto& t = ty[g.range(0, 14)]; o.tname = t.n; o.t = t.t; o.var = pbt::fmt("m%d", i) + word(g, 4); o.sh = 0; o.help = pbt::fmt("hh%dhh", i); for (size_t k = g.size(20); k > 0; k--) o.help += " " + word(g, 9) + (g.chance(1, 8) ? "%" : g.chance(1, 8) ? "," : g.chance(1, 12) ? " [x]" : "");
    if (o.place && o.t >= CB) o.t = BOOL, o.tname = "bool"; // a callback that nothing calls
    if (!o.place) { if (g.chance(4, 5)) { string w; int tries = 0; do { w = g.chance(1, 3) && longs.size() ? *longs.begin() + (g.flip() ? "-" : "") + word(g, 3) : word(g, g.chance(1, 8) ? 24 : 7) + (g.chance(1, 3) ? "-" + word(g, 4) : ""); } while ((longs.count(w) || (help && (w == "help" || w == "version"))) && tries++ < 20); if (!longs.count(w)) { o.lng = w; longs.insert(w); } } if (o.lng.empty() || g.flip()) { const char* al = "abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUWXYZ0123456789"; for (int k = 0; k < 40 && !o.sh; k++) { char c = al[g.range(0, strlen(al) - 1)]; if (!shorts.count(c)) { o.sh = c; shorts.insert(c); } } } if (o.t != BOOL && o.t != CB && g.chance(1, 4)) { o.opt = true; } }
    switch (o.t) { case SIZE: { static const char* sf[] = {"", "", "k", "M", "G", "T", "P"}; const char* x = sf[g.range(0, 6)]; o.def = digits(g.range(0, 4000), *x ? g.pick<int>({10, 16, 8}) : g.pick<int>({10, 8})) + x; break; } case DOUBLE: o.def = g.pick<const char*>({"0", "3.32", "1e-3", "-4.5", "100", "2.5e10"}); break; case STRING: o.def = g.chance(1, 4) ? "" : word(g, 8); if (g.chance(1, 4)) o.def += " " + word(g, 5) + g.pick<const char*>({"%", "/x", "", ",", "%d %s"}); break; case BOOL: o.def = g.pick<const char*>({"true", "false", "no", "yes", "False", "True"}); break; case CB: case CBARG: o.def = "-"; break; default: { big lo = tmin(o.t), v = g.chance(1, 2) ? (big)g.range(0, 1000) : g.chance(1, 2) ? std::min(tmax(o.t), (big)1 << 62) : lo < 0 ? -(big)g.range(1, 30000) : 7; int base = v < 0 ? 10 : g.pick<int>({10, 10, 16, 8}); o.def = o.opt ? "0" : digits(v, base); } } return o;
}
static string line(Src& g, const O& o) { auto f = [&](const string& s) { return quote(g, s, s.empty() || s.find(' ') != string::npos); }; string sp = g.pick<const char*>({" ", "  ", "\t", "   "}); string l = g.chance(1, 3) ? "  " : ""; l += f(o.lng.empty() ? "-" : o.lng) + sp + f(o.sh ? string(1, o.sh) : "-") + sp + f(o.var) + sp + f(o.tname + (o.opt ? "?" : "")); if (o.place) { if (o.def.size() || g.flip()) l += sp + f(o.def); return l + "\n"; } if (o.t == CB && g.flip()) return l + sp + f(o.help) + "\n"; return l + sp + f(o.def) + sp + quote(g, o.help, true) + (g.chance(1, 6) ? "  " : "") + "\n"; }
static Spec gspec(Src& g) {
    Spec s; s.nopermute = g.chance(1, 5); s.nover = g.chance(1, 5); s.nohelp = g.chance(1, 5); s.ndesc = (int)g.range(0, 3); s.cmdprefix = g.chance(1, 5); s.usage = g.chance(1, 4) ? "usage_fn" : ""; if (g.chance(1, 3)) s.prefix = g.pick<const char*>({"foo_opt", "fulcrum", "p"}); std::set<string> longs; std::set<char> shorts; int n = (int)g.range(1, 7); for (int i = 0; i < n; i++) s.o.push_back(gopt(g, i, longs, shorts, true)); bool shortonly = g.chance(1, 10); if (shortonly) { for (auto& o : s.o) if (o.sh) o.lng = ""; }
    for (int k = 0; k < 2; k++) if ((k ? s.nover : s.nohelp) && g.chance(1, 2)) for (auto& o : s.o) if (!o.place && o.lng.size() && o.lng != "help") { o.lng = k ? "version" : "help"; if (g.flip()) o.var = o.lng; break; } // an own option instead of the builtin one
    vector<string> dir; if (s.nopermute) dir.push_back("%nopermute\n"); if (s.nover) dir.push_back("%noversion\n"); if (s.nohelp) { dir.push_back("%nohelp\n"); if (g.chance(1, 6)) dir.push_back("%nohelp\n"); } if (s.prefix.size()) dir.push_back("%prefix " + s.prefix + "\n"); if (s.usage.size()) dir.push_back("%usage_call  " + s.usage + "\n"); for (int i = 0; i < s.ndesc; i++) { string d = pbt::fmt("dd%ddd", i); for (size_t k = g.size(15); k > 0; k--) d += " " + word(g, 8); dir.push_back("%description \"" + d + "\"\n"); }
    // placeholders without a default value
    for (auto& o : s.o) if (o.place && g.chance(1, 2)) o.def = "";
    s.text = g.chance(1, 2) ? "# a comment\n\n" : ""; for (auto& d : dir) s.text += d; for (auto& o : s.o) { if (g.chance(1, 5)) s.text += g.flip() ? "\n" : "  # comment with \"quotes and 'things\n"; s.text += line(g, o); } return s;
}
static string driver(const Spec& s, const string& pre) {
    string d = "#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdarg.h>\n#include <setjmp.h>\n#include \"getopt_long.h\"\n#include \"o.h\"\nstatic char* B; static size_t N, L; static jmp_buf J; int nmsg;\nextern int opterr;\nstatic void vput(const char* f, va_list ap) { if (L < N) { int k = vsnprintf(B + L, N - L, f, ap); if (k > 0) L += k; if (L > N) L = N; } }\nstatic void put(const char* f, ...) { va_list ap; va_start(ap, f); vput(f, ap); va_end(ap); }\nvoid x_exit(int c) { longjmp(J, 1); }\nint x_printf(const char* f, ...) { va_list ap; va_start(ap, f); vput(f, ap); va_end(ap); return 1; }\nint x_fputs(const char* s, FILE* f) { put(\"%s\", s); return 1; }\nconst char* program_name = \"prog\";\nvoid error(int st, int en, const char* f, ...) { nmsg++; if (st) longjmp(J, 2); }\nconst char* usage_fn(void) { return \"UU usage UU\\n\"; }\n";
    d += "const char* " + pre + "_version(void) { return \"1.2.3\"; }\n"; for (auto& o : s.o) if (!o.place && (o.t == CB || o.t == CBARG)) d += "static void cb_" + o.var + "(" + pre + "_option* o, char* a) { put(\"call " + o.var + " %s;\", a ? a : \"(none)\"); }\n";
    d += "int run(int argc, char** argv, char* buf, size_t n, int* cnt, char* const** in) { B = buf; N = n; L = 0; nmsg = 0; opterr = 0; " + pre + "_option o; memset(&o, 0xA5, sizeof o);\n"; for (auto& o : s.o) if (!o.place && (o.t == CB || o.t == CBARG)) d += "o." + o.var + " = cb_" + o.var + ";\n"; d += "int j = setjmp(J); if (j) return -1000 - j; int r = " + pre + "_parse(&o, argc, argv); *cnt = o.argv_count; *in = o.argv_inputs;\n";
    for (auto& o : s.o) { if (o.t != CB && o.t != CBARG) { d += string("{ ") + ctype(o.t) + "* p = &o." + o.var + "; "; if (o.t == STRING) d += "put(\"" + o.var + "=%s;\", *p ? *p : \"(null)\"); }\n"; else if (o.t == DOUBLE) d += "put(\"" + o.var + "=%.17g;\", *p); }\n"; else if (o.t == USHORT || o.t == UINT || o.t == ULONG || o.t == SIZE) d += "put(\"" + o.var + "=%llu;\", (unsigned long long)*p); }\n"; else d += "put(\"" + o.var + "=%lld;\", (long long)*p); }\n"; } if (!o.place) d += "put(\"" + o.var + "_present=%d;\", o." + o.var + "_present);\n"; }
    if (!s.nohelp) d += "put(\"help_present=%d;\", o.help_present);\n"; if (!s.nover) d += "put(\"version_present=%d;\", o.version_present);\n"; return d + "return r; }\n";
}
struct Val { string text, val; bool ok, warn; };
static Val gval(Src& g, const O& o) {
    Val v; v.ok = true; v.warn = false; switch (o.t) {
        case STRING: case CBARG: v.text = g.chance(1, 4) ? "-x" + word(g, 3) : word(g, 6); if (g.chance(1, 4)) v.text += " %s" + word(g, 4); if (g.chance(1, 5)) v.text += "=\xc3\xa9\""; v.val = v.text; return v;
        case DOUBLE: { double d = g.flip() ? (double)g.irange(-1000, 1000) / 8 : (double)g.irange(-100000, 100000) * 1.37e9; v.text = g.flip() ? dbl(d) : pbt::fmt("%g", d); v.val = dbl(strtod(v.text.c_str(), nullptr)); int k = (int)g.range(0, 11); if (k == 0) { v.text = word(g, 1) == "i" ? "q" : "x" + word(g, 4); v.ok = false; } else if (k == 1) { v.text += g.pick<const char*>({"q", " ", "ms", "%"}); v.warn = true; } return v; }
        case SIZE: { big b = g.chance(1, 2) ? (big)g.range(0, 5000) : ((big)g.u(64) >> g.range(0, 63)) * (g.chance(1, 10) ? 3 : 1); int sh[] = {0, 0, 0, 10, 10, 20, 30, 40, 50}; const char* sf[] = {"", "b", "B", "k", "K", "M", "G", "T", "P"}; int k = (int)g.range(0, 8); if (g.chance(1, 6)) b = (((big)1 << 64) >> sh[k]) - 1 + g.range(0, 2); v.text = digits(b, g.pick<int>({10, 10, 16, 8})); v.text += sf[k]; if ((sf[k][0] == 'b' || sf[k][0] == 'B') && v.text.compare(0, 2, "0x") == 0) v.text += "b"; /* hex digit */ big r; if (v.text.compare(0, 2, "0x") == 0 && (sf[k][0] == 'b' || sf[k][0] == 'B')) { v.text = digits(b, 10) + "b"; } r = b << sh[k]; v.ok = b <= tmax(SIZE) && r <= tmax(SIZE); if (v.ok) v.val = pbt::fmt("%llu", (unsigned long long)r); if (g.chance(1, 12)) { v.text = digits(g.range(1, 99), 10) + g.pick<const char*>({"x", "Z", "?", "-"}); v.ok = false; } else if (g.chance(1, 12)) { v.text = "-" + digits(g.range(1, 99), 10); v.ok = false; } else if (g.chance(1, 15)) { v.text = g.pick<const char*>({"zzz", "?", "--1"}); v.ok = false; } return v; }
        default: { big lo = tmin(o.t), hi = tmax(o.t), x; switch (g.weighted({4, 3, 3, 2, 1})) { case 0: x = g.irange(-40, 40000); break; case 1: x = hi + g.irange(-1, 2); break; case 2: x = lo + g.irange(-2, 1); break; case 3: x = (big)g.u(64) >> g.range(0, 63); if (g.flip()) x = -x; break; default: x = ((big)1 << 64) + g.irange(-3, 300); if (g.chance(1, 3)) x *= (big)g.range(1, 1000); if (g.flip()) x = -x; } v.text = digits(x, g.pick<int>({10, 10, 16, 8})); if (x >= 0 && g.chance(1, 10)) v.text = "+" + v.text; v.ok = x >= lo && x <= hi; if (v.ok) v.val = x < 0 ? pbt::fmt("%lld", (long long)x) : pbt::fmt("%llu", (unsigned long long)x); int k = (int)g.range(0, 15); if (k == 0) { v.text = g.pick<const char*>({"zzz", "x1", "?", "--5", "-", "q"}); v.ok = false; } else if (k == 1) { v.text += g.pick<const char*>({"q", " ", "ms", "%", "."}); v.warn = true; } return v; } }
}
static string defval(const O& o) { switch (o.t) { case STRING: return o.def; case DOUBLE: return dbl(strtod(o.def.c_str(), nullptr)); case BOOL: return strcasecmp(o.def.c_str(), "true") == 0 || strcasecmp(o.def.c_str(), "yes") == 0 ? "1" : "0"; case SIZE: { char* e; unsigned long long v = strtoull(o.def.c_str(), &e, 0); int sh = *e == 'k' ? 10 : *e == 'M' ? 20 : *e == 'G' ? 30 : *e == 'T' ? 40 : *e == 'P' ? 50 : 0; return pbt::fmt("%llu", v << sh); } default: return o.def.size() && o.def[0] == '-' ? pbt::fmt("%lld", strtoll(o.def.c_str(), nullptr, 0)) : pbt::fmt("%llu", strtoull(o.def.c_str(), nullptr, 0)); } }
static const string& libdir() { static string d; if (d.empty()) { d = pbt::scratch() + "/lib"; mkdir(d.c_str(), 0700); string out; if (run({"gcc", "-O0", "-fPIC", "-w", "-D_GNU_SOURCE=1", "-D__linux__=1", "-I" + repo() + "/inc", "-c", repo() + "/src/getopt_long.c", "-o", d + "/getopt.o"}, d, out)) pbt::harness_error("cannot compile getopt_long.c: %s", out.c_str()); } return d; }
static int Serial;
TARGETF(generated, 1, "at least one option of the specification is used or a wrong command line is refused", pbt::NONDET) {
    Spec s = gspec(g); libdir(); string d = pbt::scratch() + pbt::fmt("/g%d", ++Serial); mkdir(d.c_str(), 0700); struct Clean { string d; void* h = nullptr; ~Clean() { if (h) dlclose(h); for (const char* f : {"/o.in", "/o.c", "/o.h", "/drv.c", "/o.so", "/log"}) unlink((d + f).c_str()); rmdir(d.c_str()); } } clean{d}; put(d + "/o.in", s.text); TR("specification:\n%s", s.text.c_str());
    string pre = s.prefix.size() ? s.prefix : s.cmdprefix ? "cmdl" : "opt", out; vector<string> cmd{"python3", repo() + "/tools/mkgetopt.py", "-H", d + "/o.h", "-C", d + "/o.c"}; if (s.cmdprefix) { cmd.push_back("--prefix=cmdl"); TR("with --prefix=cmdl"); } cmd.push_back(d + "/o.in"); int st = run(cmd, d, out); CHECK(st == 0, "mkgetopt.py fails on a valid specification (status %d): %s", st, out.substr(out.size() > 600 ? out.size() - 600 : 0).c_str()); CHECK(out.empty(), "mkgetopt.py complains about a valid specification: %s", out.substr(0, 400).c_str());
    put(d + "/drv.c", driver(s, pre)); st = run({"gcc", "-O0", "-g0", "-fPIC", "-shared", "-w", "-Werror=incompatible-pointer-types", "-Werror=implicit-function-declaration", "-Werror=int-conversion", "-Dexit=x_exit", "-Dprintf=x_printf", "-Dfputs=x_fputs", "-D_GNU_SOURCE=1", "-I" + d, "-I" + repo() + "/inc", d + "/o.c", d + "/drv.c", libdir() + "/getopt.o", "-Wl,-Bsymbolic", "-Wl,-z,defs", "-o", d + "/o.so"}, d, out); CHECK(st == 0, "the generated code does not compile, or lacks what the specification asks for: %s", out.substr(0, 700).c_str());
    clean.h = dlopen((d + "/o.so").c_str(), RTLD_NOW | RTLD_LOCAL); if (!clean.h) pbt::harness_error("dlopen: %s", dlerror()); auto parse = (int (*)(int, char**, char*, size_t, int*, char* const**))dlsym(clean.h, "run"); if (!parse) pbt::harness_error("no run() in the driver"); bool used = false;
    int lines = (int)g.range(1, 40); for (int k = 0; k < lines; k++) {
        vector<string> av{"prog"}, rest; map<string, string> val, pres; map<string, int> bare; std::set<string> any; string calls; bool err = false, stop = false, exited = false; string why; for (auto& o : s.o) { if (o.t != CB && o.t != CBARG) val[o.var] = defval(o); if (!o.place) pres[o.var] = "0"; }
        auto abbrev = [&](const string& l) { if (!g.chance(1, 4)) return l; size_t n = l.size(); while (n > 1) { bool uniq = true; string p = l.substr(0, n - 1); for (auto& o : s.o) if (!o.place && o.lng != l && o.lng.compare(0, n - 1, p) == 0) uniq = false; if (!s.nohelp && string("help").compare(0, n - 1, p) == 0) uniq = false; if (!s.nover && string("version").compare(0, n - 1, p) == 0) uniq = false; if (!uniq) break; n--; if (g.chance(1, 3)) break; } return l.substr(0, n); };
        int items = (int)g.size(8); for (int i = 0; i < items && !stop && !exited; i++) {
            int kind = (int)g.weighted({12, 3, 1, 1, 1, 1}); if (kind == 1) { string p = g.chance(1, 6) ? "" : word(g, 4); av.push_back(p); rest.push_back(p); if (s.nopermute) { stop = true; for (int q = (int)g.size(4); q > 0; q--) { string w = g.flip() ? word(g, 4) : s.o[0].lng.size() ? "--" + s.o[0].lng : "-q"; av.push_back(w); rest.push_back(w); } } continue; }
            if (kind == 2) { av.push_back("--"); stop = true; for (int q = (int)g.size(4); q > 0; q--) { string w = g.flip() ? word(g, 4) : s.o[0].lng.size() ? "--" + s.o[0].lng : "-q"; av.push_back(w); rest.push_back(w); } continue; }
            if (kind == 3) { if (!g.chance(1, 3)) continue; err = true; why = "an unknown option"; if (g.flip()) av.push_back("--zz9zz"); else av.push_back("-@"); continue; }
            if (kind == 4) { if (!g.chance(1, 4)) continue; bool h = g.flip(); if (h ? s.nohelp : s.nover) { bool abb = false; for (auto& o : s.o) if (!o.place && o.lng.compare(0, 4, h ? "help" : "vers") == 0) abb = true; if (abb) continue; err = true; why = "an option that is turned off"; av.push_back(h ? "--help" : "--version"); } else { av.push_back(h ? g.flip() ? "--help" : "-h" : "--version"); exited = true; calls = h ? "H" : "V"; } continue; }
            vector<const O*> us; for (auto& o : s.o) if (!o.place) us.push_back(&o); if (us.empty()) continue; const O& o = *us[g.range(0, us.size() - 1)]; bool lng = o.lng.size() && (!o.sh || g.flip()); bool needs = o.t != BOOL && o.t != CB; if (kind == 5) { if (!g.chance(1, 2)) continue; if (lng && !needs) { av.push_back("--" + o.lng + "=x"); err = true; why = "an argument to a flag"; any.insert(o.var); } else if (needs && !o.opt) { av.push_back(lng ? "--" + o.lng : string("-") + o.sh); err = true; why = "a missing argument"; stop = true; any.insert(o.var); } continue; }
            used = true; if (!needs || (o.opt && g.chance(1, 2))) { av.push_back(lng ? "--" + abbrev(o.lng) : string("-") + o.sh); pres[o.var] = "1"; if (o.t == BOOL) val[o.var] = "1"; else if (o.t == CB || o.t == CBARG) calls += "call " + o.var + " (none);"; else if (o.t == SIZE || o.t == STRING || o.t == DOUBLE) any.insert(o.var); else if (any.count(o.var) || bare[o.var] < 0) any.insert(o.var); else val[o.var] = pbt::fmt("%d", ++bare[o.var]); continue; }
            Val v = gval(g, o); if (bare[o.var] > 0) bare[o.var] = -1; bool sep = !o.opt && g.flip(); if (lng) { if (sep) { av.push_back("--" + abbrev(o.lng)); av.push_back(v.text); } else av.push_back("--" + abbrev(o.lng) + "=" + v.text); } else { if (sep) { av.push_back(string("-") + o.sh); av.push_back(v.text); } else av.push_back(string("-") + o.sh + v.text); } if (!v.ok) { err = true; why = pbt::fmt("value %s for a%s", v.text.c_str(), (" " + o.tname).c_str()); any.insert(o.var); continue; } pres[o.var] = "1"; if (o.t == CBARG) calls += "call " + o.var + " " + v.val + ";"; else val[o.var] = v.val; bare[o.var] = -1; any.erase(o.var); if (v.warn && o.t != DOUBLE && false) any.insert(o.var); }
        vector<Exact*> keep; vector<char*> argv; for (auto& a : av) { keep.push_back(new Exact(a, true)); argv.push_back(keep.back()->c()); } argv.push_back(nullptr); struct Free { vector<Exact*>& k; ~Free() { for (auto* e : k) delete e; } } fr{keep}; vector<char> buf(1 << 16); int cnt = -7; char* const* in = nullptr; string sh; for (auto& a : av) sh += " " + pbt::show(a); TR("%s", sh.c_str()); int r = parse((int)av.size(), argv.data(), buf.data(), buf.size(), &cnt, &in); string got = buf.data();
        if (exited) { string want = calls; CHECK(r == -1001, "--help or --version does not end the program (%d)", r); if (want == "V") CHECK(got.find("prog") != string::npos && got.find("1.2.3") != string::npos, "the version text: %s", pbt::show(got, 300).c_str()); else { for (auto& o : s.o) if (!o.place) { if (o.lng.size()) CHECK(got.find("--" + o.lng) != string::npos, "the help does not show --%s: %s", o.lng.c_str(), pbt::show(got, 1500).c_str()); if (o.sh) CHECK(got.find(string("-") + o.sh) != string::npos, "the help does not show -%c: %s", o.sh, pbt::show(got, 1500).c_str()); size_t at = 0; for (size_t p = 0; p < o.help.size();) { size_t e = o.help.find(' ', p); if (e == string::npos) e = o.help.size(); string w = o.help.substr(p, e - p); at = got.find(w, at); CHECK(at != string::npos, "the help text lacks '%s' of %s: %s", w.c_str(), o.var.c_str(), pbt::show(got, 1500).c_str()); p = e + 1; } } if (s.usage.size()) CHECK(got.find("UU usage UU") != string::npos, "the help does not show the usage"); for (int q = 0; q < s.ndesc; q++) CHECK(got.find(pbt::fmt("dd%ddd", q)) != string::npos, "the help does not show the description"); } continue; }
        CHECK(r >= 0, "the parser ends the program (%d)", r); if (err) { CHECK(r > 0, "returns 0 although the command line has %s", why.c_str()); continue; } CHECK(r == 0, "returns %d for a correct command line", r);
        map<string, string> have; size_t p = 0; string gc; while (p < got.size()) { size_t e = got.find(';', p); if (e == string::npos) break; string f = got.substr(p, e - p); p = e + 1; if (f.compare(0, 5, "call ") == 0) gc += f + ";"; else { size_t q = f.find('='); if (q != string::npos) have[f.substr(0, q)] = f.substr(q + 1); } }
        CHECK(gc == calls, "callbacks: %s instead of %s", pbt::show(gc, 300).c_str(), pbt::show(calls, 300).c_str()); for (auto& o : s.o) { if (o.t != CB && o.t != CBARG && !any.count(o.var)) CHECK(have[o.var] == val[o.var], "%s is %s instead of %s", o.var.c_str(), pbt::show(have[o.var]).c_str(), pbt::show(val[o.var]).c_str()); if (!o.place) CHECK(have[o.var + "_present"] == pres[o.var], "%s_present is %s instead of %s", o.var.c_str(), have[o.var + "_present"].c_str(), pres[o.var].c_str()); }
        CHECK(cnt == (int)rest.size(), "%d remaining arguments instead of %zu", cnt, rest.size()); for (int i = 0; i < cnt; i++) CHECK(rest[i] == in[i], "remaining argument %d is %s instead of %s", i, in[i], rest[i].c_str()); }
    c.nontrivial(used); c.label(s.nopermute ? "no permutation" : "permuting");
}
