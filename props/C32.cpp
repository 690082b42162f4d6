//@ src: src/getopt_long.c@-Dgetopt_long=p_getopt_long,-Dgetopt=p_getopt,-Doptarg=p_optarg,-Doptind=p_optind,-Dopterr=p_opterr,-Doptopt=p_optopt,-Doptreset=p_optreset,-Dfprintf=p_fprintf,-Dvfprintf=p_vfprintf,-Dfputs=p_fputs,-Dfputc=p_fputc,-Dputc=p_fputc,-Dfwrite=p_fwrite
//@ assume: the optopt left by an erroneous long option that sets a flag variable, and a leading '-' in the option string together with POSIXLY_CORRECT, are documented deviations from GNU and are not compared
//@ quick: 10
#include "utils/utils.h"
#include <getopt.h>
#include <cstring>
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <string>
#include <vector>
#include <memory>
#include "pbt.h"
using pbt::Src; using pbt::Ctx; using std::string; using std::vector;
static int Printed; static bool ended; static string Msg;
extern "C" { extern char* p_optarg; extern int p_optind, p_opterr, p_optopt, p_optreset; int p_getopt_long(int, char* const*, const char*, const struct option*, int*); int p_getopt(int, char* const*, const char*);
int p_vfprintf(FILE*, const char* f, va_list ap) { char b[4096]; vsnprintf(b, sizeof b, f, ap); Msg += b; Printed++; return 0; }
int p_fprintf(FILE* o, const char* f, ...) { va_list ap; va_start(ap, f); p_vfprintf(o, f, ap); va_end(ap); return 0; }
int p_fputs(const char* s, FILE*) { Msg += s; Printed++; return 0; } int p_fputc(int ch, FILE*) { Msg += (char)ch; Printed++; return ch; } size_t p_fwrite(const void* b, size_t s, size_t n, FILE*) { Msg.append((const char*)b, s * n); Printed++; return n; } }
struct Step { int ret; bool hasarg; string arg; int idx, optopt; vector<int> flags; };
static string show(const Step& s) { return pbt::fmt("%d(%c)%s%s index %d optopt %d", s.ret, s.ret > 32 && s.ret < 127 ? s.ret : ' ', s.hasarg ? " arg " : "", s.hasarg ? pbt::show(s.arg).c_str() : "", s.idx, s.optopt); }
static string gword(Src& g, const char* al, size_t lo, size_t hi) { string s; size_t n = g.range(lo, hi); for (size_t i = 0; i < n; i++) s += al[g.range(0, strlen(al) - 1)]; return s; }
struct Def { string opts; vector<string> names; vector<option> longs; int flags[8]; bool lng; };
static void gdef(Src& g, Def& d) {
    d.lng = !g.chance(1, 5); string o; if (g.chance(1, 4)) o += g.flip() ? '-' : '+'; if (g.chance(1, 4)) o += ':';
    string used; size_t n = g.range(0, 6); for (size_t i = 0; i < n; i++) { char ch = "abcxyzAWo1=_"[g.range(0, 11)]; if (used.find(ch) != string::npos) continue; used += ch; if (ch == 'W' && g.chance(2, 3)) { o += "W;"; continue; } o += ch; int k = (int)g.weighted({3, 3, 2}); o.append(k, ':'); }
    d.opts = o; n = g.chance(1, 1000) ? g.big(300) : g.range(0, 7); int same = (int)g.range(256, 260);
    for (size_t i = 0; i < n; i++) d.names.push_back(g.chance(1, 3) && !d.names.empty() ? d.names[g.range(0, d.names.size() - 1)] + gword(g, "ab-", 1, 3) : gword(g, "ab-c", 1, 5));
    for (size_t i = 0; i < n; i++) { option l; l.name = d.names[i].c_str(); l.has_arg = g.chance(1, 3) ? 1 : (int)g.range(0, 2); l.flag = g.chance(1, 4) ? &d.flags[g.range(0, 7)] : nullptr; l.val = g.chance(1, 3) ? same : g.chance(1, 3) ? 'a' : (int)(300 + i);
        if (g.chance(1, 4) && i) { l.has_arg = d.longs[i - 1].has_arg; l.flag = d.longs[i - 1].flag; l.val = d.longs[i - 1].val; } d.longs.push_back(l); }
    d.longs.push_back(option{0, 0, 0, 0});
}
static string garg(Src& g, const Def& d) {
    switch (g.weighted({5, 5, 4, 1, 1, 1, 1, 1})) {
        case 0: return "-" + (g.chance(2, 3) && !d.opts.empty() ? string(1, d.opts[g.range(0, d.opts.size() - 1)]) : string()) + gword(g, d.opts.empty() ? "aq" : d.opts.c_str(), 0, 3) + gword(g, "abq-:;W\xe9", 0, g.chance(1, 3) ? 2 : 0);
        case 1: { string s = "--"; if (!d.names.empty()) { const string& w = d.names[g.range(0, d.names.size() - 1)]; s += w.substr(0, g.chance(1, 2) ? w.size() : g.range(0, w.size())); } if (g.chance(1, 8)) s += gword(g, "ab", 1, 2); if (g.chance(1, 4)) s += "=" + gword(g, "v=-a", 0, 3); return s; }
        case 2: return gword(g, "opqr", 1, 3);
        case 3: return "-"; case 4: return "--"; case 5: return ""; case 6: return "-W"; default: return "-W" + (d.names.empty() ? string("a") : d.names[g.range(0, d.names.size() - 1)]); }
}
static void scan(Src& g, Ctx& c, bool more) {

    Def d; gdef(g, d); size_t n = g.chance(1, 3000) ? g.big(3000) : g.size(g.chance(1, 6) ? 40 : 9); vector<string> av{"prog"}; for (size_t i = 0; i < n; i++) av.push_back(garg(g, d));
    bool posix = d.opts[0] != '-' && g.chance(1, 8); if (posix) setenv("POSIXLY_CORRECT", "1", 1); else unsetenv("POSIXLY_CORRECT");
    vector<std::unique_ptr<Exact>> keep; size_t argc = av.size(); Exact va(sizeof(char*) * (argc + 1)); char** mine = (char**)va.p; vector<char*> theirs; for (size_t i = 0; i < argc; i++) { keep.emplace_back(new Exact(av[i], true)); mine[i] = keep.back()->c(); theirs.push_back(mine[i]); } mine[argc] = nullptr; theirs.push_back(nullptr);
    string sh; for (size_t i = 1; i < argc; i++) sh += " " + pbt::show(av[i]); string ls; for (auto& l : d.longs) if (l.name) ls += pbt::fmt(" %s%s%s=%d", l.name, l.has_arg == 1 ? ":" : l.has_arg ? "::" : "", l.flag ? pbt::fmt("[%d]", (int)(l.flag - d.flags)).c_str() : "", l.val);
    TR("%s%s options \"%s\" long {%s } arguments%s", d.lng ? "getopt_long" : "getopt", posix ? " (POSIXLY_CORRECT)" : "", d.opts.c_str(), ls.c_str(), sh.c_str());
    p_opterr = g.flip(); size_t stop = more && g.chance(1, 2) ? g.range(0, 5) : 10000; bool colon = d.opts[0] == ':' || ((d.opts[0] == '-' || d.opts[0] == '+') && d.opts[1] == ':'); // whether to give up early
    p_optind = ended && g.flip() ? 1 : 0; ended = false; optind = 0; /* 1 is enough after a scan that came to its end */ opterr = 0; vector<int> mf(8, 0), tf(8, 0); size_t steps = 0; bool inter = false, op = false;
    for (;; steps++) {
        if (steps >= stop) { TR("  given up after %zu", steps); return; } CHECK(steps < 1000 + 9 * n, "the parser does not come to an end");
        Step a, b; int ia = -77, ib = -77; for (int i = 0; i < 8; i++) d.flags[i] = tf[i]; optopt = -5; b.ret = d.lng ? getopt_long((int)argc, theirs.data(), d.opts.c_str(), d.longs.data(), &ib) : getopt((int)argc, theirs.data(), d.opts.c_str()); for (int i = 0; i < 8; i++) tf[i] = d.flags[i]; b.hasarg = optarg; if (optarg) b.arg = optarg; b.idx = ib; b.optopt = optopt; bool gerr = b.ret == '?' || b.ret == ':';
        for (int i = 0; i < 8; i++) d.flags[i] = mf[i]; p_optopt = -5; Printed = 0; Msg.clear(); a.ret = d.lng ? p_getopt_long((int)argc, mine, d.opts.c_str(), d.longs.data(), g.chance(1, 10) ? nullptr : &ia) : p_getopt((int)argc, mine, d.opts.c_str()); for (int i = 0; i < 8; i++) mf[i] = d.flags[i]; a.hasarg = p_optarg; if (p_optarg) a.arg = p_optarg; a.idx = ia == -77 ? ib : ia; a.optopt = p_optopt;
        if (gerr && a.optopt == 0) b.optopt = 0; /* a long option that sets a flag variable */ if (!gerr) a.optopt = b.optopt;
        TR("  %s", show(b).c_str());
        CHECK(a.ret == b.ret && (gerr || a.ret == -1 || (a.hasarg == b.hasarg && a.arg == b.arg)) && a.idx == b.idx && a.optopt == b.optopt, "GNU returns %s, the library %s", show(b).c_str(), show(a).c_str());
        CHECK(mf == tf, "the flag variables differ");
        if (a.ret != '?' && a.ret != ':') CHECK(!Printed, "prints \"%s\" although there is no error", Msg.c_str()); else if (a.optopt != -5) CHECK((Printed > 0) == (p_opterr && !colon), "error %c with opterr %d and options \"%s\": %s", a.ret, p_opterr, d.opts.c_str(), Printed ? pbt::show(Msg).c_str() : "nothing printed");
        if (a.ret == -1) { ended = true; break; } if (a.hasarg) op = true; if (a.idx >= 0) inter = true;
    }
    c.nontrivial(steps >= 2 && (op || inter));
    CHECK(p_optind == optind, "operands start at %d instead of %d", p_optind, optind);
    for (size_t i = optind; i < argc; i++) CHECK(mine[i] == theirs[i], "operand %zu is %s instead of %s", i, pbt::show(string(mine[i] ? mine[i] : "NULL")).c_str(), pbt::show(string(theirs[i])).c_str());
    vector<char*> s1(mine, mine + argc), s2(theirs.begin(), theirs.end() - 1); std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end()); CHECK(s1 == s2 && !mine[argc], "the argument vector lost or gained an element"); CHECK(mine[0] == theirs[0], "the program's name moved");
    c.label(d.lng ? d.opts[0] == '-' ? "in order" : d.opts[0] == '+' || posix ? "stops at operand" : "permute" : "short only");
}
TARGET(once, 3, "at least two options, one of them long or with an argument") { ended = false; scan(g, c, false); }
TARGET(again, 2, "at least two options, one of them long or with an argument") { ended = false; int n = (int)g.range(2, 4); for (int i = 0; i < n; i++) scan(g, c, i < n - 1); }
