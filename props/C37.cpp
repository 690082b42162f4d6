//@ src: src/progbar.c@-Disatty=p_isatty,-Dioctl=p_ioctl,-Dwrite=p_write src/humanize.c src/strcopy.c
//@ quick: 8
//@ assume: the sum of the increments fits 64 bits; a line may be wider than a narrow terminal
#include "utils/utils.h"
#include <sys/ioctl.h>
#include <cstring>
#include <cstdarg>
#include <cstdio>
#include <cerrno>
#include <string>
#include <vector>
#include "utils/strutils.h"
#include "utils/progbar.h"
#include "pbt.h"
using pbt::Src; using pbt::Ctx; using std::string; using std::vector;
static bool Tty, Nosize; static int Cols, Fd; static string Out;
extern "C" { int p_isatty(int fd) { return Tty && fd == Fd; }
int p_ioctl(int fd, unsigned long rq, ...) { va_list ap; va_start(ap, rq); struct winsize* w = va_arg(ap, struct winsize*); va_end(ap); if (fd != Fd || rq != TIOCGWINSZ) pbt::harness_error("another ioctl"); if (Nosize) { errno = ENOTTY; return -1; } memset(w, 0, sizeof *w); w->ws_col = (unsigned short)Cols; w->ws_row = 25; return 0; }
ssize_t p_write(int fd, const void* b, size_t n) { if (fd != Fd) pbt::harness_error("a write to descriptor %d", fd); Out.append((const char*)b, n); return (ssize_t)n; } }
// what the terminal shows: ESC[2K and CR empty the line
struct Screen { string line; vector<string> above; string bad; void feed(const string& s) { for (size_t i = 0; i < s.size(); i++) if (!s.compare(i, 5, "\x1b[2K\r")) { line.clear(); i += 4; } else if (s[i] == '\n') { above.push_back(line); line.clear(); } else if ((unsigned char)s[i] < 32) { bad = "a stray control character"; } else line += s[i]; } };
static string amount(uint64_t v, bool human, int pad) { char b[64]; if (human) humanize_size(b, 32, v); else snprintf(b, sizeof b, "%*llu", pad, (unsigned long long)v); return b; }
TARGET(bar, 1, "three updates or more of a bar with a total") {
    Tty = !g.chance(1, 10); Nosize = g.chance(1, 8); Cols = g.chance(1, 3) ? (int)g.range(0, 12) : g.chance(1, 6) ? 65535 : (int)g.range(1, 140); Fd = g.chance(1, 15) ? -1 : (int)g.range(0, 9); Out.clear(); uint32_t flags = g.flip() ? P_HUMAN : 0;
    uint64_t total = g.chance(1, 6) ? 0 : g.chance(1, 3) ? g.range(1, 200) : g.u((int)g.range(1, 64)); if (g.chance(1, 10)) total = UINT64_MAX / 100 + (uint64_t)g.irange(-2, 2); if (!total && g.chance(2, 3)) total = 1;
    Exact mem(sizeof(progress)); progress* p = (progress*)mem.p; int r = progressbar_init(p, Fd, total, flags); TR("%s, %d columns%s, total %llu%s: %d", Tty && Fd >= 0 ? "terminal" : "no terminal", Cols, Nosize ? " (unknown)" : "", (unsigned long long)total, flags ? ", human" : "", r); CHECK(r == 0, "progressbar_init returns %d", r); CHECK(Out.empty(), "the initialization writes %s", pbt::show(Out).c_str());
    Screen s; uint64_t cur = 0; size_t n = g.size(40), w = 0, lastfull = 0; bool live = Tty && Fd >= 0; string shown; int upd = 0;
    for (size_t i = 0; i < n; i++) {
        if (g.chance(1, 15)) { int clr = (int)g.irange(-1, 1), nl = (int)g.irange(-1, 1); Out.clear(); progressbar_finish(p, clr, nl); string want = live ? string(clr > 0 ? "\x1b[2K\r" : "") + (nl > 0 ? "\n" : "") : ""; TR("  finish %d %d: %s", clr, nl, pbt::show(Out).c_str()); CHECK(Out == want, "finish writes %s instead of %s", pbt::show(Out).c_str(), pbt::show(want).c_str()); s.feed(Out); if (live) { cur = 0; shown = ""; lastfull = 0; } continue; }
        uint64_t inc = g.weighted({1, 4, 2, 1}); inc = inc == 0 ? 0 : inc == 1 ? total / g.range(1, 120) : inc == 2 ? g.range(0, 3) : g.u(64); if (total && g.chance(1, 12)) inc = cur < total ? total - cur - g.range(0, 1) : 1; if (cur + inc < cur) inc = UINT64_MAX - cur; Out.clear(); progressbar_update(p, inc); if (!live) { CHECK(Out.empty(), "writes %s although there is no terminal", pbt::show(Out).c_str()); continue; }
        cur += inc; upd++; s.feed(Out); TR("  +%llu: %s", (unsigned long long)inc, pbt::show(s.line).c_str()); CHECK(s.bad.empty(), "%s", s.bad.c_str()); const string& l = s.line; char head[128];
        if (!total) { snprintf(head, sizeof head, "%-20s ...", amount(cur, flags, 0).c_str()); CHECK(l == head, "the line is %s instead of %s", pbt::show(l).c_str(), pbt::show(string(head)).c_str()); }
        else { char pref[96]; snprintf(pref, sizeof pref, "%-6s/%6s", amount(cur, flags, 5).c_str(), amount(total, flags, 5).c_str()); snprintf(head, sizeof head, "%-20s [", pref); string h = head; h.resize(strlen(head)); CHECK(l.size() > h.size() && !l.compare(0, h.size(), h), "the line %s does not begin with %s", pbt::show(l).c_str(), pbt::show(h).c_str());
            size_t a = h.size(), o = 0, d = 0; while (a < l.size() && l[a] == 'o') a++, o++; while (a < l.size() && l[a] == '.') a++, d++; unsigned pct = 0; int len = 0; CHECK(a < l.size() && sscanf(l.c_str() + a, "] %u%%%n", &pct, &len) == 1 && a + len == l.size(), "the line %s is malformed", pbt::show(l).c_str());
            unsigned want = cur >= total ? 100 : (unsigned)((unsigned __int128)cur * 100 / total); CHECK(pct == want || (total > UINT64_MAX / 100 && cur < total && pct <= 100 && pct + 1 >= want && pct <= want + 1), "%llu of %llu is shown as %u%%", (unsigned long long)cur, (unsigned long long)total, pct);
            CHECK(o + d >= 1 && o + d <= 50, "a bar of %zu", o + d); if (w) CHECK(o + d == w, "the bar's width changes from %zu to %zu", w, o + d); w = o + d; if (!Nosize && Cols >= 2) CHECK(w <= (size_t)Cols, "a bar of %zu on a terminal of %d columns", w, Cols); CHECK(!Nosize || w == 50, "a bar of %zu if the size is unknown", w);
            CHECK((o == w) == (pct == 100) || w < 2 || (o == w && pct * w >= 100 * (w - 1)), "%zu of %zu are filled at %u%%", o, w, pct); CHECK(o * 100 <= (pct + 1) * w + 100 && (o + 1) * 100 + 100 > pct * w, "%zu of %zu are filled at %u%%", o, w, pct); CHECK(o >= lastfull, "the bar shrinks from %zu to %zu", lastfull, o); if (pct == 0) CHECK(o == 0, "%zu filled at 0%%", o); if (pct == 100) CHECK(d == 0, "%zu not filled at 100%%", d); lastfull = o; }
        if (l == shown) CHECK(Out.empty(), "an unchanged line is written again"); shown = l; }
    c.nontrivial(upd >= 3 && total > 1); c.label(!live ? "no terminal" : total ? "bar" : "counter");
}
