//@ src: src/freadline.c
//@ quick: 8
//@ assume: an empty line and the end of the file both yield 0 (documented); only feof() tells them apart, which it does except behind a final CR
#include "utils/utils.h"
#include <cstring>
#include <cstdio>
#include <cerrno>
#include <string>
#include <vector>
#include "utils/strutils.h"
#include "pbt.h"
using pbt::Src; using pbt::Ctx; using std::string; using std::vector;
struct St { string d; size_t at, failat, step; };
static ssize_t rd(void* o, char* b, size_t n) { St& s = *(St*)o; if (s.at >= s.failat) { errno = EIO; return -1; } n = std::min({n, s.step, s.d.size() - s.at, s.failat - s.at}); memcpy(b, &s.d[s.at], n); s.at += n; return (ssize_t)n; }
static string gstream(Src& g, size_t n) { // lines around the size of the buffer, with all mixtures of terminators
    string s; int k = (int)(n > 600 ? g.range(1, 3) : g.size(20)); bool bin = n <= 600 && g.chance(1, 5); static const char* T[] = {"\n", "\r\n", "\r", "\n\r", "\r\r\n", "\n\n", "\r\n\r\n"}; int fix = (int)g.range(0, 8);
    for (int i = 0; i < k; i++) { size_t l = g.chance(1, 2) ? (size_t)std::max(0L, (long)n + g.irange(-3, 3)) : g.chance(1, 3) ? 0 : g.range(0, 2 * n + 4); if (n > 600) s += g.fill(l, "abc"); else for (size_t j = 0; j < l; j++) s += bin ? (char)g.pick<int>({0, 0xff, 0x80, 'a', 26, 4, 0xff}) : (char)('a' + j % 26); if (i + 1 < k || g.flip()) s += T[fix < 7 ? fix : g.range(0, 6)]; }
    return s; }
TARGET(lines, 1, "at least three lines, one of them too long for the buffer or without a terminator") {
    size_t n = g.chance(1, 2000) ? 601 + g.big(70000) : g.chance(1, 4) ? g.range(1, 3) : g.chance(1, 8) ? g.range(1, 600) : g.range(2, 20); St st{gstream(g, n), 0, (size_t)-1, n > 600 ? g.range(500, 9000) : g.chance(1, 3) ? 1 : g.range(1, 64)}; if (g.chance(1, 5)) st.failat = g.range(0, st.d.size());
    bool fails = st.failat != (size_t)-1; cookie_io_functions_t io{}; io.read = rd; FILE* fp = fopencookie(&st, "r", io); setvbuf(fp, nullptr, g.chance(1, 3) ? _IONBF : _IOFBF, n > 600 ? 4096 : g.range(1, 100)); struct Cl { FILE* f; ~Cl() { fclose(f); } } cl{fp};
    TR("stream of %zu bytes %s%s, buffer of %zu", st.d.size(), pbt::show(st.d).c_str(), fails ? pbt::fmt(" that fails after %zu", st.failat).c_str() : "", n);
    string d = st.d.substr(0, std::min(st.failat, st.d.size())); size_t pos = 0; int lines = 0; bool longs = false, unterm = false;
    for (;;) {
        size_t e = pos; while (e < d.size() && e - pos < n && d[e] != '\n' && d[e] != '\r') e++; // the reference
        bool term = e < d.size() && (d[e] == '\n' || d[e] == '\r'), over = e - pos >= n; if (e - pos == n) term = false;
        Exact b(n); errno = 0; int r = freadline(fp, (unsigned char*)b.p, (int)n); string got(b.c(), n);
        if (over) { longs = true; CHECK(r == -ENOSPC, "line %d has %zu bytes or more, the buffer %zu: returns %d", lines, e - pos, n, r); CHECK(!got.compare(0, n - 1, d.substr(pos, n - 1)), "the beginning of the overlong line is wrong: %s", pbt::show(got).c_str()); CHECK(n == 0 || !got[n - 1], "the part of an overlong line is not terminated"); pos += n - 1; lines++; if (n == 1) break; continue; }
        if (!term && fails) { CHECK(r == -EIO, "the stream fails in line %d: returns %d", lines, r); break; }
        if (!term && e == pos) { CHECK(r == 0 && feof(fp), "at the end: returns %d, feof %d", r, feof(fp)); break; }
        if (!term) unterm = true;
        CHECK(r == (int)(e - pos), "line %d is %s of %zu bytes: returns %d", lines, pbt::show(d.substr(pos, e - pos)).c_str(), e - pos, r); CHECK(got.substr(0, e - pos) == d.substr(pos, e - pos), "line %d is %s instead of %s", lines, pbt::show(got.substr(0, e - pos)).c_str(), pbt::show(d.substr(pos, e - pos)).c_str()); CHECK(!got[e - pos], "line %d is not terminated in the buffer", lines);
        bool cr = term && d[e] == '\r'; pos = e + term; if (cr && pos < d.size() && d[pos] == '\n') pos++; CHECK(cr || !term || !feof(fp), "feof after a complete line"); lines++; }
    c.nontrivial(lines >= 3 && (longs || unterm)); c.label(fails ? "fails" : longs ? "overlong" : unterm ? "unterminated" : "plain");
}
