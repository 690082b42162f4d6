//@ src: src/error.c@-Derror=plib_error,-Dwarn=plib_warn,-Ddie=plib_die
//@ quick: 12
//@ assume: the C library's strerror and vsnprintf
// C40: diagnostics: what arrives on stderr, in which order, and how the program ends, against a formatted reference.
#include "pbt.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
extern "C" { void plib_error(int, int, const char*, ...); void plib_warn(const char*, ...); void plib_die(const char*, ...); extern const char* program_name; }
using std::string; using pbt::Src; using pbt::Ctx;
static string gmsg(Src& g) {
    size_t n; switch (g.weighted({6, 2, 3, 1})) { case 0: n = g.range(0, 12); break; case 1: n = g.range(0, 300); break; case 2: n = (size_t)((int)2047 + g.irange(-6, 6)); break; default: n = g.range(1900, 9000); }
    string s; unsigned x = (unsigned)g.range(0, 65535); for (size_t i = 0; i < n; i++) { x = x * 1103515245 + 12345; s += (char)(' ' + x / 65536 % 95); } if (n && n < 40 && g.flip()) s = g.text("ab%\n ~\x80", n); s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
    if (g.chance(1, 3)) s += "\n"; return s;
}
static int capfd = -1, save1 = -1, save2 = -1;
static void begin(bool sep) { fflush(stdout); fflush(stderr); capfd = memfd_create("c40", 0); if (capfd < 0) pbt::harness_error("memfd_create"); save1 = dup(1); save2 = dup(2); dup2(capfd, 2); if (!sep) dup2(capfd, 1); else { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(nul); } lseek(capfd, 0, SEEK_SET); }
static string finish() { fflush(stdout); fflush(stderr); dup2(save1, 1); dup2(save2, 2); close(save1); close(save2); string s; off_t n = lseek(capfd, 0, SEEK_END); s.resize((size_t)n); if (n && pread(capfd, &s[0], (size_t)n, 0) != n) pbt::harness_error("reading what was written"); close(capfd); capfd = -1; return s; }
// what: 0 error, 1 warn, 2 die.  The way the message gets in: 0 "%s", 1 as the format (% doubled), 2 in two parts
static void call(int what, int status, int err, int how, const string& m) {
    string f; for (char x : m) { f += x; if (x == '%') f += '%'; } size_t h = m.size() / 2; string a = m.substr(0, h);
#define ARGS(...) (what == 0 ? plib_error(status, err, __VA_ARGS__) : what == 1 ? plib_warn(__VA_ARGS__) : plib_die(__VA_ARGS__))
    if (how == 0) ARGS("%s", m.c_str()); else if (how == 1) ARGS(f.c_str(), 0); else ARGS("%s%.*s", a.c_str(), (int)(m.size() - h), m.c_str() + h);
}
static bool judge(const string& got, const string& head, const string& m, const string& tail, bool strip, string& why) { // head, the message with exactly one newline, before it the error text
    if (got.compare(0, head.size(), head)) { why = "does not begin with " + pbt::show(head); return false; } string b = got.substr(head.size()); string body = m; if (!body.empty() && body.back() == '\n') body.pop_back();
    if (body.size() + 1 < 2040) { if (b == body + tail + "\n") return true; why = "expected " + pbt::show(body + tail + "\n"); return false; }
    if (b.empty() || b.back() != '\n') { why = "a long message does not end in a newline"; return false; } b.pop_back(); if (b.size() < tail.size() || b.compare(b.size() - tail.size(), string::npos, tail)) { why = "a long message loses " + pbt::show(tail); return false; } b.resize(b.size() - tail.size());
    if (b.size() < 2000 || b.size() > body.size() || body.compare(0, b.size(), b)) { why = "a long message is not shown as its own beginning, or as less than 2000 bytes"; return false; } (void)strip; return true;
}
static void body(Src& g, Ctx& c, bool ends) {
    int what = ends ? (int)g.pick(std::vector<int>{0, 0, 2}) : (int)g.range(0, 1); int status = ends ? g.pick(std::vector<int>{1, 2, 77, 127, 255, -1}) : 0; int err = g.pick(std::vector<int>{0, 0, 1, ENOENT, EIO, ERANGE, 133, 134, 9999, 2147483647, -ENOENT, -1, -EINVAL, -9999}); int how = (int)g.range(0, 2); string m = gmsg(g);
    string name = g.pick(std::vector<string>{"", "prog", "a b", "%s%n"}); bool named = !name.empty() && g.flip(); string pend = g.flip() ? "pending output" : ""; Exact nm(name, true); program_name = named ? nm.c() : nullptr; c.leakcheck = true; if (ends) c.leakcheck = false;
    TR("%s(%s\"%s\" of %zu bytes) how=%d name=%s pending=%d", what == 0 ? "error" : what == 1 ? "warn" : "die", what == 0 ? pbt::fmt("%d, %d, ", status, err).c_str() : "", pbt::show(m.substr(0, 60)).c_str(), m.size(), how, named ? name.c_str() : "-", !pend.empty());
    int ae = err < 0 ? -err : err; string head = pend + (named ? name + ": " : ""), tail = what == 0 && ae ? pbt::fmt(": %s [%d]", strerror(ae), ae) : ""; string why; int st = -1;
    begin(false);
    if (!ends) { fputs(pend.c_str(), stdout); call(what, status, err, how, m); }
    else { pid_t p = fork(); if (p == 0) { alarm(20); fputs(pend.c_str(), stdout); call(what, status, err, how, m); _exit(201); } if (p < 0 || waitpid(p, &st, 0) != p) { finish(); pbt::harness_error("fork"); } }
    string got = finish(); program_name = nullptr;
    if (ends) { int want = what == 2 ? 1 : status & 0xff; CHECK(WIFEXITED(st), "the program was ended by signal %d", WTERMSIG(st)); CHECK(WEXITSTATUS(st) != 201, "did not end the program"); CHECK(WEXITSTATUS(st) == want, "exit status %d, expected %d (printed %s)", WEXITSTATUS(st), want, pbt::show(got.substr(0, 300)).c_str()); }
    CHECK(judge(got, head, m, tail, what == 0, why), "printed %s: %s", pbt::show(got.size() > 400 ? got.substr(0, 60) + "..." + got.substr(got.size() - 60) : got).c_str(), why.c_str());
    c.nontrivial(m.size() > 1 && (named || !tail.empty() || m.size() > 2000)); c.label(m.empty() ? "empty message" : m.size() > 2040 ? "long message" : "short message"); if (!tail.empty()) c.label("errno"); if (!pend.empty()) c.label("pending stdout");
}
TARGET(report, 4, "a named program, an error number or a message of over 2000 bytes") { body(g, c, false); }
TARGET(ending, 1, "a named program, an error number or a message of over 2000 bytes") { body(g, c, true); }
