//@ src: src/readpass.c@-Dfileno=p_fileno,-Disatty=p_isatty,-Dtcgetattr=p_tcgetattr,-Dtcsetattr=p_tcsetattr,-Dfopen=p_fopen,-Dfclose=p_fclose,-Dfprintf=p_fprintf,-Dfputs=p_fputs,-Dfputc=p_fputc,-Dputc=p_fputc,-Dfwrite=p_fwrite,-Dstrdup=p_strdup
//@ quick: 10
//@ libs: -lpthread
//@ assume: passwords of at most 2046 characters without NUL (longer ones: only memory safety)
#include "utils/utils.h"
#include <termios.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <string>
#include <vector>
#include <thread>
#include <atomic>
#include "utils/readpass.h"
#include "pbt.h"
using pbt::Src; using pbt::Ctx; using std::string; using std::vector;
// a model of the terminal: its settings, what is typed, and whether it was echoed
static bool Pty; static string Slave;
static struct Term { struct termios t; bool tty, gfail, sfail, opens, open, nomem; string in; size_t at, failat; bool echoed; string said; int opened, closed, sets; FILE* dev; } T;
static ssize_t rd(void*, char* b, size_t n) { if (T.tty && (T.t.c_lflag & ECHO)) T.echoed = true; if (T.at >= T.failat) { errno = EIO; return -1; } size_t e = T.in.find('\n', T.at); size_t k = std::min(n, std::min(e == string::npos ? T.in.size() : e + 1, T.failat) - T.at); memcpy(b, &T.in[T.at], k); T.at += k; return (ssize_t)k; }
extern "C" {
int p_fileno(FILE* f) { return Pty ? fileno(f) : 77; } int p_isatty(int fd) { return Pty ? isatty(fd) : T.tty; }
int p_tcgetattr(int fd, struct termios* t) { if (Pty) return tcgetattr(fd, t); if (T.gfail) { errno = EIO; return -1; } *t = T.t; return 0; }
int p_tcsetattr(int fd, int, const struct termios* t) { if (Pty) return tcsetattr(fd, TCSANOW, t); if (T.sfail && T.sets++ == 0) { errno = EINTR; return -1; } T.t = *t; return 0; }
FILE* p_fopen(const char* n, const char* m) { if (strcmp(n, "/dev/tty")) pbt::harness_error("fopen of another file"); if (Pty) { T.opened++; return fopen(Slave.c_str(), m); } if (!T.opens) { errno = ENXIO; return nullptr; } T.opened++; cookie_io_functions_t io{}; io.read = rd; T.dev = fopencookie(nullptr, "r", io); return T.dev; }
int p_fclose(FILE* f) { T.closed++; return fclose(f); }
int p_fprintf(FILE*, const char* f, ...) { char b[4096]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); T.said += b; return n; }
int p_fputs(const char* s, FILE*) { T.said += s; return 0; } int p_fputc(int ch, FILE*) { T.said += (char)ch; return ch; } size_t p_fwrite(const void* b, size_t s, size_t n, FILE*) { T.said.append((const char*)b, s * n); return n; }
char* p_strdup(const char* s) { if (T.nomem) { errno = ENOMEM; return nullptr; } return strdup(s); } }
static string gpw(Src& g) { string s; size_t n = g.chance(1, 3) ? 0 : g.chance(1, 12) ? g.range(2000, 2046) : g.size(20); for (size_t i = 0; i < n; i++) s += g.chance(1, 6) ? "\r \t\"\x80\xff\\%"[g.range(0, 7)] : (char)g.range('!', '~'); return s; }
static string chop(string l) { if (!l.empty() && l.back() == '\n') l.pop_back(); if (!l.empty() && l.back() == '\r') l.pop_back(); return l; }
static bool same(const struct termios& a, const struct termios& b) { return a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && !memcmp(a.c_cc, b.c_cc, sizeof a.c_cc); }
TARGET(model, 20, "a confirmation, a failure or an empty or long password") {
    Pty = false; T = Term(); T.failat = (size_t)-1; memset(&T.t, 0, sizeof T.t); T.t.c_iflag = (tcflag_t)g.u(16); T.t.c_oflag = (tcflag_t)g.u(16); T.t.c_cflag = (tcflag_t)g.u(16); T.t.c_lflag = (tcflag_t)g.u(16) | (g.chance(4, 5) ? ECHO : 0); for (auto& x : T.t.c_cc) x = (cc_t)g.u(8); struct termios before = T.t;
    int devtty = g.flip(); T.opens = g.chance(3, 4); T.tty = g.chance(3, 4); if (g.chance(1, 15)) T.gfail = true; if (g.chance(1, 15)) T.sfail = true; T.nomem = g.chance(1, 20); bool conf = g.flip(); bool toolong = g.chance(1, 15);
    vector<string> lines; int tries = 0; string eol = g.pick<const char*>({"\n", "\r\n"}); int pairs = (int)g.range(1, 4); for (int i = 0; i < pairs; i++) { string p = gpw(g); if (toolong && g.flip()) p.resize(g.range(2047, 6000), 'q'); string q = g.chance(1, 2) ? p : g.chance(1, 3) ? gpw(g) : p + (g.flip() ? "x" : eol == "\n" ? " " : "\r"); if (g.chance(1, 8) && p.size()) { q = p; q[g.range(0, q.size() - 1)] ^= (char)(1 << g.range(0, 6)); if (q.find('\n') != string::npos || q.find('\0') != string::npos) q = p; } T.in += p + eol; T.in += q + eol; }
    if (g.chance(1, 3)) T.in.resize(g.range(0, T.in.size())); if (g.chance(1, 8)) T.failat = g.range(0, T.in.size()); if (T.in.find('\0') != string::npos) { c.discard = true; return; }
    size_t pos = 0; auto line = [&](string& l) { size_t e = T.in.find('\n', pos); size_t end = e == string::npos ? T.in.size() : e + 1; if (end > T.failat || (e == string::npos && T.failat == T.in.size()) ) return 2; if (pos >= T.in.size()) return 1; l = T.in.substr(pos, end - pos); pos = end; return 0; };
    int want = 0; string pw; bool lng = false; // the reference
    if (T.tty && (T.gfail || T.sfail)) want = -1; else { string a, b; int e; want = -EINVAL; while (tries++ < 3) { if ((e = line(a))) { want = e == 2 ? -EIO : -1; break; } if (a.size() > 2047) lng = true; if (!conf) { want = 0; break; } if ((e = line(b))) { want = e == 2 ? -EIO : -1; break; } if (b.size() > 2047) lng = true; if (a == b) { want = 0; break; } } pw = chop(a); if (!want && T.nomem) want = -ENOMEM; }
    cookie_io_functions_t io{}; io.read = rd; FILE* in = fopencookie(nullptr, "r", io); FILE* old = stdin; stdin = in; if (devtty && T.opens) { } const char *prompt = "Passphrase", *confirm = conf ? "Again" : nullptr; char* out = (char*)0x1234; errno = 0;
    int r = portable_readpass(&out, prompt, confirm, devtty); stdin = old; fclose(in); string got; if (r == 0 && out != (char*)0x1234) { got = out; free(out); }
    TR("%s, %s%s%s, input %s%s: %d%s", devtty ? T.opens ? "/dev/tty" : "no /dev/tty" : "stdin", T.tty ? "terminal" : "not a terminal", conf ? ", with confirmation" : "", T.nomem ? ", no memory" : "", pbt::show(T.in, 200).c_str(), T.failat != (size_t)-1 ? pbt::fmt(" failing at %zu", T.failat).c_str() : "", r, r ? "" : (" " + pbt::show(got, 80)).c_str());
    c.nontrivial(conf || want || pw.empty() || pw.size() > 1000); c.label(want == 0 ? "read" : want == -EINVAL ? "no match" : want == -EIO ? "read error" : want == -ENOMEM ? "no memory" : "eof or settings");
    CHECK(same(T.t, before), "the terminal settings are not restored (lflag %x, was %x)", T.t.c_lflag, before.c_lflag); CHECK(!T.echoed, "the password is echoed while it is typed"); CHECK(T.opened == T.closed, "/dev/tty opened %d times, closed %d times", T.opened, T.closed);
    if (lng || toolong) return; CHECK(r == 0 ? want == 0 : want == -1 ? r < 0 : r == want, "returns %d instead of %s%d", r, want == -1 ? "an error like " : "", want);
    if (r == 0) CHECK(out != (char*)0x1234, "success without a password"); else CHECK(out == (char*)0x1234 || !out, "the password pointer is set on failure"); if (r == 0) CHECK(got == pw, "password %s instead of %s", pbt::show(got, 80).c_str(), pbt::show(pw, 80).c_str());
    CHECK((T.said.find("Passphrase: ") != string::npos) == (T.tty && !(T.gfail || T.sfail)), "the prompt: %s", pbt::show(T.said).c_str()); if (pw.size() > 20) CHECK(T.said.find(pw) == string::npos, "the password is printed");
}
// a real pseudo-terminal: the kernel echoes what the library lets it echo
TARGETF(pty, 1, "a password typed at a pseudo-terminal", pbt::NONDET) {
    Pty = true; T = Term(); int m = posix_openpt(O_RDWR | O_NOCTTY); if (m < 0 || grantpt(m) || unlockpt(m)) { if (m >= 0) close(m); c.discard = true; return; } Slave = ptsname(m); int s = open(Slave.c_str(), O_RDWR | O_NOCTTY); if (s < 0) { close(m); c.discard = true; return; }
    struct termios t0, t1; tcgetattr(s, &t0); if (g.flip()) { t0.c_lflag &= ~(tcflag_t)(ECHOE | ECHOK); tcsetattr(s, TCSANOW, &t0); } tcgetattr(s, &t0); string pw; size_t n = g.range(1, 60); for (size_t i = 0; i < n; i++) pw += (char)g.range('a', 'z'); bool conf = g.flip(); int dev = g.flip(); c.nontrivial(true);
    FILE* in = fopen(Slave.c_str(), "r"); FILE* old = stdin; stdin = in; std::atomic<bool> done{false}; string screen; std::atomic<bool> early{false}; std::thread th([&] { struct termios t; int i = 0; for (; i < 50000 && !done; i++) { tcgetattr(s, &t); if (!(t.c_lflag & ECHO)) break; usleep(100); } if (i == 50000) early = true; string w = pw + "\n"; if (conf) w += pw + "\n"; if (!done && write(m, w.data(), w.size()) < 0) {} });
    char* out = nullptr; int r = portable_readpass(&out, "Pass", conf ? "Again" : nullptr, dev); done = true; th.join(); stdin = old; struct pollfd pf{m, POLLIN, 0}; char b[512]; while (poll(&pf, 1, 0) > 0 && (pf.revents & POLLIN)) { ssize_t k = read(m, b, sizeof b); if (k <= 0) break; screen.append(b, k); } tcgetattr(s, &t1); fclose(in); close(s); close(m); string got = out ? out : ""; free(out); if (early) { c.discard = true; return; } // the other thread was not scheduled in time
    TR("typed %s%s at %s: %d %s, screen %s", pw.c_str(), conf ? " twice" : "", dev ? "/dev/tty" : "stdin", r, got.c_str(), pbt::show(screen).c_str());
    CHECK(r == 0 && got == pw, "returns %d, %s", r, pbt::show(got).c_str()); CHECK(screen.find(pw) == string::npos, "the password is on the screen: %s", pbt::show(screen).c_str()); CHECK(same(t0, t1), "the terminal settings are not restored");
}
