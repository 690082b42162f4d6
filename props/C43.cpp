//@ src: src/daemon.c src/posix/syserror.cpp
//@ wrap: fork open
//@ quick: 12
//@ assume: the first process leaves by way of the function, so what a caller sees after it is seen by the daemon
// C43: becoming a daemon, with real processes that report through a pipe.
#include "utils/utils.h"
#include "utils/daemon.h"
#include "pbt.h"
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <poll.h>
#include <dirent.h>
#include <cstdarg>
#include <signal.h>
#include <map>
using pbt::Src; using pbt::Ctx; typedef std::string S;
static int forks, fork_fail; static bool null_fails; static int out_fd = -1; static pid_t first;
extern "C" pid_t __real_fork(); extern "C" int __real_open(const char*, int, ...);
extern "C" pid_t __wrap_fork() { if (++forks == fork_fail) { errno = EAGAIN; return -1; } return __real_fork(); }
extern "C" int __wrap_open(const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); if (null_fails && !strcmp(p, "/dev/null")) { errno = EMFILE; return -1; } return __real_open(p, f, m); }
static void say(const S& s) { if (write(out_fd, s.data(), s.size()) != (ssize_t)s.size()) {} }
static void at_exit_handler() { say(pbt::fmt("exit %d\n", (int)getpid())); }
static S rd(const S& f) { S s; int fd = __real_open(f.c_str(), O_RDONLY); if (fd < 0) return "(missing)"; char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }
static std::map<int, S> fds() { std::map<int, S> m; for (int i = 0; i < 400; i++) { char p[64], l[512]; snprintf(p, sizeof p, "/proc/self/fd/%d", i); ssize_t n = readlink(p, l, sizeof l - 1); if (n >= 0) { l[n] = 0; m[i] = l; } } return m; }
struct Conf { S dir; bool nulldir; mode_t um; int std[3]; int extra; S before, later, log1, log2; bool handler; };
[[noreturn]] static void child(const Conf& k, const S& base) {
    first = getpid(); if (chdir((base + "/start").c_str())) say("harness chdir\n"); umask(k.um); S o = base + "/out";
    for (int i = 0; i < 3; i++) if (k.std[i]) { int fd = __real_open(o.c_str(), (i ? O_WRONLY | O_APPEND : O_RDONLY) | O_CREAT, 0600); if (fd != i) { dup2(fd, i); close(fd); } } else close(i);
    for (int i = 0; i < 3; i++) if (!k.std[i]) close(i);
    for (int i = 0; i < k.extra; i++) { int fd = __real_open("/dev/zero", O_RDONLY), d = fcntl(fd, F_DUPFD, 3 + i * 7); close(fd); (void)d; }
    int lfd = __real_open((base + "/log").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600), lf = fcntl(lfd, F_DUPFD, 5); close(lfd); FILE* lg = fdopen(lf, "a"); FILE* so = k.std[1] ? fdopen(1, "a") : nullptr; if (!lg) say("harness fopen\n"); static char b1[65536], b2[65536]; setvbuf(lg, b1, _IOFBF, sizeof b1); if (so) setvbuf(so, b2, _IOFBF, sizeof b2);
    fputs(k.log1.c_str(), lg); if (so) fputs(k.before.c_str(), so); if (k.handler) atexit(at_exit_handler); auto f0 = fds(); pid_t sid0 = getsid(0);
    Exact d(k.dir, true); forks = 0; int r = daemonize(k.nulldir ? nullptr : d.c()); int e = errno; auto f1 = fds();
    char cwd[4096] = "?"; if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "?"); mode_t um = umask(0); umask(um); S nul = "ok"; if (!r) { char x; if (read(0, &x, 1) != 0) nul = "reading"; for (int i = 1; i < 3; i++) if (write(i, "z", 1) != 1) nul = "writing"; }
    S df; for (auto& x : f1) if (x.first > 2 && (!f0.count(x.first) || f0[x.first] != x.second)) df += pbt::fmt(" %d is %s", x.first, x.second.c_str()); for (auto& x : f0) if (x.first > 2 && !f1.count(x.first)) df += pbt::fmt(" %d was closed", x.first); S st; for (int i = 0; i < 3; i++) st += pbt::fmt("%s;", f1.count(i) ? f1[i].c_str() : "closed");
    say(pbt::fmt("ret %d\nerr %d\npid %d\nfirst %d\nleader %d\nnewsid %d\numask %o\nnull %s\nstd %s\nfds %s\ncwd %s\n", r, e, (int)getpid(), (int)first, getsid(0) == getpid(), getsid(0) != sid0, (unsigned)um, nul.c_str(), st.c_str(), df.c_str(), cwd));
    fputs(k.log2.c_str(), lg); if (so) fputs(k.later.c_str(), so); exit(0);
}
TARGET(daemon, 1, "a process with output waiting, exit handlers, closed standard streams or open files") {
    Conf k; S base = pbt::scratch() + "/d"; (void)!system(("rm -rf '" + base + "'").c_str()); mkdir(base.c_str(), 0700); mkdir((base + "/start").c_str(), 0700); mkdir((base + "/end dir").c_str(), 0700); int bad = 0;
    unsigned w = (unsigned)g.weighted({4, 1, 1, 1, 1}); k.nulldir = w == 1; if (w == 0) k.dir = base + "/end dir"; else if (w == 2) { k.dir = "/no such directory"; bad = ENOENT; } else if (w == 3) k.dir = "/"; else if (w == 4) k.dir = "../end dir";
    k.um = (mode_t)g.pick<int>({0, 022, 077, 0777, 027}); for (int& s : k.std) s = g.chance(2, 3); k.extra = (int)g.range(0, 4); k.before = g.text("ab\n", g.range(0, 30)); k.later = g.text("xy", g.range(0, 9)); k.log1 = g.text("12\n", g.range(0, 40)); k.log2 = g.text("89", g.range(0, 20)); k.handler = g.flip();
    fork_fail = 0; null_fails = false; int fault = 0; if (g.chance(1, 5)) { fault = (int)g.range(1, 3); if (fault <= 2) fork_fail = fault; else null_fails = true; }
    TR("daemonize(%s), umask %o, standard streams %d%d%d, %d more open, %zu bytes of output waiting%s%s", k.nulldir ? "NULL" : pbt::show(k.dir).c_str(), (unsigned)k.um, k.std[0], k.std[1], k.std[2], k.extra, k.before.size() + k.log1.size(), k.handler ? ", exit handler" : "", fault == 0 ? "" : fault == 3 ? ", /dev/null cannot be opened" : fault == 1 ? ", first fork fails" : ", second fork fails");
    int p[2]; if (pipe(p)) pbt::harness_error("pipe"); fflush(nullptr); pid_t pid = __real_fork(); if (pid < 0) pbt::harness_error("fork: %s", strerror(errno));
    if (!pid) { close(p[0]); out_fd = fcntl(p[1], F_DUPFD, 300); close(p[1]); for (int i = 3; i < 256; i++) close(i); child(k, base); }
    close(p[1]); S rep; for (;;) { struct pollfd f = {p[0], POLLIN, 0}; if (poll(&f, 1, 30000) <= 0) { kill(pid, SIGKILL); FAIL("nothing heard from the daemon for 30 s"); } char b[4096]; ssize_t n = read(p[0], b, sizeof b); if (n <= 0) break; rep.append(b, n); } close(p[0]);
    int st = 0; waitpid(pid, &st, 0); fork_fail = 0; null_fails = false; CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process that called daemonize ended with status %#x", st);
    std::map<S, S> m; std::vector<S> ex; int rets = 0; for (size_t a = 0; a < rep.size();) { size_t e = rep.find('\n', a); S l = rep.substr(a, e - a); a = e == S::npos ? rep.size() : e + 1; size_t sp = l.find(' '); S key = l.substr(0, sp), v = sp == S::npos ? "" : l.substr(sp + 1); if (key == "exit") ex.push_back(v); else { m[key] = v; rets += key == "ret"; } }
    CHECK(!m.count("harness"), "harness: %s", m["harness"].c_str()); CHECK(rets == 1, "daemonize returned %d times", rets); TR("%s", rep.c_str()); int r = atoi(m["ret"].c_str()); bool self = m["pid"] == m["first"];
    if (fault == 1) { CHECK(r == -EAGAIN && self, "returned %d when the first fork failed", r); c.label("first fork fails"); }
    else if (fault == 2) { CHECK(r == -EAGAIN, "returned %d when the second fork failed", r); c.label("second fork fails"); }
    else if (bad) { CHECK(r == -bad, "returned %d for a directory that cannot be entered", r); c.label("no directory"); }
    else if (fault == 3) { CHECK(r == -EMFILE, "returned %d when /dev/null could not be opened", r); c.label("no null device"); }
    else { CHECK(r == 0, "returned %d", r); CHECK(!self, "still the same process"); CHECK(m["newsid"] == "1", "still in the caller's session"); CHECK(m["leader"] == "0", "the daemon leads its session, and can acquire a terminal"); CHECK(m["umask"] == "22", "the umask is %s", m["umask"].c_str());
        S wd = k.nulldir ? "/tmp" : w == 4 ? base + "/end dir" : k.dir; char rp[4096]; if (realpath(wd.c_str(), rp)) wd = rp; CHECK(m["cwd"] == wd, "the working directory is '%s', not '%s'", m["cwd"].c_str(), wd.c_str()); CHECK(m["std"] == "/dev/null;/dev/null;/dev/null;", "standard streams: %s", m["std"].c_str()); CHECK(m["null"] == "ok", "%s a standard stream fails", m["null"].c_str()); CHECK(m["fds"].empty(), "descriptors changed:%s", m["fds"].c_str()); c.label("daemon"); }
    S lg = rd(base + "/log"), out = rd(base + "/out"); CHECK(lg == k.log1 + k.log2, "what was written before and after was '%s', the file has '%s'", pbt::show(k.log1 + k.log2).c_str(), pbt::show(lg).c_str()); if (k.std[1] && r == 0) CHECK(out == k.before, "what was printed before was '%s', the output is '%s'", pbt::show(k.before).c_str(), pbt::show(out).c_str());
    CHECK(ex.size() == (k.handler ? 1 : 0), "exit handlers ran %zu times", ex.size()); if (k.handler) CHECK(ex[0] == m["pid"], "the exit handlers ran in process %s, the daemon is %s", ex[0].c_str(), m["pid"].c_str());
    c.nontrivial(k.before.size() + k.log1.size() > 0 || k.handler || k.extra || !k.std[0] || !k.std[1] || !k.std[2]); (void)!system(("rm -rf '" + base + "'").c_str());
}
