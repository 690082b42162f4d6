//@ src: src/posix/linux_cpu.c
//@ quick: 10
//@ thorough: 60
//@ assume: the kernel applies an affinity it accepted, and which CPUs may be used does not change during a run
// C44: binding threads and processes to CPUs.  Every case is a child process with a second thread; the model is one set of CPUs per thread.
// Which CPUs may be bound to is found out by asking the kernel directly.
#include "utils/utils.h"
#include "pbt.h"
#include "utils/cpu.h"
#include <sched.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/wait.h>
#include <sys/sysinfo.h>
#include <unistd.h>
#include <errno.h>
#include <set>

typedef std::set<int> cset;
static cset aff(pthread_t t) { cpu_set_t s; CPU_ZERO(&s); cset r; if (pthread_getaffinity_np(t, sizeof s, &s)) { r.insert(-1); return r; } for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &s)) r.insert(i); return r; }
static cset usable() {           // in a child, so that this process keeps its own
    cset r; int p[2]; if (pipe(p)) return r; pid_t k = fork();
    if (!k) { for (int i = 0; i < CPU_SETSIZE; i++) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(i, &s); if (!sched_setaffinity(0, sizeof s, &s)) if (write(p[1], &i, sizeof i) < 0) break; } _exit(0); }
    close(p[1]); int i; while (read(p[0], &i, sizeof i) == sizeof i) r.insert(i); close(p[0]); waitpid(k, 0, 0); return r;
}
static std::string show(const cset& s) { std::string r = "{"; int n = 0; for (int i : s) { if (n++) r += ","; if (n > 20) { r += ".."; break; } r += std::to_string(i); } return r + "}"; }
struct Op { int kind, cpu; };       // 0 caller, 1 the other thread, 2 process, 3 the caller by its id, 4 the other binds itself
struct Other { sem_t go, done; int cpu; bool stop; };
static void* other(void* v) { Other* o = (Other*)v; for (;;) { while (sem_wait(&o->go)) {} if (o->stop) break; sys_cpu_set_my_thread_affinity(o->cpu); sem_post(&o->done); } return 0; }
static void* nop(void* v) { *(cset*)v = aff(pthread_self()); return 0; }

static std::string history(const std::vector<Op>& ops, const cset& ok) {
    pthread_t me = pthread_self(), ot; Other o; sem_init(&o.go, 0, 0); sem_init(&o.done, 0, 0); o.stop = false;
    if (pthread_create(&ot, 0, other, &o)) return "?thread";
    cset mine = aff(me), his = aff(ot);
    for (size_t k = 0; k < ops.size(); k++) {
        int c = ops[k].cpu; bool may = ok.count(c); std::string w = pbt::fmt("step %zu, kind %d, CPU %d (%s)", k, ops[k].kind, c, may ? "usable" : "not usable");
        switch (ops[k].kind) {
            case 0: sys_cpu_set_my_thread_affinity(c); if (may) mine = cset{c}; break;
            case 1: sys_cpu_set_thread_affinity(ot, c); if (may) his = cset{c}; break;
            case 2: { int r = sys_cpu_set_process_affinity(c); if (may ? r != 0 : r >= 0) return pbt::fmt("%s: sys_cpu_set_process_affinity returned %d", w.c_str(), r);
                      if (!may && r != -EINVAL) return pbt::fmt("%s: sys_cpu_set_process_affinity returned %d, not -EINVAL", w.c_str(), r);
                      if (may) { mine = cset{c}; cset h = aff(ot); if (h == mine) his = h; } break; }
            case 3: sys_cpu_set_thread_affinity(me, c); if (may) mine = cset{c}; break;
            default: o.cpu = c; sem_post(&o.go); while (sem_wait(&o.done)) {} if (may) his = cset{c};
        }
        cset a = aff(me), b = aff(ot);
        if (a != mine) return w + ": the calling thread is bound to " + show(a) + ", expected " + show(mine);
        if (b != his) return w + ": the other thread is bound to " + show(b) + ", expected " + show(his);
        if (mine.size() == 1 && sched_getcpu() != *mine.begin()) return w + ": the calling thread runs elsewhere";
    }
    pthread_t n; cset na; if (pthread_create(&n, 0, nop, &na)) return "?thread"; pthread_join(n, 0);
    if (na != mine) return "a new thread is bound to " + show(na) + ", its creator to " + show(mine);
    o.stop = true; sem_post(&o.go); pthread_join(ot, 0);
    return "";
}

TARGETF(bind, 1, "at least two bindings, one to a CPU that may be used", pbt::NONDET) {
    static cset ok = usable(); if (ok.empty()) pbt::harness_error("no CPU may be bound to%s", "");
    std::vector<int> v(ok.begin(), ok.end()); std::vector<Op> ops; size_t n = 1 + g.size(6); int good = 0;
    for (size_t i = 0; i < n; i++) {
        Op o; o.kind = (int)g.range(0, 4);
        switch (g.weighted({6, 1, 1, 1})) {
            case 0: o.cpu = v[g.range(0, v.size() - 1)]; break;
            case 1: o.cpu = (int)g.range(0, CPU_SETSIZE - 1); break;
            case 2: o.cpu = CPU_SETSIZE + (int)g.range(0, 4000); break;
            default: o.cpu = -(int)g.range(1, 3000);
        }
        good += ok.count(o.cpu); ops.push_back(o); TR("%d:%d ", o.kind, o.cpu);
    }
    int p[2]; if (pipe(p)) pbt::harness_error("pipe: %d", errno); pid_t k = fork(); if (k < 0) pbt::harness_error("fork: %d", errno);
    if (!k) { close(p[0]); std::string r = history(ops, ok); if (r.empty()) r = "="; if (write(p[1], r.data(), r.size()) < 0) {} _exit(0); }
    close(p[1]); std::string r; char b[512]; ssize_t m; while ((m = read(p[0], b, sizeof b)) > 0) r.append(b, (size_t)m); close(p[0]); int st; waitpid(k, &st, 0);
    if (!r.empty() && r[0] == '?') { c.discard = true; return; }
    CHECK(st == 0 && !r.empty(), "the process that binds ended with status %x", st);
    CHECK(r == "=", "%s", r.c_str());
    c.nontrivial(n > 1 && good); c.label(good ? "some usable" : "none usable");
}

TARGET(count, 0.02, "every case") {
    int n = sys_cpu_getavail(); (void)g.u(8);
    // the time stamp counter: what the processor says, whole, and never going back
    { uint64_t a = __builtin_ia32_rdtsc(), b = sys_cpu_timestamp(); sys_cpu_pause(); uint64_t d = __builtin_ia32_rdtsc(); CHECK(a <= b + (1ull << 32) && b <= d + (1ull << 32), "time stamp %llx, read between %llx and %llx", (unsigned long long)b, (unsigned long long)a, (unsigned long long)d); }
    CHECK(n >= 1, "%d CPUs", n); CHECK(n == get_nprocs(), "%d CPUs, the system says %d", n, get_nprocs());
    c.nontrivial(true);
}
