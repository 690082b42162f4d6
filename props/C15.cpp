//@ shim: w_shim.c
//@ quick: 22
//@ variant: plain 2
//@ src: src/posix/job.c src/posix/work.c
//@ aux: cosched.cpp
//@ cflags: -fsanitize-coverage=edge,trace-pc,trace-loads,trace-stores -O1
//@ wrap: sem_init sem_destroy sem_wait sem_trywait sem_post pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_wait pthread_cond_signal pthread_cond_broadcast sched_yield pthread_create pthread_join pthread_detach pthread_self pthread_equal
//@ variant: tsan 1
//@ src: src/posix/job.c src/posix/work.c src/posix/linux_cpu.c src/error.c
// C15: worker pools: generated deterministic schedules (plain build), real threads under TSan.
#include "pbt.h"
#include "w_shim.h"
#include <errno.h>
#include <signal.h>
#include <sched.h>
#include <atomic>
struct Job { int id, ret, sub, nest; int want, got; int runs; int by; long seq; long ss, se, rs, re; std::vector<int> kids; };
#ifdef PBT_VARIANT_plain
#include "cosched.h"
static int failat = -1, created = 0; static int myaff(int) { return 0; }
extern "C" {
int sys_cpu_getavail(void) { return 3; }
void sys_cpu_set_my_thread_affinity(int c) { myaff(c); sched::yield(); }
void sys_cpu_set_thread_affinity(pthread_t, int) {}
int sys_cpu_set_process_affinity(int) { return 0; }
void error(int doex, int, const char*, ...) { if (doex) FAIL("the library ended the process"); }
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); int __real_pthread_join(pthread_t, void**); pthread_t __real_pthread_self(); int __real_pthread_detach(pthread_t); int __real_pthread_equal(pthread_t, pthread_t);
static void* rets[300]; static char joined[300];
int __wrap_pthread_create(pthread_t* id, const pthread_attr_t*, void* (*f)(void*), void* a) { if (created == failat) return EAGAIN; created++; sched::yield(); size_t k = sched::co.size(); joined[k] = 0; *id = (pthread_t)(1000 + k); sched::spawn([=] { rets[k] = f(a); }); sched::yield(); return 0; }
int __wrap_pthread_join(pthread_t t, void** r) { long k = (long)t - 1000; if (k < 0 || k >= (long)sched::co.size()) FAIL("pthread_join of a thread that was never created"); if (joined[k]++) FAIL("a thread is joined twice"); sched::join((int)k); if (r) *r = rets[k]; return 0; }
int __wrap_pthread_detach(pthread_t t) { long k = (long)t - 1000; if (k >= 0 && k < 300) joined[k] = 1; return 0; }
pthread_t __wrap_pthread_self() { return (pthread_t)(1000 + sched::cur); }
int __wrap_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
}
struct World { std::vector<Job> jobs; std::vector<std::vector<int>> at; void* m = 0; int nth = 0; long done = 0; bool stopped = false; int kind = 0; };
static World* W; static int ctxcookie;
static void sub(int id) { Job& j = W->jobs[(size_t)id]; j.ss = sched::now; j.got = w_submit(W->m, j.want, &j); j.se = sched::now; GTR("[%ld] submitted job %d for %d -> %d", sched::now, id, j.want, j.got); }
static int run1(void* ctx, void* p, int nr) {
    Job* j = (Job*)p; CHECK(ctx == &ctxcookie, "a job was run with another context"); CHECK(j >= &W->jobs[0] && j <= &W->jobs.back(), "a thread was given a job nobody submitted (%p)", p); CHECK(!W->stopped, "job %d ran after the wait for all jobs returned", j->id);
    CHECK(nr >= 0 && nr < W->nth, "a job ran on thread number %d of %d", nr, W->nth); CHECK(++j->runs == 1, "job %d ran twice", j->id); j->by = sched::cur; j->seq = nr; j->rs = sched::now; GTR("[%ld] job %d on thread %d", sched::now, j->id, nr);
    sched::yield(); for (int k : j->kids) sub(k); sched::yield(); j->re = sched::now; W->done++; sched::wake_all(W); return j->ret;
}
TARGET(schedules, 1, "a job or work manager with 1-40 threads, jobs submitted by 1-3 threads (and by running jobs) under a generated deterministic schedule with interrupted waits; each job run once with its context, on the chosen or reported thread, in submission order per thread, the wait returning only after all jobs with the exact failure count, no thread left; non-trivial: >=2 forced switches and >=2 jobs") {
    World w; W = &w; w.kind = (int)g.range(0, 1); int n = (int)g.range(0, 4); if (g.chance(1, 60)) n = (int)g.range(5, 40); bool deflt = g.chance(1, 16); unsigned nsub = 1 + (unsigned)g.range(0, 2), nj = (unsigned)g.range(0, 24), rounds = 1 + (unsigned)g.weighted({4, 1}); bool big = w.kind == 0 && g.chance(1, 200); if (big) nj = 1020 + (unsigned)g.range(0, 60);
    n = n ? n : 1; if (deflt) n = -(int)g.range(0, 1); failat = g.chance(1, 16) ? (int)g.range(0, 3) : -1; sched::eintr_num = g.flip() ? g.pick<int>({8, 40, 128}) : 0;
    w.jobs.resize(nj + 1); int fails[2] = {0, 0}; std::vector<std::vector<std::vector<int>>> plan(rounds, std::vector<std::vector<int>>(nsub)); std::vector<unsigned> total(rounds);
    for (unsigned i = 0; i < nj; i++) { Job& j = w.jobs[i]; j = Job(); j.id = (int)i; j.ret = g.chance(1, 3) ? -(int)g.range(1, 3) : (int)g.range(0, 3); j.want = g.flip() ? -1 : (int)g.irange(-1, n > 4 ? n + 1 : 6); j.got = -2; j.by = -1; unsigned r = i * rounds / nj; total[r]++; if (j.ret < 0) fails[r]++; j.sub = (int)r; unsigned first = (r * nj + rounds - 1) / rounds; if (!big && i > first && g.chance(1, 6)) { w.jobs[first + g.range(0, i - first - 1)].kids.push_back((int)i); } else plan[r][g.range(0, nsub - 1)].push_back((int)i); }
    TR("%s manager, %d threads, %u jobs, %u submitters, %u rounds%s, thread creation fails at %d", w.kind ? "work" : "job", n, nj, nsub, rounds, sched::eintr_num ? ", signals" : "", failat);
    bool failed = false; std::vector<int> tids;
    sched::run(g, {[&] { for (unsigned r = 0; r < rounds; r++) {
        created = 0; int rr = 0; size_t before = sched::co.size(); w.stopped = false; w.done = 0; w.nth = n > 0 ? n : 3; int expect = w.nth; w.m = w_new(w.kind, n, run1, &ctxcookie, &rr);
        if (failat >= 0 && failat < expect) { CHECK(rr < 0, "creating the manager gave %d although a thread could not be created", rr); for (size_t k = before; k < sched::co.size(); k++) CHECK(sched::co[k].done && joined[k], "a failed creation left thread %zu running", k - before); failed = true; w_del(w.m, 0); return; }
        CHECK(rr == expect && (int)(sched::co.size() - before) == expect, "creating a manager of %d threads returned %d and made %zu threads", n, rr, sched::co.size() - before);
        std::vector<int> ids; for (unsigned s = 0; s < nsub; s++) ids.push_back(sched::spawn([&, r, s] { for (int id : plan[r][s]) sub(id); }));
        for (int t : ids) sched::join(t);
        bool nested = false; for (auto& j : w.jobs) nested |= !j.kids.empty(); if (nested) while (w.done < (long)total[r]) sched::wait_on(&w);
        int e = w_wait(w.m); w.stopped = true; TR("[%ld] wait: %d", sched::now, e);
        for (unsigned i = 0; i < nj; i++) if (w.jobs[i].sub == (int)r) CHECK(w.jobs[i].runs == 1, "the wait returned before job %u had run", i);
        CHECK(w.done == (long)total[r], "the wait returned after %ld of %u jobs had finished", w.done, total[r]); CHECK(e == fails[r], "the wait reported %d failures, %d jobs failed", e, fails[r]);
        for (size_t k = before; k < before + (size_t)expect; k++) CHECK(sched::co[k].done && joined[k], "thread %zu was left running", k - before);
        w_del(w.m, 1); } }}, big ? 6000000 : 600000);
    if (failed) { for (auto& j : w.jobs) CHECK(!j.runs, "a job ran"); c.label("thread creation failed"); c.nontrivial(true); return; }
    for (unsigned i = 0; i < nj; i++) { Job& a = w.jobs[i];
        if (w.kind) { CHECK(a.got == a.seq, "job %d was said to go to thread %d but ran on %ld", a.id, a.got, a.seq); if (a.want >= 0 && a.want < w.nth) CHECK(a.seq == a.want, "job %d was sent to thread %d but ran on %ld", a.id, a.want, a.seq); }
        if (!big) for (unsigned k = 0; k < nj; k++) { Job& b = w.jobs[k]; if (a.sub == b.sub && a.seq == b.seq) { CHECK(a.by == b.by, "thread number %ld is two threads", a.seq); CHECK(a.se >= b.ss || a.rs < b.rs, "job %d was submitted before job %d to the same thread but ran after it", a.id, b.id); if (&a != &b) CHECK(a.re <= b.rs || b.re <= a.rs, "one thread runs jobs %d and %d at the same time", a.id, b.id); } } }
    if (w.kind && nj && rounds == 1) { std::vector<int> per((size_t)w.nth); unsigned nb = 0; for (auto& j : w.jobs) if (&j != &w.jobs.back() && (j.want < 0 || j.want >= w.nth)) { per[(size_t)j.seq]++; nb++; } auto mm = std::minmax_element(per.begin(), per.end()); CHECK(*mm.second - *mm.first <= 1, "%u jobs left to the manager were spread %d..%d per thread", nb, *mm.first, *mm.second); }
    c.nontrivial(sched::forced >= 2 && nj >= 2); c.label(w.kind ? "work" : "job"); if (big) c.label("more jobs than the queue holds"); if (sched::eintr_num) c.label("signals"); if (rounds > 1) c.label("two pools");
}
#else
struct World { std::vector<Job> jobs; std::atomic<long> done{0}; std::atomic<int> stopped{0}; int nth; void* m; std::vector<std::vector<int>> plan; } *W; static int cookie;
struct ThrRec { std::vector<int> ran; char pad[64]; }; static ThrRec recs[48];
static std::atomic<int> bad{0};
static int run1(void* ctx, void* p, int nr) { Job* j = (Job*)p; if (ctx != &cookie || nr < 0 || nr >= W->nth || j < &W->jobs[0] || j > &W->jobs.back() || W->stopped) { bad = 1; return 0; } j->runs++; j->seq = nr; recs[nr].ran.push_back(j->id); for (int i = 0; i < j->nest; i++) sched_yield(); W->done++; return j->ret; }
static void* subm(void* a) { for (int id : W->plan[(size_t)(uintptr_t)a]) { Job& j = W->jobs[(size_t)id]; j.got = w_submit(W->m, j.want, &j); for (int i = 0; i < j.sub; i++) sched_yield(); } return 0; }
static void onsig(int) {}
TARGETF(threads, 1, "a real pool of 1-40 threads under ThreadSanitizer with 1-3 submitting threads and signals; same oracle; non-trivial: >=20 jobs", pbt::NONDET) {
    World w; W = &w; int kind = (int)g.range(0, 1), n = 1 + (int)(g.chance(1, 10) ? g.range(8, 40) : g.range(0, 7)); unsigned nsub = 1 + (unsigned)g.range(0, 2), nj = 1 + (unsigned)g.range(0, g.chance(1, 8) ? 3000 : 200); bool sig = g.flip(); w.jobs.resize(nj); w.plan.resize(nsub); int fails = 0; for (auto& r : recs) r.ran.clear(); bad = 0;
    for (unsigned i = 0; i < nj; i++) { Job& j = w.jobs[i]; j = Job(); j.id = (int)i; uint64_t b = g.raw(2); j.ret = b % 3 == 0 ? -1 : (int)(b % 3); if (j.ret < 0) fails++; j.want = b & 16 ? -1 : (int)(b >> 5) % (n > 8 ? n + 1 : 9) - 1; j.nest = (b >> 10) % 4 == 0; j.sub = (b >> 12) % 8 == 0; w.plan[(b >> 8) % nsub].push_back((int)i); }
    TR("%s manager, %d threads, %u jobs, %u submitters%s", kind ? "work" : "job", n, nj, nsub, sig ? ", signals" : "");
    if (sig) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sigaction(SIGUSR1, &sa, 0); }
    int rr = 0; w.nth = n; w.m = w_new(kind, n, run1, &cookie, &rr); CHECK(rr == n, "init returned %d for %d threads", rr, n);
    std::vector<pthread_t> id(nsub); for (unsigned s = 0; s < nsub; s++) if (pthread_create(&id[s], 0, subm, (void*)(uintptr_t)s)) pbt::harness_error("pthread_create");
    if (sig) for (int k = 0; k < 100; k++) { kill(getpid(), SIGUSR1); if (k % 8 == 0) sched_yield(); }
    for (auto t : id) pthread_join(t, 0);
    int e = w_wait(w.m); w.stopped = 1; CHECK(!bad, "a job ran with a wrong context, thread number or job, or after the wait"); CHECK(w.done == (long)nj, "the wait returned after %ld of %u jobs", (long)w.done, nj); CHECK(e == fails, "the wait reported %d failures, %d jobs failed", e, fails);
    for (auto& j : w.jobs) { CHECK(j.runs == 1, "job %d ran %d times", j.id, j.runs); if (kind) { CHECK(j.got == j.seq, "job %d was said to go to %d but ran on %ld", j.id, j.got, j.seq); if (j.want >= 0 && j.want < n) CHECK(j.seq == j.want, "job %d sent to %d ran on %ld", j.id, j.want, j.seq); } }
    if (kind) { std::vector<int> who(nj), pos(nj); for (unsigned s = 0; s < nsub; s++) for (size_t i = 0; i < w.plan[s].size(); i++) { who[(size_t)w.plan[s][i]] = (int)s; pos[(size_t)w.plan[s][i]] = (int)i; } for (int t = 0; t < n; t++) { std::vector<int> last(nsub, -1); for (int j : recs[t].ran) { int& l = last[(size_t)who[(size_t)j]]; CHECK(l < pos[(size_t)j], "thread %d ran a submitter's jobs out of order", t); l = pos[(size_t)j]; } } }
    w_del(w.m, 1); c.nontrivial(nj >= 20); c.label(kind ? "work" : "job");
}
#endif
