#include "cosched.h"
#include <errno.h>
#include <semaphore.h>
#include <pthread.h>
asm(".text\n.globl sched_switch\n.type sched_switch,@function\nsched_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n.size sched_switch,.-sched_switch\n");
namespace sched {
std::vector<Co> co; int cur = -1; long now = 0, cap = 0; int eintr_num = 0; uint64_t switches, forced;
static long left = 0; static void* mainsp; static pbt::Src* G; static unsigned style; static std::vector<char*> pool; static const size_t SS = 256 << 10;
bool active() { return cur >= 0; }
static void to(int next) {
    int me = cur; cur = next; switches++; void** save = me < 0 ? &mainsp : &co[(size_t)me].sp; sched_switch(save, next < 0 ? mainsp : co[(size_t)next].sp);
}
static long quantum() {
    switch (style) { case 0: { uint64_t q = G->range(0, 255); return q ? (long)q * 4 : 2000; } case 1: { uint64_t q = G->range(0, 24); return q ? (long)q : 200; }
    default: switch (G->weighted({2, 3, 3})) { case 0: return 1500; case 1: return 1 + (long)G->range(0, 12); default: return 1 + (long)G->range(0, 120); } }
}
static void pick() { // choose the next runnable one and its quantum
    std::vector<int> r; size_t n = co.size(); for (size_t k = 1; k <= n; k++) { size_t i = ((size_t)(cur < 0 ? (int)n - 1 : cur) + k) % n; if (!co[i].done && !co[i].blocked) r.push_back((int)i); }
    if (r.empty()) { bool all = true; for (auto& x : co) all = all && x.done; if (all) { to(-1); return; } std::string s; for (size_t i = 0; i < n; i++) if (!co[i].done) s += pbt::fmt(" %zu", i); FAIL("deadlock: threads%s wait forever", s.c_str()); }
    int nx = r.size() == 1 ? r[0] : r[G->range(0, r.size() - 1)]; left = quantum(); if (nx != cur) to(nx);
}
void yield() { if (cur < 0) return; if (++now > cap) FAIL("no progress: the threads are still running after %ld steps", now); if (--left > 0) return; forced++; pick(); }
void spin() { if (cur < 0) return; left = 0; yield(); }
static void wake(const void* on, bool one);
static void entry() { co[(size_t)cur].fn(); co[(size_t)cur].done = true; wake(&co[(size_t)cur], false); pick(); __builtin_trap(); }
int spawn(std::function<void()> fn) {
    size_t i = co.size(); if (i >= 256) pbt::harness_error("too many coroutines");
    if (pool.size() <= i) { char* m = (char*)mmap(0, SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) pbt::harness_error("mmap"); mprotect(m, 4096, PROT_NONE); pool.push_back(m); }
    Co c; c.stk = pool[i]; c.fn = std::move(fn); c.done = c.blocked = false; c.on = 0; uintptr_t* s = (uintptr_t*)(c.stk + SS - 64); *--s = 0; *--s = (uintptr_t)entry; for (int k = 0; k < 6; k++) *--s = 0; c.sp = s; co.push_back(std::move(c)); return (int)i;
}
void run(pbt::Src& g, std::vector<std::function<void()>> fns, long limit) {
    extern void sched_forget(); sched_forget(); G = &g; now = 0; cap = limit; switches = forced = 0; style = (unsigned)g.range(0, 2); co.clear(); cur = -1;
    co.reserve(256); for (auto& f : fns) spawn(f);
    pick(); cur = -1;
}
static void block(const void* on) { co[(size_t)cur].blocked = true; co[(size_t)cur].on = on; pick(); }
static void wake(const void* on, bool one) { // which waiter wakes is a choice
    std::vector<size_t> w; for (size_t i = 0; i < co.size(); i++) if (co[i].blocked && co[i].on == on) w.push_back(i); if (w.empty()) return;
    if (one) { size_t i = w.size() == 1 ? w[0] : w[G->range(0, w.size() - 1)]; co[i].blocked = false; } else for (size_t i : w) co[i].blocked = false;
}
void join(int t) { if (t < 0 || (size_t)t >= co.size()) FAIL("a join of a thread that was never created"); yield(); while (!co[(size_t)t].done) block(&co[(size_t)t]); }
void wait_on(const void* on) { block(on); }
void wake_all(const void* on) { wake(on, false); }
static bool interrupted() { return eintr_num && G->chance((unsigned)eintr_num, 256); }
}
using namespace sched;
// ---- blocking primitives, simulated while a schedule runs
struct Sem { unsigned v; }; struct Mu { int owner; }; 
static std::map<const void*, Sem> sems; static std::map<const void*, Mu> mus; static std::map<const void*, int> conds;
namespace sched { void sched_forget() { mus.clear(); } }
extern "C" {
#define REAL(r, n, a) r __real_##n a
REAL(int, sem_init, (sem_t*, int, unsigned)); REAL(int, sem_destroy, (sem_t*)); REAL(int, sem_wait, (sem_t*)); REAL(int, sem_post, (sem_t*)); REAL(int, sem_trywait, (sem_t*));
REAL(int, pthread_mutex_lock, (pthread_mutex_t*)); REAL(int, pthread_mutex_trylock, (pthread_mutex_t*)); REAL(int, pthread_mutex_unlock, (pthread_mutex_t*)); REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*)); REAL(int, pthread_cond_signal, (pthread_cond_t*)); REAL(int, pthread_cond_broadcast, (pthread_cond_t*)); REAL(int, sched_yield, ());
int __wrap_sem_init(sem_t* s, int sh, unsigned v) { sems[s].v = v; return __real_sem_init(s, sh, v); }
int __wrap_sem_destroy(sem_t* s) { sems.erase(s); return __real_sem_destroy(s); }
int __wrap_sem_wait(sem_t* s) { if (!active()) { if (!sems.count(s)) return __real_sem_wait(s); if (!sems[s].v) FAIL("a wait on an empty semaphore with no other thread"); sems[s].v--; return 0; } yield(); if (interrupted()) { errno = EINTR; return -1; } while (!sems[s].v) { block(s); if (interrupted()) { wake(s, true); errno = EINTR; return -1; } } sems[s].v--; return 0; }
int __wrap_sem_trywait(sem_t* s) { if (!active() && !sems.count(s)) return __real_sem_trywait(s); yield(); if (!sems[s].v) { errno = EAGAIN; return -1; } sems[s].v--; return 0; }
int __wrap_sem_post(sem_t* s) { if (!active() && !sems.count(s)) return __real_sem_post(s); yield(); sems[s].v++; if (active()) { wake(s, true); yield(); } return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!active()) return __real_pthread_mutex_lock(m); yield(); Mu& u = mus.emplace(m, Mu{-1}).first->second; while (u.owner >= 0) { if (u.owner == cur) FAIL("a thread locks a mutex it already holds"); block(m); } u.owner = cur; yield(); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!active()) return __real_pthread_mutex_trylock(m); yield(); Mu& u = mus.emplace(m, Mu{-1}).first->second; if (u.owner >= 0) return EBUSY; u.owner = cur; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!active()) return __real_pthread_mutex_unlock(m); yield(); Mu& u = mus.emplace(m, Mu{-1}).first->second; if (u.owner != cur) FAIL("a thread unlocks a mutex it does not hold"); u.owner = -1; wake(m, false); yield(); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!active()) return __real_pthread_cond_wait(c, m); yield(); Mu& u = mus.emplace(m, Mu{-1}).first->second; if (u.owner != cur) FAIL("pthread_cond_wait without holding the mutex"); u.owner = -1; wake(m, false); if (!interrupted()) block(c); return __wrap_pthread_mutex_lock(m); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { if (!active()) return __real_pthread_cond_signal(c); yield(); wake(c, true); yield(); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { if (!active()) return __real_pthread_cond_broadcast(c); yield(); wake(c, false); yield(); return 0; }
int __wrap_sched_yield() { if (!active()) return __real_sched_yield(); spin(); return 0; }
void __sanitizer_cov_trace_pc() { yield(); }
void __sanitizer_cov_load1(uint8_t*) { yield(); } void __sanitizer_cov_load2(uint16_t*) { yield(); } void __sanitizer_cov_load4(uint32_t*) { yield(); } void __sanitizer_cov_load8(uint64_t*) { yield(); } void __sanitizer_cov_load16(void*) { yield(); }
void __sanitizer_cov_store1(uint8_t*) { yield(); } void __sanitizer_cov_store2(uint16_t*) { yield(); } void __sanitizer_cov_store4(uint32_t*) { yield(); } void __sanitizer_cov_store8(uint64_t*) { yield(); } void __sanitizer_cov_store16(void*) { yield(); }
}
