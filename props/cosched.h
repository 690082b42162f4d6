// Deterministic scheduler: "threads" are coroutines of one OS thread; instrumented code (compiled with
// -fsanitize-coverage=edge,trace-pc,trace-loads,trace-stores) reaches a switch point at every basic block and memory
// access, and the choice sequence decides when to switch and to whom. Sequentially consistent interleavings only.
#pragma once
#include "pbt.h"
#include <sys/mman.h>
extern "C" void sched_switch(void** save, void* to);
namespace sched {
struct Co { void* sp; char* stk; std::function<void()> fn; bool done, blocked; const void* on; };
extern std::vector<Co> co; extern int cur; extern long now; // now: steps executed so far
void yield();                 // a switch point
void spin();                  // the current one can't progress: let another run
bool active();
// run all until every one is done; deadlock or no progress within `limit` steps fails the case
void run(pbt::Src& g, std::vector<std::function<void()>> fns, long limit);
extern int eintr_num;         // out of 256: probability that a blocking wait is interrupted
extern uint64_t switches, forced;
int spawn(std::function<void()> fn); // a new thread; its number
void join(int t);
void wait_on(const void* on); void wake_all(const void* on); // harness-level waiting
}
