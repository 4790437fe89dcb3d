#pragma once
#include "sim.h"
#include <pthread.h>
#include <csetjmp>
namespace sim {
enum { MAXT=96 };
enum TState { T_RUN, T_MUTEX, T_RWLOCK, T_JOIN, T_COND, T_SLEEP, T_ONCE, T_DONE };
struct Thr {
  int id; volatile int baton; TState st; const void* wait; u64 wake; bool timed, woken;
  u64 steps; u64 next_stop; u64 next_pre; bool pre_valid;
  u64 npre, nsync; int harness; bool detached, joined; pthread_t real; void*(*fn)(void*); void* arg; void* ret;
  int prio; u32 vc[MAXT]; u64 laststeps_at_create;
  const void* pcs[256]; int depth; size_t repl;
};
extern __thread Thr* self_t;
extern bool g_active;          // a run is in progress
extern bool g_race;            // race detector on
extern int  g_nlive;           // live simulated threads
extern u64  g_steps;
extern Thr  g_thr[MAXT]; extern int g_nthr;
extern bool g_shared_bias;     // ask bias_hook at shared accesses
void slow_stop(Thr* t);
void sync_stall(Thr* t);
void maybe_preempt_shared(Thr* t);
static inline void step(Thr* t){ ++g_steps; if(__builtin_expect(++t->steps>=t->next_stop,0)) slow_stop(t); }
static inline Thr* prog(){ Thr* t=self_t; return (t && g_active && !t->harness)?t:nullptr; }
static inline Thr* simthr(){ Thr* t=self_t; return (t && g_active)?t:nullptr; }
struct Harness { Thr* t; Harness(){ t=self_t; if(t) t->harness++; } ~Harness(){ if(t) t->harness--; } };
void op_point(u64 ns);         // an interposed call happened: time passes, may preempt
u64 keyed(Kind k,u64 idx,u64 seedval); // seed mode: records and returns seedval; replay: recorded or 0
u64 prng(Kind k,u64 idx);      // raw seed-mode bits
bool replaying();
void acquire_sync(const void* a); void release_sync(const void* a); void acq_rel_hb(Thr* from,Thr* to);
void sync_forget(const void* a);
void fault_fired(Op op,int code);
bool hard_fault_allowed();
void fs_begin();
void alloc_begin_run();
void race_reset_range(const void* p,size_t n);
// shared result block
struct Choice { u32 kind; u32 pad; u64 idx, val; };
struct Shared {
  volatile int verdict; char cls[128]; char msg[16384]; u64 hash; u64 steps, simns, switches, preempts;
  u64 faults[OP_OPS]; u64 shorts, jumps, truncs, oversleeps, trylocks, stalls, spurious; int nprobes; struct P{ char name[56]; u64 n; } probes[96];
  int nontriv; char sample[2048]; u64 nchoices; int nthreads; u64 notelen; char notes[1<<17];
  u64 edges; u64 ioops; u64 cov[4096]; // 256 Kbit edge bitmap
  Choice choices[1<<20];
};
extern Shared* S;
std::string backtrace_text(int skip);
void machine_violation(const char* cls,const std::string& msg);
}
