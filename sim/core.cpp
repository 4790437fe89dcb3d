// Choices, scheduler, threads, clocks, process end.
#include "internal.h"
#include <dlfcn.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <sys/time.h>
#include <csignal>
#include <execinfo.h>
#include <unordered_map>
#include <exception>
#include <stdexcept>
#include <algorithm>
#include <cxxabi.h>

namespace sim {
const char* kind_name[K_KINDS]={"WL","SCHED","SWITCH","FAULT","CLOCK","RAND","MEM"};
__thread Thr* self_t=nullptr;
bool g_active=false,g_race=false,g_shared_bias=false; int g_nlive=0; u64 g_steps=0;
Thr g_thr[MAXT]; int g_nthr=0;
Shared* S=nullptr;
SchedCfg sched; ClockCfg clockcfg; RandCfg randcfg;
u64 g_seed=0; bool g_replay=false;
std::unordered_map<u64,u64>* g_tape=nullptr;            // (kind<<56 ^ idx) -> value
std::vector<std::vector<std::pair<u64,u64>>>* g_sched_tape=nullptr; // per thread: (local step, value)
std::unordered_map<u64,int>* g_shared_tape=nullptr;     // threads with preemptions at shared accesses
static const u64 SHBIT=1ull<<39, CRBIT=1ull<<38;        // keys of preemptions at shared accesses / after thread creation
static u64 g_hash=1469598103934665603ull;
static u64 kcount[K_KINDS];
static u64 g_extra_ns=0; static i64 g_jump=0;
static int g_cur=0;
static bool g_dead=false;               // the simulated process ended
static Outcome g_out;
static int g_guard_tid=-1; static jmp_buf g_guard;
static int g_created=0; static u64 g_switchno=0; static bool g_judge=true;
static int g_stall=-1; static u64 g_pct_next[16]; static int g_pct_n=0, g_lowprio=0;

static u64 mix(u64 z){ z+=0x9e3779b97f4a7c15ull; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
u64 Rng::next(){ s+=0x9e3779b97f4a7c15ull; return mix(s); }
u64 prng(Kind k,u64 idx){ return mix(mix(g_seed*0x9e3779b97f4a7c15ull+(u64)k*0xd1342543de82ef95ull)^mix(idx*0x2545f4914f6cdd1dull+k)); }
bool replaying(){ return g_replay; }
static inline u64 tkey(Kind k,u64 idx){ return ((u64)k<<56)^idx; }
static void record(Kind k,u64 idx,u64 v){
  if(!v||!S) return;
  if(S->nchoices>=sizeof(S->choices)/sizeof(Choice)) harness_error("too many choices");
  S->choices[S->nchoices++]=Choice{(u32)k,0,idx,v};
}
u64 keyed(Kind k,u64 idx,u64 seedval){
  u64 v;
  if(g_replay){ auto it=g_tape->find(tkey(k,idx)); v=it==g_tape->end()?0:it->second; }
  else v=seedval;
  record(k,idx,v); return v;
}
u64 draw(Kind k,u64 n){
  Harness h; if(n==0) harness_error("draw(0)");
  u64 idx=kcount[k]++; u64 v=keyed(k,idx,prng(k,idx)%n); return v%n;
}
u32 content_seed(){ return (u32)draw(K_WL,1u<<31); }
void hash_mix(u64 v){ g_hash^=v; g_hash*=1099511628211ull; g_hash^=g_hash>>29; }
u64 bytes_hash(const void* p,size_t n){ const u8* b=(const u8*)p; u64 h=1469598103934665603ull; for(size_t i=0;i<n;i++){h^=b[i];h*=1099511628211ull;} return mix(h^n); }
void hash_bytes(const void* p,size_t n){ hash_mix(bytes_hash(p,n)); }

// ------------------------------------------------------------------ verdicts
static void seal(int verdict){
  S->hash=g_hash; S->steps=g_steps; S->simns=now_ns(); S->nthreads=g_created;
  S->ioops=fs::ops(); S->verdict=verdict;
}
static void die(int verdict){ g_active=false; seal(verdict); syscall(SYS_exit_group,0); for(;;); }
std::string backtrace_text(int skip){
  Harness h; void* b[40]; bool a=g_active; g_active=false; int n=backtrace(b,40); g_active=a;
  std::string s; char t[40]; for(int i=skip;i<n;i++){ snprintf(t,40," %p",b[i]); s+=t; } return s;
}
void violation(const char* cls,const char* fmt,...){
  Harness h;
  if(S->verdict==0){
    snprintf(S->cls,sizeof S->cls,"%s",cls);
    va_list a; va_start(a,fmt); vsnprintf(S->msg,sizeof S->msg,fmt,a); va_end(a);
    hash_bytes(cls,strlen(cls));
    die(2);
  }
  syscall(SYS_exit_group,0); for(;;);
}
void machine_violation(const char* cls,const std::string& msg){ violation(cls,"%s",msg.c_str()); }
void harness_error(const char* fmt,...){
  Harness h; if(S){ va_list a; va_start(a,fmt); vsnprintf(S->msg,sizeof S->msg,fmt,a); va_end(a); die(3); }
  fprintf(stderr,"harness error: %s\n",fmt); _exit(3);
}
void finish(){ Harness h; die(1); }
void note(const char* fmt,...){
  Harness h; char b[2048]; va_list a; va_start(a,fmt); int n=vsnprintf(b,sizeof b,fmt,a); va_end(a); if(n>2047)n=2047;
  if(S->notelen+n+2<sizeof S->notes){ memcpy(S->notes+S->notelen,b,n); S->notelen+=n; S->notes[S->notelen++]='\n'; S->notes[S->notelen]=0; }
}
void sample(const char* fmt,...){ Harness h; va_list a; va_start(a,fmt); size_t l=strlen(S->sample);
  vsnprintf(S->sample+l,sizeof S->sample-l,fmt,a); va_end(a); }
void probe(const char* name,u64 n){
  Harness h; for(int i=0;i<S->nprobes;i++) if(!strcmp(S->probes[i].name,name)){ S->probes[i].n+=n; return; }
  if(S->nprobes<96){ snprintf(S->probes[S->nprobes].name,56,"%s",name); S->probes[S->nprobes++].n=n; }
}
void nontrivial(){ S->nontriv=1; }
void fault_fired(Op op,int code){ S->faults[op]++; hash_mix(0xF000+op*256+code); }
extern "C" { extern char __executable_start,etext; }
bool alloc_fails(size_t n,const void* ra){ if(faults.alloc_own&&!((const char*)ra>=&__executable_start&&(const char*)ra<&etext)) return false; Thr* t=self_t; if(!t||t->harness||!faults.on||!faults.alloc_at||n<faults.alloc_min) return false; u64 k=++faults.alloc_seen; if(k<faults.alloc_at||k-faults.alloc_at>=faults.alloc_len) return false; fault_fired(OP_ALLOC,(int)(n&0xff)); errno=ENOMEM; return true; }
u64 faults_fired(){ u64 n=0; for(int i=0;i<OP_OPS;i++) n+=S->faults[i]; return n; }
u64 faults_fired(Op op){ return S->faults[op]; }
u64 steps(){ return g_steps; }
u64 my_steps(){ return self_t?self_t->steps:0; }
int self_tid(){ return self_t?self_t->id:-1; }
int threads_created(){ return g_created; }
int live_threads(){ int n=0; for(int i=0;i<g_nthr;i++) if(&g_thr[i]!=self_t && g_thr[i].st!=T_DONE) n++; return n; }
u64 now_ns(){ return g_steps*sched.ns_per_step+g_extra_ns; }
bool program_alive(){ return !g_dead; }
void set_race_detection(bool on){ g_race=on; }

// ------------------------------------------------------------------ batons
static void fwait(volatile int* w){ while(!__atomic_load_n(w,__ATOMIC_ACQUIRE)) syscall(SYS_futex,w,FUTEX_WAIT_PRIVATE,0,nullptr,nullptr,0); __atomic_store_n(w,0,__ATOMIC_RELEASE); }
static void fwake(volatile int* w){ __atomic_store_n(w,1,__ATOMIC_RELEASE); syscall(SYS_futex,w,FUTEX_WAKE_PRIVATE,1,nullptr,nullptr,0); }
static void after_switch(Thr* t){ // t holds the baton again
  if(g_dead && t->id==g_guard_tid){ t->st=T_RUN; longjmp(g_guard,1); }
}
static void switch_to(Thr* t,Thr* to){ // t: current
  if(t==to) return;
  S->switches++; g_cur=to->id; hash_mix(((u64)t->id<<32|to->id)*0x9E37+t->steps);
  fwake(&to->baton); fwait(&t->baton); after_switch(t);
}
static void switch_away(Thr* t,Thr* to){ S->switches++; g_cur=to->id; hash_mix(((u64)t->id<<32|to->id)*0x9E37+t->steps); fwake(&to->baton); }
static bool ready(Thr* x){ return x->st==T_RUN; }
static void wake_due(){
  u64 n=now_ns();
  for(int i=0;i<g_nthr;i++){ Thr*x=&g_thr[i];
    if(x->st==T_SLEEP && x->wake<=n) x->st=T_RUN;
    else if(x->st==T_COND && x->timed && x->wake<=n){ x->st=T_RUN; x->woken=false; } }
}
static u64 gap(Thr* t){ // seed mode: local step of the next preemption
  u64 r=prng(K_SCHED,((u64)t->id<<40)|t->npre++); double u=((r>>11)+1)*(1.0/9007199254740993.0);
  double m=(double)sched.mean_gap; double g=-m*__builtin_log(u); if((r&7)==0) g/=20; return t->steps+1+(u64)g;
}
static const u64 CHECK=16384;
static void arm(Thr* t){
  u64 chk=(t->steps/CHECK+1)*CHECK; t->next_pre=~0ull;
  if(g_replay){ auto& v=(*g_sched_tape)[t->id]; while(t->repl<v.size()&&v[t->repl].first<=t->steps) t->repl++; if(t->repl<v.size()) t->next_pre=v[t->repl].first; }
  else if(sched.preempt && sched.strategy!=3) t->next_pre=gap(t);
  t->next_stop=std::min(chk,t->next_pre);
}
static Thr* choose_seed(Thr* t,bool forced,u64 r){ // seed mode policy: which thread runs now (t may be chosen if ready)
  Thr* c[MAXT]; int n=0;
  for(int i=0;i<g_nthr;i++) if(ready(&g_thr[i])) c[n++]=&g_thr[i];
  if(!n) return nullptr;
  if(sched.strategy==1){
    if(g_pct_n<sched.pct_changes && g_steps>=g_pct_next[g_pct_n]){ g_pct_n++; t->prio=--g_lowprio; }
    Thr* b=c[0]; for(int i=1;i<n;i++) if(c[i]->prio>b->prio) b=c[i];
    if((r>>40)%32==0) b=c[r%n]; return b;
  }
  if(sched.strategy==2 && n>1){ int m=0; for(int i=0;i<n;i++) if(c[i]->id!=g_stall) c[m++]=c[i]; if(m) n=m; }
  (void)forced; return c[r%n];
}
static void budget_check(){
  if(g_steps>sched.step_budget && !g_dead){ std::string bt=backtrace_text(2); violation("hang","no end after %llu steps (budget %llu); last running thread T%d at%s",(unsigned long long)g_steps,(unsigned long long)sched.step_budget,g_cur,bt.c_str()); }
}
static bool tape_full(){ return S->nchoices>sizeof(S->choices)/sizeof(Choice)*9/10; } // no more preemptions then
void slow_stop(Thr* t){
  if(t->harness){ t->next_stop=t->steps+64; return; }
  Harness h; budget_check(); wake_due();
  bool pre=t->steps>=t->next_pre; u64 at=t->steps;
  if(pre && g_nlive>1){
    u64 key=((u64)t->id<<40)|at; Thr* to=nullptr;
    if(g_replay){ auto it=g_tape->find(tkey(K_SCHED,key)); if(it!=g_tape->end()){ u64 v=it->second; if(v>=1&&v<=(u64)g_nthr&&ready(&g_thr[v-1])) to=&g_thr[v-1]; } }
    else if(!tape_full()) to=choose_seed(t,false,prng(K_SCHED,0x5a5a000000000000ull^key));
    if(to && to!=t){ record(K_SCHED,key,to->id+1); S->preempts++; arm(t); h.t->harness--; switch_to(t,to); h.t->harness++; return; }
  }
  arm(t);
}
void maybe_preempt_shared(Thr* t){
  if(!sched.preempt || g_nlive<2 || t->harness) return;
  u64 key=((u64)t->id<<40)|SHBIT|t->steps; u64 r=0; Thr* to=nullptr;
  if(g_replay){ if(g_shared_tape->empty()) return; auto it=g_tape->find(tkey(K_SCHED,key)); if(it==g_tape->end()) return; Harness h; wake_due(); u64 v=it->second; if(v>=1&&v<=(u64)g_nthr&&ready(&g_thr[v-1])) to=&g_thr[v-1]; }
  else { if(tape_full()) return; r=prng(K_SCHED,0xb1a5000000000000ull^key); if((int)(r%1000)>=sched.shared_bias) return; Harness h; wake_due(); to=choose_seed(t,false,r>>10); }
  Harness h;
  if(to && to!=t){ record(K_SCHED,key,to->id+1); S->preempts++; arm(t); h.t->harness--; switch_to(t,to); h.t->harness++; }
}
// blocks the current thread (its state is already set) until it is ready again
static void block(Thr* t){
  for(;;){
    wake_due(); Thr* to=nullptr; u64 idx=g_switchno++;
    Thr* def=nullptr; for(int k=1;k<=g_nthr;k++){ Thr*x=&g_thr[(t->id+k)%g_nthr]; if(ready(x)){ def=x; break; } }
    if(def){
      if(g_replay){ auto it=g_tape->find(tkey(K_SWITCH,idx)); if(it!=g_tape->end()){ u64 v=it->second; if(v>=1&&v<=(u64)g_nthr&&ready(&g_thr[v-1])) to=&g_thr[v-1]; } if(!to) to=def; }
      else to=sched.preempt?choose_seed(t,true,prng(K_SWITCH,idx)):def;
      if(to!=def) record(K_SWITCH,idx,to->id+1);
      switch_to(t,to); // returns at once if to==t
      if(t->st==T_RUN) return;
      continue;
    }
    // nobody ready: jump to the earliest sleeper
    u64 best=~0ull; for(int i=0;i<g_nthr;i++){ Thr*x=&g_thr[i]; if((x->st==T_SLEEP||(x->st==T_COND&&x->timed)) && x->wake<best) best=x->wake; }
    if(best==~0ull){
      std::string s="deadlock:"; static const char* nm[]={"run","mutex","rwlock","join","cond","sleep","once","done"};
      for(int i=0;i<g_nthr;i++) if(g_thr[i].st!=T_DONE){ char b[64]; snprintf(b,64," T%d waits for %s;",i,nm[g_thr[i].st]); s+=b; }
      violation("deadlock","%s",s.c_str());
    }
    u64 n=now_ns(); if(best>n) g_extra_ns+=best-n;
    hash_mix(0x51EE9^best);
    // a step per jump so that endless sleep loops hit the budget
    g_steps+=1000; budget_check();
  }
}
void op_point(u64 ns){
  Thr* t=self_t; if(!t||!g_active) return; g_extra_ns+=ns; g_steps+=1; t->steps+=1;
  if(!t->harness && t->steps>=t->next_stop) slow_stop(t);
}
// a thread that is descheduled for long right before or after a synchronisation
void sync_stall(Thr* t){
  if(!sched.preempt||g_nlive<2||t->harness||(!g_replay&&!sched.stall_permille)) return;
  Harness h; u64 idx=(1ull<<48)|((u64)t->id<<40)|t->nsync++; u64 r=prng(K_CLOCK,idx); static const u64 E[]={300,3000,30000,300000,3000000,30000000};
  u64 v=keyed(K_CLOCK,idx,(int)(r%1000)<sched.stall_permille&&!tape_full()?1+(r>>20)%6:0); if(!v) return;
  S->stalls++; t->st=T_SLEEP; t->wake=now_ns()+E[(v-1)%6]*std::max<u64>(1,sched.ns_per_step); block(t);
}
void random_sched(){
  static const u64 gaps[]={400,60,150,1000,3000,10000,40000,20};
  sched.mean_gap=gaps[wl(8)]; sched.strategy=(int)wl(6); if(sched.strategy>=4) sched.strategy=0;
  sched.shared_bias=wl(3)==1?(int)wl_range(5,200):0; g_shared_bias=sched.shared_bias>0;
  sched.pct_changes=(int)wl(5); static const u64 nsp[]={20,2,200,2000,20000}; sched.ns_per_step=nsp[wl(5)];
  static const int nc[]={4,1,2,3,8,16}; sched.ncpu=nc[wl(6)];
  u64 span=1; static const u64 spans[]={200000,20000,2000000,5000}; span=spans[wl(4)];
  static const int st[]={0,0,0,20,100,300}; sched.stall_permille=st[wl(6)];
  g_stall=(int)wl(6); g_pct_n=0; g_lowprio=0;
  for(int i=0;i<16;i++) g_pct_next[i]=prng(K_SCHED,0x9c70000000000000ull+i)%span; std::sort(g_pct_next,g_pct_next+sched.pct_changes);
}

// ------------------------------------------------------------------ happens-before
static std::unordered_map<const void*,std::vector<u32>>* g_sync;
void release_sync(const void* a){ Thr* t=self_t; if(!t) return; Harness h; auto& v=(*g_sync)[a]; v.resize(MAXT); for(int i=0;i<g_nthr;i++) v[i]=std::max(v[i],t->vc[i]); t->vc[t->id]++; }
void acquire_sync(const void* a){ Thr* t=self_t; if(!t) return; Harness h; auto it=g_sync->find(a); if(it==g_sync->end()) return; for(int i=0;i<g_nthr;i++) t->vc[i]=std::max(t->vc[i],it->second[i]); }
void sync_forget(const void* a){ Harness h; if(g_sync) g_sync->erase(a); }
void acq_rel_hb(Thr* from,Thr* to){ for(int i=0;i<g_nthr;i++) to->vc[i]=std::max(to->vc[i],from->vc[i]); from->vc[from->id]++; }

// ------------------------------------------------------------------ threads
template<class F> static F real_fn(const char* n){ void* p=dlsym(RTLD_NEXT,n); return (F)p; }
#define REAL(name) (__extension__({ static decltype(&::name) f_; if(!f_) f_=sim::real_fn<decltype(&::name)>(#name); f_; }))
static pthread_key_t g_exit_key; static bool g_key_made=false;
static void thread_over(void* p){ // runs in the 2nd round of key destructors, after thread_local destructors
  uintptr_t v=(uintptr_t)p; Thr* t=self_t;
  if(v==1){ pthread_setspecific(g_exit_key,(void*)2); return; }
  if(!t) return;
  t->harness++; t->st=T_DONE; g_nlive--; hash_mix(0xDEAD00+t->id);
  for(int i=0;i<g_nthr;i++) if(g_thr[i].st==T_JOIN && g_thr[i].wait==t) g_thr[i].st=T_RUN;
  self_t=nullptr;
  if(g_dead){ Thr* g=&g_thr[g_guard_tid]; fwake(&g->baton); return; }
  // hand the baton on (block() without coming back)
  for(;;){
    wake_due(); Thr* def=nullptr; for(int k=1;k<=g_nthr;k++){ Thr*x=&g_thr[(t->id+k)%g_nthr]; if(ready(x)){ def=x; break; } }
    u64 idx=g_switchno++;
    if(def){ Thr* to=nullptr;
      if(g_replay){ auto it=g_tape->find(tkey(K_SWITCH,idx)); if(it!=g_tape->end()){ u64 w=it->second; if(w>=1&&w<=(u64)g_nthr&&ready(&g_thr[w-1])) to=&g_thr[w-1]; } if(!to) to=def; }
      else to=sched.preempt?choose_seed(t,true,prng(K_SWITCH,idx)):def;
      if(to!=def) record(K_SWITCH,idx,to->id+1);
      switch_away(t,to); return; }
    u64 best=~0ull; for(int i=0;i<g_nthr;i++){ Thr*x=&g_thr[i]; if((x->st==T_SLEEP||(x->st==T_COND&&x->timed)) && x->wake<best) best=x->wake; }
    if(best==~0ull){ violation("deadlock","every remaining thread waits and the last running thread T%d ended",t->id); }
    u64 n=now_ns(); if(best>n) g_extra_ns+=best-n; g_steps+=1000; budget_check();
  }
}
static void* tramp(void* p){
  Thr* t=(Thr*)p; fwait(&t->baton); self_t=t; pthread_setspecific(g_exit_key,(void*)1);
  t->harness--; t->ret=t->fn(t->arg); return t->ret;
}
Thr* new_thr(void*(*fn)(void*),void* arg){
  if(g_nthr>=MAXT) harness_error("too many simulated threads");
  Thr* t=&g_thr[g_nthr]; memset((void*)t,0,sizeof *t); t->id=g_nthr++; t->fn=fn; t->arg=arg; t->st=T_RUN; t->harness=1;
  t->vc[t->id]=1; t->prio=(int)(prng(K_SCHED,0x9a10000000000000ull+t->id)%1000000); arm(t); return t;
}
static char* g_stack_next=nullptr; const size_t STK=1<<20;
#ifdef SIMT
extern "C" char* simt_stack_area(size_t*);
#endif
static int real_create(Thr* t,size_t stk){
  pthread_attr_t a; pthread_attr_init(&a);
#ifdef SIMT
  size_t n; if(!g_stack_next) g_stack_next=simt_stack_area(&n);
  pthread_attr_setstack(&a,g_stack_next,stk); g_stack_next+=stk+65536;
#else
  pthread_attr_setstacksize(&a,stk);
#endif
  int r=REAL(pthread_create)(&t->real,&a,tramp,t); pthread_attr_destroy(&a); return r;
}
// started by the runner in the child: runs fn as simulated thread 0 on a deterministic stack
void run_main_thread(void*(*fn)(void*)){
  if(!g_key_made){ pthread_key_create(&g_exit_key,thread_over); g_key_made=true; }
  g_sync=new std::unordered_map<const void*,std::vector<u32>>();
  g_nthr=0; g_nlive=1; g_active=true; Thr* t=new_thr(fn,nullptr); t->harness=1;
  if(real_create(t,8u<<20)) { fprintf(stderr,"cannot start\n"); _exit(3); }
  fwake(&t->baton); for(;;) pause();
}
struct Mtx { int owner=-1; int count=0; };
static std::unordered_map<const void*,Mtx>* g_mtx;
static std::unordered_map<const void*,std::pair<int,std::vector<int>>>* g_rw; // writer, readers
static Mtx& mtx(const void* p){ if(!g_mtx) g_mtx=new std::unordered_map<const void*,Mtx>(); return (*g_mtx)[p]; }
static void m_lock(Thr* t,pthread_mutex_t* m){
  op_point(30); Harness h;
  Mtx& x=mtx(m);
  if(x.owner==t->id && (m->__data.__kind&3)==PTHREAD_MUTEX_RECURSIVE){ x.count++; return; }
  while(mtx(m).owner!=-1){ t->st=T_MUTEX; t->wait=m; block(t); }
  Mtx& y=mtx(m); y.owner=t->id; y.count=1; acquire_sync(m); hash_mix(0x10C0+t->id);
}
static void m_unlock(Thr* t,pthread_mutex_t* m,bool point){
  { Harness h; Mtx& x=mtx(m);
    if(x.owner!=t->id) violation("mutex-misuse","thread T%d unlocks a mutex it does not hold (owner T%d)",t->id,x.owner);
    if(--x.count>0) return; x.owner=-1; release_sync(m);
    for(int i=0;i<g_nthr;i++) if(g_thr[i].st==T_MUTEX && g_thr[i].wait==m) g_thr[i].st=T_RUN; }
  if(point) op_point(30);
}

// ------------------------------------------------------------------ end of the simulated process
static void process_end(Outcome::K k,int code){
  Thr* t=self_t; t->harness++; g_out.kind=k; g_out.code=code; g_dead=true; hash_mix(0xE817+code*4+k);
  if(g_guard_tid<0) violation("process-exit","the process ended outside a guarded call (kind %d code %d)%s",k,code,backtrace_text(1).c_str());
  if(t->id==g_guard_tid){ t->harness=0; longjmp(g_guard,1); }
  switch_away(t,&g_thr[g_guard_tid]); for(;;) pause();
}
Outcome guarded(const std::function<void()>& f){
  Thr* t=self_t; g_guard_tid=t->id; g_out=Outcome(); g_dead=false; int hs=t->harness;
  if(setjmp(g_guard)==0){
    t->harness=0;
    try { f(); }
    catch(std::exception& e){ g_out.kind=Outcome::THREW; g_out.what=e.what(); g_dead=true; }
    catch(abi::__forced_unwind&){ throw; }
    catch(...){ g_out.kind=Outcome::THREW; g_out.what="unknown exception"; g_dead=true; }
  }
  t->harness=hs; t->st=T_RUN; g_guard_tid=-1;
  if(g_out.kind==Outcome::RETURNED) g_dead=false;
  return g_out;
}
bool hard_fault_allowed(){ u64 n=0; for(int i=0;i<OP_OPS;i++) n+=S->faults[i]; return (i64)n<faults.budget; }

void begin_run_state(){
  g_hash=1469598103934665603ull; memset(kcount,0,sizeof kcount); g_extra_ns=0; g_jump=0; g_dead=false; g_guard_tid=-1; g_created=0; g_switchno=0;
  sched=SchedCfg(); clockcfg=ClockCfg(); randcfg=RandCfg(); g_steps=0; g_race=false; g_shared_bias=false; g_stall=-1; g_pct_n=0;
}
static bool fail_create(){
  if(!faults.on) return false; u64 idx=0xC0000000ull+g_created; int p=faults.permille[OP_CREAT_THREAD]; if(!p) return false;
  u64 v=keyed(K_FAULT,idx,(int)(prng(K_FAULT,idx)%1000)<p && hard_fault_allowed()?1:0);
  if(v) fault_fired(OP_CREAT_THREAD,EAGAIN); return v;
}
static u64 real_time_ns(){ return (u64)clockcfg.start_real*1000000000ull+now_ns()+(u64)g_jump; }
static void clock_read(){
  Thr* t=self_t; if(t->harness) return; op_point(50); Harness h;
  if(clockcfg.jump_permille){
    static const i64 J[]={1,-1,2,60,-60,3600,-3600,86400,-86400,-400000000,1000000000,-1400000000};
    u64 idx=kcount[K_CLOCK]++; u64 r=prng(K_CLOCK,idx); u64 v=keyed(K_CLOCK,idx,(int)(r%1000)<clockcfg.jump_permille?1+(r>>20)%12:0);
    if(v){ i64 j=J[(v-1)%12]; i64 cur=(i64)(real_time_ns()/1000000000ull); if(cur+j<0||cur+j>4000000000ll) j=0; g_jump+=j*1000000000ll; S->jumps++; }
  }
  hash_mix(real_time_ns());
}
static void do_sleep(u64 ns){
  Thr* t=self_t; op_point(100); Harness h; u64 extra=0;
  if(clockcfg.oversleep){ u64 idx=(1ull<<40)+kcount[K_CLOCK]++; u64 r=prng(K_CLOCK,idx); static const u64 E[]={0,0,1000000,500000000,3000000000ull,60000000000ull,86400000000000ull};
    u64 v=keyed(K_CLOCK,idx,r%7); extra=E[v%7]; if(extra) S->oversleeps++; }
  t->st=T_SLEEP; t->wake=now_ns()+ns+extra; t->harness--; h.t=nullptr; t->harness++; block(t); t->harness--;
}
}
using namespace sim;
#define PROG() (sim::prog())
extern "C" {
int pthread_create(pthread_t* th,const pthread_attr_t* at,void*(*fn)(void*),void* arg){
  Thr* t=simthr(); if(!t) return REAL(pthread_create)(th,at,fn,arg);
  op_point(1000);
  { Harness h; g_created++; if(fail_create()) return EAGAIN;
    int det=0; if(at) pthread_attr_getdetachstate(at,&det);
    Thr* n=new_thr(fn,arg); n->detached=det==PTHREAD_CREATE_DETACHED; for(int i=0;i<g_nthr;i++) n->vc[i]=std::max(n->vc[i],t->vc[i]); n->vc[n->id]=1; t->vc[t->id]++;
    g_nlive++; bool a=g_active; g_active=false; int r=real_create(n,STK); g_active=a; if(r) harness_error("pthread_create failed: %d",r);
    *th=n->real; hash_mix(0x7C0+n->id); arm(t); }
  op_point(1000); // the new thread may start at once
  { // scheduling decision right after creation
    Harness h; wake_due(); u64 key=((u64)t->id<<40)|CRBIT|t->steps; if(g_nlive>1 && sched.preempt && !g_replay){ u64 r=prng(K_SCHED,0xc4ea000000000000ull^key);
      if((r&3)==0){ Thr* to=choose_seed(t,false,r>>8); if(to&&to!=t){ record(K_SCHED,key,to->id+1); S->preempts++; arm(t); h.t->harness--; switch_to(t,to); h.t->harness++; } } }
    else if(g_replay){ auto it=g_tape->find(tkey(K_SCHED,key)); if(it!=g_tape->end()){ u64 v=it->second; if(v>=1&&v<=(u64)g_nthr&&ready(&g_thr[v-1])&&&g_thr[v-1]!=t){ record(K_SCHED,key,v); S->preempts++; arm(t); h.t->harness--; switch_to(t,&g_thr[v-1]); h.t->harness++; } } }
  }
  return 0;
}
static Thr* by_real(pthread_t p){ for(int i=g_nthr-1;i>=0;i--) if(g_thr[i].real==p && !g_thr[i].joined) return &g_thr[i]; return nullptr; }
int pthread_join(pthread_t th,void** ret){
  Thr* t=simthr(); if(!t) return REAL(pthread_join)(th,ret);
  op_point(100); Harness h; Thr* x=by_real(th); if(!x) return ESRCH; if(x==t) return EDEADLK;
  while(x->st!=T_DONE){ t->st=T_JOIN; t->wait=x; block(t); }
  x->joined=true; if(!x->detached) REAL(pthread_join)(x->real,nullptr); if(ret) *ret=x->ret; acq_rel_hb(x,t); return 0;
}
int pthread_detach(pthread_t th){
  Thr* t=simthr(); if(!t) return REAL(pthread_detach)(th);
  Harness h; Thr* x=by_real(th); if(!x) return ESRCH; x->detached=true; return 0; // kept joinable for real; never reaped
}
int pthread_mutex_lock(pthread_mutex_t* m){ Thr* t=simthr(); if(!t||t->harness>0) { if(!t) return REAL(pthread_mutex_lock)(m); return 0; } sync_stall(t); m_lock(t,m); sync_stall(t); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m){ Thr* t=simthr(); if(!t||t->harness>0) { if(!t) return REAL(pthread_mutex_unlock)(m); return 0; } m_unlock(t,m,true); sync_stall(t); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m){
  Thr* t=simthr(); if(!t||t->harness>0){ if(!t) return REAL(pthread_mutex_trylock)(m); return 0; }
  sync_stall(t); op_point(30); Harness h; Mtx& x=mtx(m);
  if(x.owner!=-1){ if(x.owner==t->id && (m->__data.__kind&3)==PTHREAD_MUTEX_RECURSIVE){ x.count++; return 0; } hash_mix(0x7F); S->trylocks++; return EBUSY; }
  if(faults.on && faults.permille[OP_TRYLOCK]){ u64 idx=0xD0000000ull+kcount[K_KINDS-1]++; u64 v=keyed(K_FAULT,idx,(int)(prng(K_FAULT,idx)%1000)<faults.permille[OP_TRYLOCK]?1:0); if(v){ fault_fired(OP_TRYLOCK,0); return EBUSY; } }
  x.owner=t->id; x.count=1; acquire_sync(m); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m,const struct timespec* ts){ (void)ts; return pthread_mutex_lock(m); }
int pthread_mutex_destroy(pthread_mutex_t* m){ Thr* t=simthr(); if(!t||t->harness>0) return t?0:REAL(pthread_mutex_destroy)(m); Harness h; if(g_mtx) g_mtx->erase(m); sync_forget(m); return 0; }
int pthread_mutex_init(pthread_mutex_t* m,const pthread_mutexattr_t* a){ Thr* t=simthr(); int r=REAL(pthread_mutex_init)(m,a); if(t&&!t->harness){ Harness h; if(g_mtx) g_mtx->erase(m); sync_forget(m);} return r; }
// reader/writer locks
static std::pair<int,std::vector<int>>& rw(const void* p){ if(!g_rw) g_rw=new std::unordered_map<const void*,std::pair<int,std::vector<int>>>(); auto it=g_rw->find(p); if(it==g_rw->end()) it=g_rw->emplace(p,std::make_pair(-1,std::vector<int>())).first; return it->second; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m){ Thr* t=PROG(); if(!t) return simthr()?0:REAL(pthread_rwlock_rdlock)(m); op_point(30); Harness h; while(rw(m).first!=-1){ t->st=T_RWLOCK; t->wait=m; block(t);} rw(m).second.push_back(t->id); acquire_sync(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m){ Thr* t=PROG(); if(!t) return simthr()?0:REAL(pthread_rwlock_wrlock)(m); op_point(30); Harness h; while(rw(m).first!=-1||!rw(m).second.empty()){ t->st=T_RWLOCK; t->wait=m; block(t);} rw(m).first=t->id; acquire_sync(m); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m){ Thr* t=PROG(); if(!t) return simthr()?0:REAL(pthread_rwlock_tryrdlock)(m); op_point(30); Harness h; if(rw(m).first!=-1) return EBUSY; rw(m).second.push_back(t->id); acquire_sync(m); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m){ Thr* t=PROG(); if(!t) return simthr()?0:REAL(pthread_rwlock_trywrlock)(m); op_point(30); Harness h; if(rw(m).first!=-1||!rw(m).second.empty()) return EBUSY; rw(m).first=t->id; acquire_sync(m); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m){ Thr* t=PROG(); if(!t) return simthr()?0:REAL(pthread_rwlock_unlock)(m);
  { Harness h; auto& x=rw(m); if(x.first==t->id) x.first=-1; else { auto it=std::find(x.second.begin(),x.second.end(),t->id); if(it==x.second.end()) violation("mutex-misuse","unlock of a rwlock not held"); x.second.erase(it);} release_sync(m);
    for(int i=0;i<g_nthr;i++) if(g_thr[i].st==T_RWLOCK&&g_thr[i].wait==m) g_thr[i].st=T_RUN; }
  op_point(30); return 0; }
// condition variables
static int cwait(pthread_cond_t* c,pthread_mutex_t* m,u64 deadline){
  Thr* t=self_t; sync_stall(t); op_point(30); m_unlock(t,m,false);
  if(sched.preempt&&(g_replay||sched.stall_permille)){ u64 idx=(3ull<<48)|((u64)t->id<<40)|t->nsync++; if(keyed(K_CLOCK,idx,(prng(K_CLOCK,idx)%1000)<20?1:0)){ S->spurious++; sync_stall(t); m_lock(t,m); return 0; } }
  { Harness h; t->st=T_COND; t->wait=c; t->timed=deadline!=~0ull; t->wake=deadline; t->woken=false; block(t); if(t->woken) acquire_sync(c); }
  int r=t->woken?0:ETIMEDOUT; m_lock(t,m); return r;
}
int pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){ if(!PROG()) return REAL(pthread_cond_wait)(c,m); return cwait(c,m,~0ull); }
int pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const struct timespec* ts){ if(!PROG()) return REAL(pthread_cond_timedwait)(c,m,ts);
  i64 d=(i64)ts->tv_sec*1000000000ll+ts->tv_nsec-(i64)real_time_ns(); if(d<0)d=0; return cwait(c,m,now_ns()+d); }
int pthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t k,const struct timespec* ts){ if(!PROG()) return REAL(pthread_cond_clockwait)(c,m,k,ts);
  i64 base=k==CLOCK_REALTIME?(i64)real_time_ns():(i64)now_ns()+1000000000000ll; i64 d=(i64)ts->tv_sec*1000000000ll+ts->tv_nsec-base; if(d<0)d=0; return cwait(c,m,now_ns()+d); }
int pthread_cond_signal(pthread_cond_t* c){ Thr* t=PROG(); if(!t) return simthr()?0:REAL(pthread_cond_signal)(c);
  sync_stall(t);
  { Harness h; wake_due(); release_sync(c); int n=0,w[MAXT]; for(int i=0;i<g_nthr;i++) if(g_thr[i].st==T_COND&&g_thr[i].wait==c&&!g_thr[i].woken) w[n++]=i;
    if(n){ Thr* x=&g_thr[w[draw(K_SWITCH,n)]]; x->woken=true; x->st=T_RUN; } }
  op_point(30); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c){ Thr* t=PROG(); if(!t) return simthr()?0:REAL(pthread_cond_broadcast)(c);
  sync_stall(t);
  { Harness h; wake_due(); release_sync(c); for(int i=0;i<g_nthr;i++) if(g_thr[i].st==T_COND&&g_thr[i].wait==c){ g_thr[i].woken=true; g_thr[i].st=T_RUN; } }
  op_point(30); return 0; }
// once
static std::unordered_map<const void*,int>* g_once; // 1 running 2 done
static int& once_st(const void* p){ if(!g_once) g_once=new std::unordered_map<const void*,int>(); return (*g_once)[p]; }
int pthread_once(pthread_once_t* o,void(*f)(void)){
  Thr* t=PROG(); if(!t) return REAL(pthread_once)(o,f);
  if(*(volatile int*)o==2) return 0;
  { Harness h; while(once_st(o)==1){ t->st=T_ONCE; t->wait=o; block(t);} if(once_st(o)==2){ acquire_sync(o); return 0; } once_st(o)=1; }
  try { f(); } catch(...) { Harness h; once_st(o)=0; for(int i=0;i<g_nthr;i++) if(g_thr[i].st==T_ONCE&&g_thr[i].wait==o) g_thr[i].st=T_RUN; throw; }
  { Harness h; once_st(o)=2; release_sync(o); for(int i=0;i<g_nthr;i++) if(g_thr[i].st==T_ONCE&&g_thr[i].wait==o) g_thr[i].st=T_RUN; }
  return 0;
}
int __cxa_guard_acquire(u64* g){
  if(*(volatile u8*)g){ if(simthr()) acquire_sync(g); return 0; }
  Thr* t=simthr(); if(!t){ ((u8*)g)[1]=1; return 1; }
  Harness h; while(once_st(g)==1){ t->st=T_ONCE; t->wait=g; block(t);} if(*(volatile u8*)g){ acquire_sync(g); return 0; } once_st(g)=1; return 1;
}
void __cxa_guard_release(u64* g){ *(volatile u8*)g=1; Thr* t=simthr(); if(!t) return; Harness h; once_st(g)=2; release_sync(g); for(int i=0;i<g_nthr;i++) if(g_thr[i].st==T_ONCE&&g_thr[i].wait==g) g_thr[i].st=T_RUN; }
void __cxa_guard_abort(u64* g){ Thr* t=simthr(); if(!t) return; Harness h; once_st(g)=0; for(int i=0;i<g_nthr;i++) if(g_thr[i].st==T_ONCE&&g_thr[i].wait==g) g_thr[i].st=T_RUN; }
int sched_yield(void){ Thr* t=PROG(); if(!t) return 0; Harness h; op_point(200);
  wake_due(); u64 idx=g_switchno++; Thr* def=t; for(int k=1;k<g_nthr;k++){ Thr*x=&g_thr[(t->id+k)%g_nthr]; if(ready(x)){def=x;break;} } // a yield moves on
  Thr* to=nullptr; if(g_replay){ auto it=g_tape->find(tkey(K_SWITCH,idx)); if(it!=g_tape->end()){ u64 v=it->second; if(v>=1&&v<=(u64)g_nthr&&ready(&g_thr[v-1])) to=&g_thr[v-1]; } if(!to) to=def; }
  else to=sched.preempt?choose_seed(t,true,prng(K_SWITCH,idx)):def; if(!to) to=def;
  if(to!=def) record(K_SWITCH,idx,to->id+1); budget_check(); h.t->harness--; switch_to(t,to); h.t->harness++; return 0; }
// ------------------------------------------------------------------ time
time_t time(time_t* p){ if(!simthr()){ struct timespec ts; syscall(SYS_clock_gettime,CLOCK_REALTIME,&ts); if(p)*p=ts.tv_sec; return ts.tv_sec; } clock_read(); time_t v=(time_t)(real_time_ns()/1000000000ull); if(p)*p=v; return v; }
int clock_gettime(clockid_t k,struct timespec* ts){ if(!simthr()) return (int)syscall(SYS_clock_gettime,k,ts);
  if(k==CLOCK_REALTIME||k==CLOCK_REALTIME_COARSE){ clock_read(); u64 v=real_time_ns(); ts->tv_sec=v/1000000000ull; ts->tv_nsec=v%1000000000ull; }
  else { op_point(50); u64 v=now_ns()+1000000000000ull; if(!self_t->harness) hash_mix(v); ts->tv_sec=v/1000000000ull; ts->tv_nsec=v%1000000000ull; } return 0; }
int gettimeofday(struct timeval* tv,void* tz){ (void)tz; if(!simthr()){ struct timespec ts; syscall(SYS_clock_gettime,CLOCK_REALTIME,&ts); tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000; return 0; } clock_read(); u64 v=real_time_ns(); tv->tv_sec=v/1000000000ull; tv->tv_usec=v/1000%1000000; return 0; }
clock_t clock(void){ if(!simthr()) return 0; op_point(50); return (clock_t)(now_ns()/1000); }
int nanosleep(const struct timespec* a,struct timespec* b){ if(!simthr()) return (int)syscall(SYS_nanosleep,a,b); do_sleep((u64)a->tv_sec*1000000000ull+a->tv_nsec); return 0; }
int clock_nanosleep(clockid_t k,int fl,const struct timespec* a,struct timespec* b){ if(!simthr()) return (int)syscall(SYS_clock_nanosleep,k,fl,a,b);
  u64 ns=(u64)a->tv_sec*1000000000ull+a->tv_nsec; if(fl&TIMER_ABSTIME){ u64 base=k==CLOCK_REALTIME?real_time_ns():now_ns()+1000000000000ull; ns=ns>base?ns-base:0; } do_sleep(ns); return 0; }
int usleep(useconds_t u){ if(!simthr()){ struct timespec ts={(time_t)(u/1000000),(long)(u%1000000)*1000}; return (int)syscall(SYS_nanosleep,&ts,nullptr);} do_sleep((u64)u*1000); return 0; }
unsigned sleep(unsigned s){ if(!simthr()){ struct timespec ts={(time_t)s,0}; syscall(SYS_nanosleep,&ts,nullptr); return 0; } do_sleep((u64)s*1000000000ull); return 0; }
// ------------------------------------------------------------------ randomness, cpus
static u64 g_rand; static bool g_rand_seeded=false;
void srand(unsigned s){ if(simthr()) hash_mix(s); g_rand=mix((u64)s+77); g_rand_seeded=true; }
int rand(void){ if(simthr()) op_point(5); if(!g_rand_seeded){ g_rand=mix(77); g_rand_seeded=true; } if(simthr()&&randcfg.mode==1) return (int)(draw(K_RAND,1u<<31)); g_rand+=0x9e3779b97f4a7c15ull; return (int)(mix(g_rand)&0x7fffffff); }
int get_nprocs(void){ return simthr()?sched.ncpu:8; }
ssize_t getrandom(void* b,size_t n,unsigned f){ if(!simthr()) return syscall(SYS_getrandom,b,n,f); Rng r(prng(K_RAND,0xabc)); for(size_t i=0;i<n;i++) ((u8*)b)[i]=(u8)r.next(); return n; }
// ------------------------------------------------------------------ process end
void exit(int c){ Thr* t=simthr(); if(t){ process_end(Outcome::EXITED,c&0xff); } REAL(exit)(c); __builtin_unreachable(); }
void abort(void){ Thr* t=simthr(); if(t){ process_end(Outcome::ABORTED,0); } signal(SIGABRT,SIG_DFL); raise(SIGABRT); syscall(SYS_exit_group,134); for(;;); }
}
