// Worker: forks one child per simulated run. Also replay and minimisation.
#include "internal.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <cerrno>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
#include <execinfo.h>
#include <clocale>

namespace sim {
extern u64 g_seed; extern bool g_replay; extern std::unordered_map<u64,u64>* g_tape; extern std::vector<std::vector<std::pair<u64,u64>>>* g_sched_tape; extern std::unordered_map<u64,int>* g_shared_tape;
void begin_run_state(); void rt_begin(); void run_main_thread(void*(*fn)(void*));
static std::vector<Scenario>& scs(){ static std::vector<Scenario> v; return v; }
void register_scenario(const Scenario& s){ scs().push_back(s); }
static int g_outfd=-1,g_errfd=-1; static const Scenario* g_sc;
static std::string slurp(int fd){ std::string s; char b[4096]; off_t o=0; for(;;){ ssize_t r=syscall(SYS_pread64,fd,b,sizeof b,o); if(r<=0) break; s.append(b,r); o+=r; } return s; }
std::string out_text(){ Harness h; fflush(stdout); return slurp(g_outfd); }
std::string err_text(){ Harness h; fflush(stderr); return slurp(g_errfd); }
u64 out_mark(){ return out_text().size(); } u64 err_mark(){ return err_text().size(); }
static void on_sig(int sg,siginfo_t* si,void*){
  signal(sg,SIG_DFL);
  if(!g_active||!self_t){ const char m[]="signal outside a run\n"; if(write(2,m,sizeof m)){} syscall(SYS_exit_group,4); }
  Harness h; const char* nm=sg==SIGSEGV?"SIGSEGV":sg==SIGBUS?"SIGBUS":sg==SIGFPE?"SIGFPE":sg==SIGILL?"SIGILL":"SIGABRT";
  char b[128]; snprintf(b,128,"%s at address %p in T%d;",nm,sg==SIGSEGV?si->si_addr:nullptr,self_t->id); machine_violation((std::string("crash-")+nm).c_str(),std::string(b)+backtrace_text(1));
}
static void* scenario_main(void*){ g_sc->fn(); finish(); }
static void child(const Scenario* sc){
  g_sc=sc; g_outfd=(int)syscall(SYS_memfd_create,"out",0); g_errfd=(int)syscall(SYS_memfd_create,"err",0); dup2(g_outfd,1); if(!getenv("SIM_STDERR")) dup2(g_errfd,2);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_sig; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT}) sigaction(s,&sa,nullptr);
  struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
  begin_run_state(); rt_begin(); fs_begin(); alloc_begin_run();
  run_main_thread(scenario_main);
}
// fill pattern is part of the seed; on replay it comes from the file
struct Run { int status; bool timeout; };
static double now(){ struct timespec t; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static bool one(const Scenario* sc,double limit){
  // reset the used part of the result block
  u64 nl=S->notelen; memset((void*)S,0,offsetof(Shared,notes)); S->notes[0]=0; (void)nl; S->edges=S->ioops=0; memset(S->cov,0,sizeof S->cov);
  fflush(stdout); pid_t p=fork(); if(p<0){ perror("fork"); exit(3); }
  if(p==0) child(sc);
  double t0=now(); int st; 
  for(;;){ pid_t r=waitpid(p,&st,WNOHANG); if(r==p) break; if(now()-t0>limit){ kill(p,SIGKILL); waitpid(p,&st,0); S->verdict=3; snprintf(S->msg,sizeof S->msg,"wall-clock limit of %.0f s",limit); return false; } struct timespec ts={0,now()-t0<0.02?200000:2000000}; syscall(SYS_nanosleep,&ts,nullptr); }
  if(S->verdict==0){ S->verdict=3; snprintf(S->msg,sizeof S->msg,"child ended with status %x without a verdict",st); }
  return true;
}
static void esc(FILE* f,const char* s){ fputc('"',f); for(;*s;s++){ unsigned char c=*s; if(c=='"'||c=='\\'){ fputc('\\',f); fputc(c,f); } else if(c<32||c>126) fprintf(f,"\\u%04x",c); else fputc(c,f); } fputc('"',f); }
static void write_replay(const char* path,const Scenario* sc,u64 seed,const std::vector<Choice>& ch){
  FILE* f=fopen(path,"w"); if(!f){ perror(path); exit(3); }
  fprintf(f,"# deterministic simulation replay file\nproperty %s\nscenario %s\nbuild %s\nseed %llu\n# class: %s\n",sc->id,sc->name,is_simt()?"simt":"sima",(unsigned long long)seed,S->cls);
  { std::string m=S->msg; for(char&c:m) if(c=='\n') c='\t'; fprintf(f,"# %s\n",m.substr(0,1500).c_str()); }
  for(auto&c:ch) fprintf(f,"%s %llu %llu\n",kind_name[c.kind],(unsigned long long)c.idx,(unsigned long long)c.val);
  fclose(f);
}
static bool read_replay(const char* path,std::string& scn,u64& seed,std::vector<Choice>& ch){
  FILE* f=fopen(path,"r"); if(!f) return false; char l[4096]; while(fgets(l,sizeof l,f)){ if(l[0]=='#') continue; char a[64]; unsigned long long x,y; char b[256];
    if(sscanf(l,"scenario %255s",b)==1){ scn=b; continue; } if(sscanf(l,"seed %llu",&x)==1){ seed=x; continue; } if(sscanf(l,"%63s %llu %llu",a,&x,&y)==3){ for(int k=0;k<K_KINDS;k++) if(!strcmp(a,kind_name[k])) ch.push_back(Choice{(u32)k,0,x,y}); } }
  fclose(f); return true;
}
static void set_tape(const std::vector<Choice>& ch,u64 seed){
  g_replay=true; g_seed=seed; delete g_tape; delete g_sched_tape; delete g_shared_tape; g_shared_tape=new std::unordered_map<u64,int>(); g_tape=new std::unordered_map<u64,u64>(); g_sched_tape=new std::vector<std::vector<std::pair<u64,u64>>>(MAXT);
  for(auto&c:ch){ (*g_tape)[((u64)c.kind<<56)^c.idx]=c.val; if(c.kind==K_SCHED){ u64 tid=c.idx>>40; if(c.idx&(3ull<<38)){ if(c.idx&(1ull<<39)) (*g_shared_tape)[tid]=1; continue; } if(tid<MAXT) (*g_sched_tape)[tid].push_back({c.idx&((1ull<<40)-1),c.val}); } }
  for(auto&v:*g_sched_tape) std::sort(v.begin(),v.end());
}
static std::vector<Choice> choices(){ return std::vector<Choice>(S->choices,S->choices+S->nchoices); }
static const Scenario* find(const std::string& n){ for(auto&s:scs()) if(n==s.name) return &s; return nullptr; }
static void print_result(FILE* o,const Scenario* sc,u64 seed,double w){
  fprintf(o,"{\"scenario\":\"%s\",\"property\":\"%s\",\"seed\":%llu,\"verdict\":%d,\"hash\":\"%016llx\",\"wall\":%.4f,\"steps\":%llu,\"simns\":%llu,\"switches\":%llu,\"preempts\":%llu,\"threads\":%d,\"ioops\":%llu,\"nchoices\":%llu,\"nontrivial\":%d",sc->name,sc->id,(unsigned long long)seed,S->verdict,(unsigned long long)S->hash,w,(unsigned long long)S->steps,(unsigned long long)S->simns,(unsigned long long)S->switches,(unsigned long long)S->preempts,S->nthreads,(unsigned long long)S->ioops,(unsigned long long)S->nchoices,S->nontriv);
  fprintf(o,",\"faults\":{"); bool first=true; for(int i=0;i<OP_OPS;i++) if(S->faults[i]){ fprintf(o,"%s\"%s\":%llu",first?"":",",op_name[i],(unsigned long long)S->faults[i]); first=false; }
  auto ex=[&](const char*n,u64 v){ if(v){ fprintf(o,"%s\"%s\":%llu",first?"":",",n,(unsigned long long)v); first=false; } }; ex("short-io",S->shorts); ex("clock-jump",S->jumps); ex("silent-truncation",S->truncs); ex("oversleep",S->oversleeps); ex("lock-contention",S->trylocks); ex("stall-at-synchronisation",S->stalls); ex("spurious-wakeup",S->spurious);
  fprintf(o,"},\"probes\":{"); for(int i=0;i<S->nprobes;i++){ fprintf(o,"%s",i?",":""); esc(o,S->probes[i].name); fprintf(o,":%llu",(unsigned long long)S->probes[i].n); }
  fprintf(o,"},\"sample\":"); esc(o,S->sample); fprintf(o,",\"cls\":"); esc(o,S->cls); fprintf(o,",\"msg\":"); esc(o,S->msg); fprintf(o,"}\n");
}
static int minimise(const Scenario* sc,u64 seed,std::vector<Choice> ch,const std::string& cls,double budget,const char* out){
  double t0=now(); int tries=0; 
  auto fails=[&](const std::vector<Choice>& c){ tries++; set_tape(c,seed); one(sc,120); return S->verdict==2 && cls==S->cls; };
  if(!fails(ch)){ printf("minimise: original does not reproduce\n"); return 1; }
  std::vector<Choice> best=choices(); if(best.size()>=ch.size()+100) best=ch;
  // drop whole kinds first, then ddmin by chunks
  auto attempt=[&](std::vector<Choice> c){ if(now()-t0>budget) return false; if(c.size()>=best.size()) { } if(fails(c)){ std::vector<Choice> eff=choices(); best= eff.size()<=c.size()?eff:c; return true; } return false; };
  for(int k: {K_SCHED,K_SWITCH,K_CLOCK,K_FAULT,K_RAND}){ std::vector<Choice> c; for(auto&x:best) if((int)x.kind!=k) c.push_back(x); if(c.size()<best.size()) attempt(c); }
  for(size_t n=2; best.size()>0 && now()-t0<budget;){
    size_t sz=best.size(), ck=std::max<size_t>(1,sz/n); bool red=false;
    for(size_t i=0;i<sz && now()-t0<budget;i+=ck){ std::vector<Choice> c; for(size_t j=0;j<best.size();j++) if(j<i||j>=i+ck) c.push_back(best[j]); if(c.size()==best.size()) continue; if(attempt(c)){ red=true; break; } }
    if(red){ n=std::max<size_t>(n-1,2); continue; } if(ck==1) break; n=std::min(sz,n*2);
  }
  // shrink values of workload choices
  for(size_t i=0;i<best.size() && now()-t0<budget;i++) if(best[i].kind==K_WL||best[i].kind==K_FAULT) for(u64 v: {(u64)1,best[i].val/2,best[i].val-1}) if(i<best.size()&&v>0&&v<best[i].val){ auto c=best; c[i].val=v; if(attempt(c)) break; }
  if(!fails(best)){ printf("minimise: lost the failure\n"); return 1; }
  write_replay(out,sc,seed,best); printf("minimised to %zu choices in %d tries\n",best.size(),tries); return 0;
}
}
using namespace sim;
int main(int argc,char** argv){
  if(!getenv("SIM_NOASLR_DONE")){ int p=personality(0xffffffff); if(p!=-1 && !(p&ADDR_NO_RANDOMIZE)){ setenv("SIM_NOASLR_DONE","1",1); if(personality(p|ADDR_NO_RANDOMIZE)!=-1) execv("/proc/self/exe",argv); } }
  S=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(S==MAP_FAILED){ perror("mmap"); return 3; }
  { void* b[4]; backtrace(b,4); }
  std::map<std::string,std::string> o; for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a.rfind("--",0)==0){ size_t e=a.find('='); if(e!=std::string::npos) o[a.substr(2,e-2)]=a.substr(e+1); else o[a.substr(2)]="1"; } }
  if(o.count("list")){ for(auto&s:scs()) printf("%s %s %d\n",s.id,s.name,s.weight); return 0; }
  double lim=o.count("run-limit")?atof(o["run-limit"].c_str()):120;
  if(o.count("replay")||o.count("minimise")){
    std::string scn; u64 seed=0; std::vector<Choice> ch; if(!read_replay(o.count("replay")?o["replay"].c_str():o["minimise"].c_str(),scn,seed,ch)){ fprintf(stderr,"cannot read replay file\n"); return 3; }
    const Scenario* sc=find(scn); if(!sc){ fprintf(stderr,"no scenario %s\n",scn.c_str()); return 3; }
    if(o.count("minimise")) return minimise(sc,seed,ch,o["class"],atof(o["budget"].c_str()),o["out"].c_str());
    set_tape(ch,seed); double t=now(); one(sc,lim); print_result(stdout,sc,seed,now()-t); if(o.count("notes")) fputs(S->notes,stdout); return S->verdict==2?1:S->verdict==1?0:3;
  }
  // seed mode
  std::vector<const Scenario*> sel; for(auto&s:scs()) if((o.count("property")&&o["property"]==s.id&&!o.count("scenario"))||(o.count("scenario")&&o["scenario"]==s.name)) for(int i=0;i<s.weight;i++) sel.push_back(&s);
  if(sel.empty()){ fprintf(stderr,"no scenario\n"); return 3; }
  u64 base=strtoull(o["base"].c_str(),nullptr,10), from=strtoull(o["from"].c_str(),nullptr,10), to=o.count("to")?strtoull(o["to"].c_str(),nullptr,10):~0ull, stride=o.count("stride")?strtoull(o["stride"].c_str(),nullptr,10):1; double T=o.count("time")?atof(o["time"].c_str()):1e9; double t0=now();
  std::string dir=o["dir"]; FILE* out=o.count("out")?fopen(o["out"].c_str(),"w"):stdout; int maxviol=o.count("max-violations")?atoi(o["max-violations"].c_str()):3; std::unordered_set<std::string> seen; u64* cov=(u64*)calloc(4096,8);
  int rc=0; for(u64 i=from;i<to && now()-t0<T;i+=stride){
    // a bijective mixing keeps scenarios interleaved
    const Scenario* sc=sel[i%sel.size()]; u64 seed=base*1000003ull+i; g_replay=false; g_seed=seed; double t=now(); one(sc,lim); 
    for(int k=0;k<4096;k++) cov[k]|=S->cov[k];
    print_result(out,sc,seed,now()-t); fflush(out);
    if(o.count("notes")) fputs(S->notes,stdout);
    if(S->verdict==2){ rc=1; std::string cls=S->cls; if(!dir.empty() && seen.insert(std::string(sc->name)+"/"+cls).second){ char p[512]; snprintf(p,512,"%s/%s_%llu.replay",dir.c_str(),sc->name,(unsigned long long)seed); write_replay(p,sc,seed,choices()); }
      if(--maxviol<=0) break; }
    else if(o.count("dump")&&!dir.empty()){ char p[512]; snprintf(p,512,"%s/%s_%llu.replay",dir.c_str(),sc->name,(unsigned long long)seed); write_replay(p,sc,seed,choices()); }
  }
  { u64 n=0; for(int k=0;k<4096;k++) n+=__builtin_popcountll(cov[k]); fprintf(out,"{\"edges\":%llu,\"cov\":\"",(unsigned long long)n); for(int k=0;k<4096;k++) if(cov[k]) fprintf(out,"%x:%llx,",k,(unsigned long long)cov[k]); fprintf(out,"\"}\n"); }
  fflush(out); return rc;
}
