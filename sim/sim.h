// Deterministic simulator: public interface used by the scenarios.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

namespace sim {
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

// ---------------------------------------------------------------- choices
enum Kind { K_WL=0, K_SCHED, K_SWITCH, K_FAULT, K_CLOCK, K_RAND, K_MEM, K_KINDS };
extern const char* kind_name[K_KINDS];
u64 draw(Kind k, u64 n);                 // uniform in [0,n); 0 is the benign default
inline u64 wl(u64 n){ return draw(K_WL,n); }
inline i64 wl_range(i64 a,i64 b){ return a+(i64)draw(K_WL,(u64)(b-a+1)); }
inline bool wl_chance(int num,int den){ return draw(K_WL,den)>=(u64)(den-num); }
template<class T> const T& wl_pick(const std::vector<T>& v){ return v[wl(v.size())]; }
u32 content_seed();                      // one workload draw seeding a Rng
struct Rng { u64 s; explicit Rng(u64 s):s(s){} u64 next(); u64 below(u64 n){return next()%n;}
  double unit(){ return (next()>>11)*(1.0/9007199254740992.0);} float f(float a,float b){return a+(b-a)*(float)unit();} };

// ---------------------------------------------------------------- verdicts
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf,2,3)));
// declares that violations raised from now on inside simulator machinery (crash, hang, deadlock, race, memory)
// are judged by the handler: return true to let it be a violation.
void note(const char* fmt, ...) __attribute__((format(printf,1,2)));   // trace text, no effect on the run
void probe(const char* name, u64 n=1);   // counted per run: "this condition was reached"
void nontrivial();                       // the run exercised what the scenario is about
void sample(const char* fmt, ...) __attribute__((format(printf,1,2))); // description of the case
[[noreturn]] void finish();              // ends the run as held
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf,1,2)));
void hash_mix(u64 v);
void hash_bytes(const void* p,size_t n);
u64 bytes_hash(const void* p,size_t n);

// ---------------------------------------------------------------- guarded execution of program code
struct Outcome { enum K { RETURNED, EXITED, ABORTED, THREW } kind=RETURNED; int code=0; std::string what; };
Outcome guarded(const std::function<void()>& f);   // runs program code; exit/abort/exceptions come back here
bool program_alive();

// ---------------------------------------------------------------- scheduler configuration & state
struct SchedCfg {
  bool preempt=true;          // seeded preemption on
  u64 mean_gap=2000;          // mean number of steps between preemptions of a thread
  int shared_bias=0;          // per-mille chance of preempting at an access to recently shared memory
  int strategy=0;             // 0 random, 1 priorities (PCT), 2 one stalled thread, 3 run-to-block
  int pct_changes=3;
  u64 step_budget=200u*1000*1000;
  u64 ns_per_step=20;
  int ncpu=4;
  int stall_permille=0;       // chance of a long delay at a synchronisation
};
extern SchedCfg sched;
void random_sched();                    // draw a swarm configuration
int  live_threads();                    // simulated threads that were created and did not finish (not the caller)
int  threads_created();
u64  steps();                           // steps of the whole run so far
u64  my_steps();
u64  now_ns();                          // simulated monotonic time since start of the run
void set_race_detection(bool on);
int  self_tid();

// ---------------------------------------------------------------- clock configuration
struct ClockCfg { int jump_permille=0; bool oversleep=false; i64 start_real=1500000000; };
extern ClockCfg clockcfg;

// ---------------------------------------------------------------- randomness
struct RandCfg { int mode=0; };         // 0 seeded stream
extern RandCfg randcfg;

// ---------------------------------------------------------------- memory
void set_fill(u32 pattern_seed);        // pattern of fresh heap memory
u64  live_bytes();                      // bytes currently allocated by program (this run)
u64  live_blocks();
bool is_simt();

// ---------------------------------------------------------------- file system
enum Op { OP_OPEN=0, OP_READ, OP_WRITE, OP_CLOSE, OP_SEEK, OP_STAT, OP_ACCESS, OP_MKDIR, OP_OPENDIR, OP_READDIR,
  OP_REALPATH, OP_UNLINK, OP_RENAME, OP_TRUNC, OP_CREAT_THREAD, OP_TRYLOCK, OP_SYNC, OP_ALLOC, OP_OPS };
extern const char* op_name[OP_OPS];
struct FaultCfg {
  bool on=false;
  int permille[OP_OPS]={0};             // chance of a fault per operation
  int short_permille_read=0;            // benign: reads return less than asked
  int short_permille_write=0;           // benign: writes take less than asked (callers must continue)
  int truncate_permille=0;              // file ends early at a read (silent)
  i64 capacity=-1;                      // bytes the disk still takes; -1 unlimited
  i64 die_at=-1;                        // from this I/O operation on everything returns EIO
  i64 target_op=-1;                     // exactly this I/O operation (counted over all kinds) fails
  int budget=1000000;                   // at most that many hard faults
  u64 alloc_at=0;                       // the program's alloc_at-th allocation (of alloc_min bytes or more, counted from here on) fails; 0 never
  u64 alloc_len=1;                      // and the ones after it, this many in all
  size_t alloc_min=0;
  bool alloc_own=false;                  // only allocations the program itself makes, not its libraries
  u64 alloc_seen=0;                     // counter
  u32 kinds=~0u;                        // ops that target_op/die_at may affect
};
extern FaultCfg faults;
bool alloc_fails(size_t n,const void* caller);
void random_bufsize();
namespace fs {
  void reset();
  void put(const std::string& path,const std::string& data,int mode=0644);
  void mkdirs(const std::string& path,int mode=0755);
  bool get(const std::string& path,std::string& out);
  bool exists(const std::string& path);
  bool is_dir(const std::string& path);
  void chmod(const std::string& path,int mode);
  void remove(const std::string& path);
  void set_cwd(const std::string& path);
  std::vector<std::string> list_all();            // every path, directories with trailing '/'
  u64 digest();                                   // of the whole tree
  int open_handles();                             // files+directories the program holds open
  struct Event { Op op; std::string path; int err; i64 res; int tid; u64 step; };
  const std::vector<Event>& log();                // operations of this run so far
  void clear_log();
  void read_limit(const std::string& path,i64 bytes,int err); // reading past `bytes` gives err (0: EOF)
  void set_bufsize(int n);                        // stdio buffer size for streams opened from now on
  u64 ops();                                      // I/O operations so far
  void on_op(std::function<void(Op,const std::string&)> f); // "another program" acts between operations
}
u64 faults_fired();
u64 faults_fired(Op op);
std::string out_text();     // what the program printed so far (stdout)
std::string err_text();
u64 out_mark(); u64 err_mark(); // lengths so far

// ---------------------------------------------------------------- scenarios
struct Scenario { const char* id; const char* name; int weight; void (*fn)(); };
void register_scenario(const Scenario& s);
struct Reg { Reg(const char* id,const char* name,int weight,void(*fn)()){ register_scenario(Scenario{id,name,weight,fn}); } };
}
#define SCENARIO(ID,NAME,WEIGHT) static void NAME(); static sim::Reg reg_##NAME(ID,#NAME,WEIGHT,NAME); static void NAME()
