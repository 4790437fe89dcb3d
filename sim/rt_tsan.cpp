// simt build: own heap (deterministic, red zones, quarantine), own ThreadSanitizer runtime
// (preemption at every memory access + vector-clock race detection).
#include "internal.h"
#include <sys/mman.h>
#include <cstring>
#include <cstdio>
#include <cerrno>
#include <unistd.h>
#include <sys/syscall.h>
#include <iostream>
#include <algorithm>

namespace sim {
static const uintptr_t BASE=0x200000000000ull; static const size_t ASIZE=6ull<<30, RUNOFF=512ull<<20, STKOFF=5ull<<30;
static u8* const POISON=(u8*)0x300000000000ull;            // 1 byte per 8 bytes of arena
struct Cell { u32 clk; u8 tid,mask,fl,pad; u32 pc,pc2; };   // fl: 1 write 2 atomic
static Cell* const SHA=(Cell*)0x400000000000ull;            // 4 cells per granule of the arena
static Cell* const SHG=(Cell*)0x500000000000ull;            // ... of the executable's data
static uintptr_t g_bump=BASE+64, g_top=BASE; static bool g_ready=false;
static uintptr_t g_dlo,g_dhi; static uintptr_t g_xlo[8],g_xhi[8]; static int g_nx=0;
static u32 g_fill=0x5eed; static u64 g_live=0,g_liveb=0;
struct Hdr { u64 magic; u64 size; u32 cls,counted; uintptr_t raw; }; // 32 bytes directly before user memory

static const u64 M_LIVE=0x1a11fe11b10c4a11ull, M_FREE=0xdead0f5eedb10c00ull;
static void init(){
  if(g_ready) return; g_ready=true;
  auto mm=[](uintptr_t a,size_t n){ void* p=(void*)syscall(SYS_mmap,a,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0); if(p==MAP_FAILED){ static const char m[]="arena mmap failed\n"; if(write(2,m,sizeof m-1)<0){} syscall(SYS_exit_group,3);} };
  mm(BASE,ASIZE); mm((uintptr_t)POISON,ASIZE/8); mm((uintptr_t)SHA,ASIZE/8*4*sizeof(Cell)); mm((uintptr_t)SHG,(256ull<<20)/8*4*sizeof(Cell));
}
// quarantine and free lists per size class
struct Q { uintptr_t raw; u32 cls; u64 n; };
static const int NCLS=64; static uintptr_t g_free[NCLS]; static Q g_q[1<<16]; static u32 g_qh=0,g_qt=0; static u64 g_qbytes=0;
static u32 cls_of(size_t raw,size_t* up){ // raw sizes rounded to classes with 4 steps per doubling
  size_t b=128; u32 c=0; for(;;){ for(int k=4;k<8;k++,c++){ size_t s=b/4*k; if(raw<=s){ *up=s; return c; } } b<<=1; if(c>=NCLS) break; }
  *up=(raw+4095)&~4095ull; return NCLS;
}
static inline u8* po(uintptr_t a){ return POISON+((a-BASE)>>3); }
static void poison(uintptr_t a,size_t n,u8 v){ memset(po(a),v,n>>3); }
static void* alloc(size_t n,size_t align){
  init(); if(align<16) align=16; if(n>(3ull<<30)){ errno=ENOMEM; return nullptr; }
  size_t need=n+align+64+48, up; u32 c=cls_of(need,&up); uintptr_t raw;
  if(c<NCLS && g_free[c]){ raw=g_free[c]; g_free[c]=*(uintptr_t*)raw; }
  else { raw=g_bump; g_bump+=up; if(g_bump>BASE+STKOFF){ static const char m[]="arena exhausted\n"; if(write(2,m,sizeof m-1)<0){} harness_error("arena exhausted"); } }
  uintptr_t u=(raw+32+sizeof(Hdr)+align-1)&~(uintptr_t)(align-1);
  Hdr* h=(Hdr*)(u-sizeof(Hdr)); h->magic=M_LIVE; h->size=n; h->cls=c; h->raw=raw; Thr* t=prog(); h->counted=t?1:0;
  poison(raw,up,0xfa); memset(po(u),0,n>>3); if(n&7) *po(u+(n&~7ull))=n&7;
  if(t){ g_live++; g_liveb+=n; }
  if(self_t){ size_t f=n<(8u<<20)?n:(8u<<20); u32 s=g_fill; if(g_fill==0x5eed) memset((void*)u,0xA5,f); else { u32* p=(u32*)u; size_t k=f/4; for(size_t i=0;i<k;i++){ s=s*1664525u+1013904223u; p[i]=s; } } }
  return (void*)u;
}
static void access_report(const char* what,uintptr_t a,size_t n);
static void release(void* p){
  if(!p) return; uintptr_t u=(uintptr_t)p; if(u<BASE||u>=BASE+ASIZE) return;
  Hdr* h=(Hdr*)(u-sizeof(Hdr));
  if(h->magic!=M_LIVE){ if(g_active&&self_t){ char b[200]; snprintf(b,sizeof b,"free of %s block %p",h->magic==M_FREE?"an already freed":"an invalid",p); machine_violation("bad-free",std::string(b)+backtrace_text(2)); } return; }
  if(g_race && g_nlive>1 && prog()){ size_t m=h->size<4096?h->size:4096; extern void race_range(uintptr_t,size_t,bool); race_range(u,m,true); }
  h->magic=M_FREE; if(h->counted){ g_live--; g_liveb-=h->size; }
  size_t up; u32 c=cls_of(h->size+ (u-h->raw) ,&up); (void)c; poison(u,(h->size+7)&~7ull,0xfd);
  if(self_t){ size_t f=h->size<65536?h->size:65536; memset(p,0xDD,f); }
  if(h->cls<NCLS){ g_q[g_qt++&0xffff]=Q{h->raw,h->cls,h->size}; g_qbytes+=h->size; 
    while(g_qt-g_qh>=0xfff0 || g_qbytes>(512u<<20)){ Q q=g_q[g_qh++&0xffff]; g_qbytes-=q.n; *(uintptr_t*)q.raw=g_free[q.cls]; g_free[q.cls]=q.raw; if(g_qh==g_qt) break; } }
}
void alloc_begin_run(){ init(); g_bump=BASE+RUNOFF; memset(g_free,0,sizeof g_free); g_qh=g_qt=0; g_qbytes=0; g_live=g_liveb=0; g_fill=0x5eed; }
void set_fill(u32 s){ g_fill=s?s:0x5eed; }
u64 live_bytes(){ return g_liveb; } u64 live_blocks(){ return g_live; } bool is_simt(){ return true; }

// ---------------------------------------------------------------- races
static inline Cell* cells(uintptr_t a){
  if(a-BASE<ASIZE) return SHA+((a-BASE)>>3)*4;
  if(a>=g_dlo&&a<g_dhi){ for(int i=0;i<g_nx;i++) if(a>=g_xlo[i]&&a<g_xhi[i]) return nullptr; return SHG+((a-g_dlo)>>3)*4; }
  return nullptr;
}
extern "C" char __data_start, _end, __executable_start;
static std::string where(u32 pc){ char b[40]; snprintf(b,40," 0x%lx",(unsigned long)((uintptr_t)&__executable_start+pc)); return b; }
static void race_found(Thr* t,uintptr_t a,bool w,Cell* c,u32 pc){
  Harness h; char b[256]; snprintf(b,sizeof b,"%s of 8-byte word %p by T%d races with %s by T%d;",w?"write":"read",(void*)(a&~7ull),t->id,c->fl&1?"write":"read",c->tid);
  std::string s=b; s+=" now at"+where(pc); for(int i=t->depth-1;i>=0&&i>t->depth-6;i--){ if(i<256){ snprintf(b,64," %p",t->pcs[i]); s+=b; } } s+=" ; other at"+where(c->pc)+where(c->pc2);
  machine_violation("data-race",s);
}
static inline void race_one(Thr* t,uintptr_t g,u8 mask,bool w,bool at,u32 pc,bool& shared){
  Cell* c=cells(g); if(!c) return; Cell* slot=nullptr; u32 me=t->vc[t->id]; 
  for(int i=0;i<4;i++){ Cell* x=c+i;
    if(!x->mask){ if(!slot) slot=x; continue; }
    if(x->tid==t->id){ if((x->mask&~mask)==0 && ((x->fl&1)<=(u8)w) && (!(at)||(x->fl&2))) { slot=x; } continue; }
    shared=true;
    bool hb=x->clk<=t->vc[x->tid];
    if(!hb && (x->mask&mask) && (w||(x->fl&1)) && !(at&&(x->fl&2))) race_found(t,g,w,x,pc);
    if(hb && (x->mask&~mask)==0 && (w || !(x->fl&1)) && !slot) slot=x;
  }
  if(!slot) slot=c+(t->steps&3);
  u32 p2=0; if(t->depth>0&&t->depth<=256) p2=(u32)((uintptr_t)t->pcs[t->depth-1]-(uintptr_t)&__executable_start);
  *slot=Cell{me,(u8)t->id,mask,(u8)((w?1:0)|(at?2:0)),0,pc,p2};
}
void race_range(uintptr_t a,size_t n,bool w){
  Thr* t=self_t; bool sh=false; uintptr_t e=a+n; u32 pc=(u32)((uintptr_t)__builtin_return_address(0)-(uintptr_t)&__executable_start);
  for(uintptr_t g=a&~7ull; g<e; g+=8){ u8 m=0xff; if(g<a) m&=(u8)(0xff<<(a-g)); if(g+8>e) m&=(u8)(0xff>>(g+8-e)); race_one(t,g,m,w,false,pc,sh); }
}
static void access_report(const char* what,uintptr_t a,size_t n){
  u8 v=*po(a&~7ull); const char* k=v==0xfd?"freed":"out-of-bounds"; char b[200];
  // find the block below
  std::string info; for(uintptr_t p=a&~15ull; p>BASE+64 && a-p<(1u<<20); p-=16){ Hdr* h=(Hdr*)(p-sizeof(Hdr)); if(h->magic==M_LIVE||h->magic==M_FREE){ snprintf(b,sizeof b," (block of %llu bytes, offset %lld)",(unsigned long long)h->size,(long long)(a-p)); info=b; break; } }
  snprintf(b,sizeof b,"%s of %zu bytes in %s heap memory",what,n,k); machine_violation(v==0xfd?"heap-use-after-free":"heap-overflow",b+info+backtrace_text(2));
}
static inline void mem_check(uintptr_t a,size_t n,bool w){
  if(a-BASE<ASIZE && a>=BASE+RUNOFF && a<BASE+STKOFF){
    u8 v=*po(a); if(__builtin_expect(v!=0,0) && (v>=0x80 || (a&7)+n>v)) access_report(w?"write":"read",a,n);
    if(n>1){ uintptr_t l=a+n-1; v=*po(l); if(__builtin_expect(v!=0,0) && (v>=0x80||(l&7)+1>v)) access_report(w?"write":"read",l,n); }
    if(__builtin_expect(a>=g_bump,0)) access_report(w?"write":"read",a,n);
  }
}
static inline void acc(uintptr_t a,size_t n,bool w,bool at,uintptr_t pc){
  Thr* t=self_t; if(!t||!g_active||t->harness) return;
  step(t); mem_check(a,n,w);
  if(g_nlive>1 && (g_race||g_shared_bias)){
    bool sh=false; u32 p=(u32)(pc-(uintptr_t)&__executable_start);
    if((a&7)+n<=8) { bool keep=g_race; u8 m=(u8)(((n==8?0x100:(1u<<n))-1)<<(a&7)); if(keep) race_one(t,a&~7ull,m,w,at,p,sh); else { Cell* c=cells(a&~7ull); if(c){ if(c->mask&&c->tid!=t->id) sh=true; *c=Cell{0,(u8)t->id,0xff,0,0,0,0}; } } }
    else if(g_race) for(uintptr_t g=a&~7ull;g<a+n;g+=8){ u8 m=0xff; if(g<a) m&=(u8)(0xff<<(a-g)); if(g+8>a+n) m&=(u8)(0xff>>(g+8-(a+n))); race_one(t,g,m,w,at,p,sh); }
    if(sh && g_shared_bias) maybe_preempt_shared(t);
  }
}
static void range(const void* p,size_t n,bool w,uintptr_t pc){
  Thr* t=self_t; if(!t||!g_active||t->harness||!n) return; uintptr_t a=(uintptr_t)p; step(t);
  if(a-BASE<ASIZE && a>=BASE+RUNOFF && a<BASE+STKOFF){ for(uintptr_t g=a;g<a+n;g=(g&~7ull)+8){ size_t k=std::min<size_t>(8-(g&7),a+n-g); mem_check(g,k,w);} }
  if(g_nlive>1&&g_race){ bool sh=false; u32 q=(u32)(pc-(uintptr_t)&__executable_start); for(uintptr_t g=a&~7ull;g<a+n;g+=8){ u8 m=0xff; if(g<a) m&=(u8)(0xff<<(a-g)); if(g+8>a+n) m&=(u8)(0xff>>(g+8-(a+n))); race_one(t,g,m,w,false,q,sh); } }
}
void rt_begin(){
  g_dlo=(uintptr_t)&__data_start&~7ull; g_dhi=(uintptr_t)&_end; g_nx=0;
  auto ex=[](const void* p,size_t n){ g_xlo[g_nx]=(uintptr_t)p; g_xhi[g_nx]=(uintptr_t)p+n; g_nx++; };
  ex(&std::cout,sizeof std::cout); ex(&std::cerr,sizeof std::cerr); ex(&std::clog,sizeof std::clog);
}
}
using namespace sim;
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
char* simt_stack_area(size_t* n){ *n=0; return (char*)(BASE+STKOFF); }
void* malloc(size_t n){ return alloc_fails(n,__builtin_return_address(0))?nullptr:alloc(n,16); }
void free(void* p){ release(p); }
void* calloc(size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)){ errno=ENOMEM; return nullptr; } if(alloc_fails(n,__builtin_return_address(0))) return nullptr; void* p=alloc(n,16); if(p) memset(p,0,n); return p; }
void* realloc(void* p,size_t n){ if(n&&alloc_fails(n,__builtin_return_address(0))) return nullptr; if(!p) return alloc(n,16); if(!n){ release(p); return nullptr; } Hdr* h=(Hdr*)((uintptr_t)p-sizeof(Hdr)); if(h->magic!=M_LIVE){ release(p); return nullptr; } void* q=alloc(n,16); if(!q) return q; memcpy(q,p,h->size<n?h->size:n); release(p); return q; }
void* memalign(size_t al,size_t n){ return alloc(n,al); }
void* aligned_alloc(size_t al,size_t n){ return alloc(n,al); }
int posix_memalign(void** r,size_t al,size_t n){ void* p=alloc(n,al); if(!p) return ENOMEM; *r=p; return 0; }
void* valloc(size_t n){ return alloc(n,4096); }
void* pvalloc(size_t n){ return alloc((n+4095)&~4095ull,4096); }
size_t malloc_usable_size(void* p){ return p?((Hdr*)((uintptr_t)p-sizeof(Hdr)))->size:0; }
// ---- instrumentation callbacks
void __tsan_init(){}
void __tsan_func_entry(void* pc){ Thr* t=self_t; if(t){ if(t->depth<256&&t->depth>=0) t->pcs[t->depth]=pc; t->depth++; } }
void __tsan_func_exit(){ Thr* t=self_t; if(t) t->depth--; }
#define RW(N) void __tsan_read##N(void*p){acc((uintptr_t)p,N,false,false,PC);} void __tsan_write##N(void*p){acc((uintptr_t)p,N,true,false,PC);} \
 void __tsan_unaligned_read##N(void*p){acc((uintptr_t)p,N,false,false,PC);} void __tsan_unaligned_write##N(void*p){acc((uintptr_t)p,N,true,false,PC);} \
 void __tsan_volatile_read##N(void*p){acc((uintptr_t)p,N,false,false,PC);} void __tsan_volatile_write##N(void*p){acc((uintptr_t)p,N,true,false,PC);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*p,size_t n){ range(p,n,false,PC); }
void __tsan_write_range(void*p,size_t n){ range(p,n,true,PC); }
void __tsan_vptr_read(void**p){ acc((uintptr_t)p,8,false,false,PC); }
void __tsan_vptr_update(void**p,void*v){ if(*p!=v) acc((uintptr_t)p,8,true,false,PC); }
static void a_sync(const volatile void* p,int mo,bool ld,bool st){ Thr* t=self_t; if(!t||!g_active||t->harness) return; sync_stall(t); if(ld&&(mo==__ATOMIC_ACQUIRE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST||mo==__ATOMIC_CONSUME)) acquire_sync((const void*)p); if(st&&(mo==__ATOMIC_RELEASE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST)) release_sync((const void*)p); }
#define AT(T,B) \
 T __tsan_atomic##B##_load(const volatile T*p,int mo){ acc((uintptr_t)p,sizeof(T),false,true,PC); T v=*p; a_sync(p,mo,true,false); return v; } \
 void __tsan_atomic##B##_store(volatile T*p,T v,int mo){ acc((uintptr_t)p,sizeof(T),true,true,PC); a_sync(p,mo,false,true); *p=v; } \
 T __tsan_atomic##B##_exchange(volatile T*p,T v,int mo){ acc((uintptr_t)p,sizeof(T),true,true,PC); a_sync(p,mo,true,true); T o=*p; *p=v; return o; } \
 T __tsan_atomic##B##_fetch_add(volatile T*p,T v,int mo){ acc((uintptr_t)p,sizeof(T),true,true,PC); a_sync(p,mo,true,true); T o=*p; *p=o+v; return o; } \
 T __tsan_atomic##B##_fetch_sub(volatile T*p,T v,int mo){ acc((uintptr_t)p,sizeof(T),true,true,PC); a_sync(p,mo,true,true); T o=*p; *p=o-v; return o; } \
 T __tsan_atomic##B##_fetch_and(volatile T*p,T v,int mo){ acc((uintptr_t)p,sizeof(T),true,true,PC); a_sync(p,mo,true,true); T o=*p; *p=o&v; return o; } \
 T __tsan_atomic##B##_fetch_or(volatile T*p,T v,int mo){ acc((uintptr_t)p,sizeof(T),true,true,PC); a_sync(p,mo,true,true); T o=*p; *p=o|v; return o; } \
 T __tsan_atomic##B##_fetch_xor(volatile T*p,T v,int mo){ acc((uintptr_t)p,sizeof(T),true,true,PC); a_sync(p,mo,true,true); T o=*p; *p=o^v; return o; } \
 T __tsan_atomic##B##_fetch_nand(volatile T*p,T v,int mo){ acc((uintptr_t)p,sizeof(T),true,true,PC); a_sync(p,mo,true,true); T o=*p; *p=~(o&v); return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T*p,T*e,T v,int mo,int fmo){ (void)fmo; acc((uintptr_t)p,sizeof(T),true,true,PC); T o=*p; if(o==*e){ a_sync(p,mo,true,true); *p=v; return 1; } a_sync(p,mo,true,false); *e=o; return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T*p,T*e,T v,int mo,int fmo){ return __tsan_atomic##B##_compare_exchange_strong(p,e,v,mo,fmo); } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T*p,T e,T v,int mo,int fmo){ __tsan_atomic##B##_compare_exchange_strong(p,&e,v,mo,fmo); return e; }
AT(u8,8) AT(uint16_t,16) AT(u32,32) AT(u64,64)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
// mem* of the repository's objects (symbols redefined after compilation)
void* sim_memcpy(void*d,const void*s,size_t n){ range(s,n,false,PC); range(d,n,true,PC); return memcpy(d,s,n); }
void* sim_memmove(void*d,const void*s,size_t n){ range(s,n,false,PC); range(d,n,true,PC); return memmove(d,s,n); }
void* sim_memset(void*d,int c,size_t n){ range(d,n,true,PC); return memset(d,c,n); }
char* sim_strcpy(char*d,const char*s){ size_t n=strlen(s)+1; range(s,n,false,PC); range(d,n,true,PC); return strcpy(d,s); }
char* sim_strcat(char*d,const char*s){ size_t l=strlen(d),n=strlen(s)+1; range(s,n,false,PC); range(d+l,n,true,PC); return strcat(d,s); }
}
