#include <dlfcn.h>
// sima build: AddressSanitizer + trace-pc steps.
#include "internal.h"
#include <cstring>
#include <cstdio>
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*,size_t),void (*f)(const volatile void*));
namespace sim {
static u32 g_fill=0; static u64 g_live=0,g_liveb=0; static bool g_track=false;
struct E { uintptr_t p; u64 n; }; static E* g_tab; static const size_t TN=1<<20; static u64 g_used=0;
static size_t slot(uintptr_t p){ return (size_t)((p>>4)*0x9e3779b97f4a7c15ull>>44)&(TN-1); }
static void mh(const volatile void* p,size_t n){
  if(!g_track||!self_t) return;
  { u8* b=(u8*)p; size_t f=n<65536?n:0; /* larger blocks may come zeroed from the system (calloc relies on it) */ if(!g_fill) memset(b,0xA5,f); else { u32 s=g_fill; for(size_t i=0;i<f;i++){ s=s*1664525u+1013904223u; b[i]=s>>24; } } }
  if(!prog()) return; if(g_used>TN*3/4) return;
  size_t i=slot((uintptr_t)p); while(g_tab[i].p>1) i=(i+1)&(TN-1); if(g_tab[i].p==0) g_used++; g_tab[i]=E{(uintptr_t)p,n}; g_live++; g_liveb+=n;
}
static void fh(const volatile void* p){
  if(!g_track||!p) return; size_t i=slot((uintptr_t)p); while(g_tab[i].p){ if(g_tab[i].p==(uintptr_t)p){ g_tab[i].p=1; g_live--; g_liveb-=g_tab[i].n; return; } i=(i+1)&(TN-1); }
}
static void report(const char* m){ if(!g_active) return; Harness h;
  std::string s(m); std::string cls="asan"; size_t a=s.find("AddressSanitizer: "); if(a!=std::string::npos){ size_t b=a+18; size_t e=s.find_first_of(" \n",b); cls="asan-"+s.substr(b,e-b); }
  for(size_t i=0;(i=s.find("==",i))!=std::string::npos;){ size_t j=i+2; while(j<s.size()&&isdigit((u8)s[j])) j++; if(j>i+2&&s.compare(j,2,"==")==0) s.erase(i,j+2-i); else i=j; } /* process ids differ between runs */ if(s.size()>6000) s.resize(6000); machine_violation(cls.c_str(),s); }
void alloc_begin_run(){ if(!g_tab){ g_tab=(E*)mmap(nullptr,TN*sizeof(E),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); __sanitizer_install_malloc_and_free_hooks(mh,fh); __asan_set_error_report_callback(report); }
  g_track=true; g_live=g_liveb=0; g_fill=0; }
void set_fill(u32 s){ g_fill=s; }
u64 live_bytes(){ return g_liveb; } u64 live_blocks(){ return g_live; } bool is_simt(){ return false; }
void rt_begin(){}
}
using namespace sim;
extern "C" {
extern char __executable_start;
void __sanitizer_cov_trace_pc(void){ Thr* t=self_t; if(!t||!g_active||t->harness) return;
  uintptr_t pc=(uintptr_t)__builtin_return_address(0)-(uintptr_t)&__executable_start; u32 h=(u32)(pc*2654435761u>>14)&0x3ffff; S->cov[h>>6]|=1ull<<(h&63); step(t); }
const char* __asan_default_options(){ return "detect_leaks=0:halt_on_error=1:abort_on_error=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:allocator_may_return_null=1:max_malloc_fill_size=0:detect_stack_use_after_return=0:symbolize=0:print_legend=0:log_path=/dev/null:malloc_context_size=8:quarantine_size_mb=64:max_allocation_size_mb=512:alloc_dealloc_mismatch=0:intercept_tls_get_addr=0:new_delete_type_mismatch=0"; }
}

// ---- memory running out: the executable's malloc comes before the sanitizer's, for the program and its libraries alike
namespace sim { bool alloc_fails(size_t,const void*); }
extern "C" {
void* __interceptor_malloc(size_t); void* __interceptor_calloc(size_t,size_t); void* __interceptor_realloc(void*,size_t);
__attribute__((no_sanitize_address)) void* malloc(size_t n){ return sim::alloc_fails(n,__builtin_return_address(0))?nullptr:__interceptor_malloc(n); }
__attribute__((no_sanitize_address)) void* calloc(size_t a,size_t b){ return sim::alloc_fails(a*b,__builtin_return_address(0))?nullptr:__interceptor_calloc(a,b); }
__attribute__((no_sanitize_address)) void* realloc(void* p,size_t n){ return n&&sim::alloc_fails(n,__builtin_return_address(0))?nullptr:__interceptor_realloc(p,n); }
void* _TIFFmalloc(ssize_t n){ static void* (*real)(ssize_t); if(!real) real=(void*(*)(ssize_t))dlsym(RTLD_NEXT,"_TIFFmalloc"); return faults.alloc_own&&sim::alloc_fails((size_t)n,__builtin_return_address(0))?nullptr:real(n); }
}
