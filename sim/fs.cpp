// In-memory file system behind libc's file API, with fault injection.
#include "internal.h"
#include <memory>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <limits.h>
#include <algorithm>
#include <wchar.h>

namespace sim {
const char* op_name[OP_OPS]={"open","read","write","close","seek","stat","access","mkdir","opendir","readdir","realpath","unlink","rename","truncate","thread-create","trylock","sync","allocation"};
FaultCfg faults;
struct Ino { bool dir=false; int mode=0644; std::string data; std::map<std::string,std::shared_ptr<Ino>> kids; u64 ino=0; i64 limit=-1; int limerr=0; };
typedef std::shared_ptr<Ino> In;
struct Fd { In in; i64 pos=0; i64 wrote=0; int flags=0; std::string path; FILE* fp=nullptr; char* buf=nullptr; };
static In* g_root; static std::string* g_cwd; static std::map<int,Fd>* g_fds; static std::map<FILE*,int>* g_files; static int g_nextfd; static u64 g_ino; static u64 g_ops;
static std::vector<fs::Event>* g_log; static int g_bufsize=0; static int g_dirs=0; static std::function<void(Op,const std::string&)>* g_onop; static i64 g_written; static bool g_dead_dev;
static const int FD0=1000;

static std::vector<std::string> split(const std::string& p){ std::vector<std::string> v; std::string c; auto fl=[&]{ if(c.empty()||c=="."){} else if(c==".."){ if(!v.empty()) v.pop_back(); } else v.push_back(c); c.clear(); }; for(char ch:p){ if(ch=='/') fl(); else c+=ch; } fl(); return v; }
static std::string absp(const char* p){ std::string s=p; if(s.empty()||s[0]!='/') s=*g_cwd+"/"+s; std::string r; for(auto&x:split(s)) r+="/"+x; return r.empty()?"/":r; }
// resolves literally (".." through missing directories fails as on a real system)
static int walk(const char* p,In& out,In* parent,std::string* leaf){
  if(!*p) return ENOENT; if(strlen(p)>=PATH_MAX) return ENAMETOOLONG;
  std::vector<In> st; st.push_back(*g_root);
  auto run=[&](const std::string& s,bool last_ok)->int{
    std::vector<std::string> v; std::string c; for(char ch:s){ if(ch=='/'){ if(!c.empty()) v.push_back(c); c.clear(); } else c+=ch; } if(!c.empty()) v.push_back(c);
    for(size_t i=0;i<v.size();i++){ if(v[i].size()>255) return ENAMETOOLONG; if(!st.back()->dir) return ENOTDIR; if(v[i]==".") continue; if(v[i]==".."){ if(st.size()>1) st.pop_back(); continue; }
      if(!(st.back()->mode&0100)) return EACCES;
      auto it=st.back()->kids.find(v[i]); bool last=last_ok&&i+1==v.size();
      if(it==st.back()->kids.end()){ if(last&&parent){ *parent=st.back(); *leaf=v[i]; } return last?-ENOENT:ENOENT; }
      if(last&&parent){ *parent=st.back(); *leaf=v[i]; } st.push_back(it->second); }
    return 0; };
  std::string s=p; if(s[0]!='/'){ int e=run(*g_cwd,false); if(e) return e<0?-e:e; }
  int e=run(s,true); if(e) return e; if(s.size()>1&&s.back()=='/'&&!st.back()->dir) return ENOTDIR; out=st.back(); return 0;
}
static void ev(Op o,const std::string& p,int err,i64 res){ hash_mix(((u64)o<<56)^((u64)err<<40)^(u64)res); hash_bytes(p.data(),p.size()); Thr*t=self_t; if(g_log->size()<200000) g_log->push_back(fs::Event{o,p,err,res,t?t->id:-1,g_steps}); }
static void pre(Op o,const std::string& p){ g_ops++; if(g_onop&&*g_onop){ (*g_onop)(o,p); } }
// decides about a hard fault for this operation: 0 none, else choice in [1,n]
static int fault(Op o,int n){
  if(!faults.on) return 0; u64 idx=g_ops*8; int v=0;
  if(!replaying()){
    bool k=faults.kinds>>o&1;
    if(k && faults.die_at>=0 && (i64)g_ops>=faults.die_at) v=n;              // last code is EIO everywhere
    else if(hard_fault_allowed() && k){ u64 r=prng(K_FAULT,idx);
      if(faults.target_op>=0 && (i64)g_ops==faults.target_op) v=1+(int)((r>>20)%n);
      else if((int)(r%1000)<faults.permille[o]) v=1+(int)((r>>20)%n); } }
  v=(int)keyed(K_FAULT,idx,v); if(v>n) v=n; if(v) fault_fired(o,v); return v;
}
static u64 benign(int sub,int permille,u64 n){ // returns 0 or a value in [1,n]
  if(!faults.on||n==0) return 0; u64 idx=g_ops*8+1+sub; u64 r=prng(K_FAULT,idx);
  u64 v=keyed(K_FAULT,idx,(int)(r%1000)<permille?1+(r>>16)%n:0); return v>n?n:v;
}
static int pick(int c,std::initializer_list<int> l){ int i=0; for(int x:l) if(++i==c) return x; return EIO; }
static void lat(u64 ns=20000){ op_point(ns); }

namespace fs {
void reset(){ Harness h; if(!g_root){ g_root=new In(); g_cwd=new std::string("/"); g_fds=new std::map<int,Fd>(); g_files=new std::map<FILE*,int>(); g_log=new std::vector<Event>(); g_onop=new std::function<void(Op,const std::string&)>(); }
  *g_root=std::make_shared<Ino>(); (*g_root)->dir=true; (*g_root)->mode=0755; *g_cwd="/"; g_fds->clear(); g_files->clear(); g_nextfd=FD0; g_ino=1; g_ops=0; g_log->clear(); g_bufsize=0; g_dirs=0; *g_onop=nullptr; g_written=0; g_dead_dev=false; faults=FaultCfg(); }
static In mk(const std::string& p,bool dir,int mode){ In c=*g_root; auto v=split(p); for(size_t i=0;i<v.size();i++){ In& k=c->kids[v[i]]; if(!k){ k=std::make_shared<Ino>(); k->ino=++g_ino; bool d=i+1<v.size()||dir; k->dir=d; k->mode=i+1<v.size()?0755:mode; } c=k; } return c; }
static In find(const std::string& p){ In c=*g_root; for(auto&s:split(p)){ auto it=c->kids.find(s); if(it==c->kids.end()) return nullptr; c=it->second; } return c; }
void put(const std::string& p,const std::string& d,int mode){ Harness h; In i=mk(p,false,mode); i->data=d; i->mode=mode; }
void mkdirs(const std::string& p,int mode){ Harness h; In i=mk(p,true,mode); i->mode=mode; }
bool get(const std::string& p,std::string& o){ Harness h; In i=find(p); if(!i||i->dir) return false; o=i->data; return true; }
bool exists(const std::string& p){ Harness h; return !!find(p); }
bool is_dir(const std::string& p){ Harness h; In i=find(p); return i&&i->dir; }
void chmod(const std::string& p,int m){ Harness h; In i=find(p); if(i) i->mode=m; }
void remove(const std::string& p){ Harness h; auto v=split(p); if(v.empty()) return; std::string l=v.back(); v.pop_back(); In c=*g_root; for(auto&s:v){ auto it=c->kids.find(s); if(it==c->kids.end()) return; c=it->second; } c->kids.erase(l); }
void set_cwd(const std::string& p){ Harness h; *g_cwd=p; }
static void rec(const In& i,const std::string& p,std::vector<std::string>& v){ for(auto&k:i->kids){ v.push_back(p+"/"+k.first+(k.second->dir?"/":"")); if(k.second->dir) rec(k.second,p+"/"+k.first,v); } }
std::vector<std::string> list_all(){ Harness h; std::vector<std::string> v; rec(*g_root,"",v); return v; }
static void dg(const In& i,u64& x){ for(auto&k:i->kids){ x=x*1099511628211ull^bytes_hash(k.first.data(),k.first.size()); if(k.second->dir){ x+=7; dg(k.second,x); x+=13; } else x=x*31+bytes_hash(k.second->data.data(),k.second->data.size()); } }
u64 digest(){ Harness h; u64 x=99; dg(*g_root,x); return x; }
int open_handles(){ return (int)g_fds->size()+g_dirs; }
const std::vector<Event>& log(){ return *g_log; }
void clear_log(){ Harness h; g_log->clear(); }
void read_limit(const std::string& p,i64 b,int e){ Harness h; In i=find(p); if(i){ i->limit=b; i->limerr=e; } }
void set_bufsize(int n){ g_bufsize=n; }
u64 ops(){ return g_ops; }
void on_op(std::function<void(Op,const std::string&)> f){ Harness h; *g_onop=f; }
}
void random_bufsize(){ static const int B[]={0,4096,64,1,512,7,65536,1024}; fs::set_bufsize(B[wl(8)]); }
void fs_begin(){ fs::reset(); }

static int do_open(const char* path,int flags,int mode){
  lat(); Harness h; std::string ap=absp(path); pre(OP_OPEN,ap); bool wr=(flags&O_ACCMODE)!=O_RDONLY;
  int f=fault(OP_OPEN,wr?6:4); if(f){ int e=wr?pick(f,{EACCES,EMFILE,ENOSPC,EROFS,ENFILE,EIO}):pick(f,{EACCES,EMFILE,ENOENT,EIO}); ev(OP_OPEN,ap,e,-1); errno=e; return -1; }
  In in,par; std::string leaf; int e=walk(path,in,&par,&leaf);
  if(e==-ENOENT){ if(!(flags&O_CREAT)) e=ENOENT; else if(path[strlen(path)-1]=='/') e=EISDIR; else if(!(par->mode&0200)) e=EACCES; else { in=std::make_shared<Ino>(); in->ino=++g_ino; in->mode=mode&0777; par->kids[leaf]=in; e=0; } }
  else if(e==0){ if((flags&O_CREAT)&&(flags&O_EXCL)) e=EEXIST; else if(in->dir&&wr) e=EISDIR; else if(!in->dir&&(flags&O_DIRECTORY)) e=ENOTDIR; else if(!(in->mode&0400)&&(flags&O_ACCMODE)!=O_WRONLY) e=EACCES; else if(wr&&!(in->mode&0200)) e=EACCES; }
  if(e){ if(e<0) e=-e; ev(OP_OPEN,ap,e,-1); errno=e; return -1; }
  if((flags&O_TRUNC)&&wr) in->data.clear();
  int fd=g_nextfd++; Fd& d=(*g_fds)[fd]; d.in=in; d.flags=flags; d.path=ap; d.pos=0; ev(OP_OPEN,ap,0,wr); return fd;
}
static Fd* fdp(int fd){ auto it=g_fds->find(fd); return it==g_fds->end()?nullptr:&it->second; }
static ssize_t do_read(int fd,void* buf,size_t n,i64 off=-1){
  lat(); Harness h; Fd* d=fdp(fd); if(!d){ errno=EBADF; return -1; } pre(OP_READ,d->path);
  if(d->in->dir){ errno=EISDIR; return -1; } if((d->flags&O_ACCMODE)==O_WRONLY){ errno=EBADF; return -1; }
  i64 pos=off>=0?off:d->pos; i64 size=d->in->data.size(), avail=std::max<i64>(0,size-pos); size_t k=std::min<i64>(n,avail); bool whole=true; (void)whole;
  if(k||avail){ // reads at end of file cannot fail in a way that matters less; still they can fail too
  }
  int f=fault(OP_READ,1); if(f){ ev(OP_READ,d->path,EIO,-1); errno=EIO; return -1; }
  if(d->in->limit>=0){ if(pos>=d->in->limit){ if(d->in->limerr){ S->faults[OP_READ]++; errno=d->in->limerr; ev(OP_READ,d->path,errno,-1); return -1; } k=0; } else k=std::min<i64>(k,d->in->limit-pos); }
  if(k>1){ u64 s=benign(0,faults.short_permille_read,k-1); if(s){ k=(size_t)s; S->shorts++; } }
  if(k>0){ u64 s=benign(1,faults.truncate_permille,1); if(s){ S->truncs++; d->in->data.resize(pos); k=0; } }
  memcpy(buf,d->in->data.data()+std::min<i64>(pos,size),k); if(off<0) d->pos+=k; ev(OP_READ,d->path,0,k); return k;
}
static ssize_t do_write(int fd,const void* buf,size_t n,i64 off=-1){
  lat(); Harness h; Fd* d=fdp(fd); if(!d||(d->flags&O_ACCMODE)==O_RDONLY){ errno=EBADF; return -1; } pre(OP_WRITE,d->path); if(n==0) return 0;
  int f=fault(OP_WRITE,3); size_t k=n; int e=0;
  if(f){ e=pick(f,{ENOSPC,EDQUOT,EIO}); u64 torn=benign(2,1000,n); k=torn?torn-1:0; if(k>=n) k=n-1; if(k==0){ ev(OP_WRITE,d->path,e,-1); errno=e; return -1; }
    // torn: part of the data arrives, the continuation fails
    d->in->limerr=d->in->limerr; }
  else { if(n>1){ u64 s=benign(0,faults.short_permille_write,n-1); if(s){ k=(size_t)s; S->shorts++; } }
    if(faults.on&&faults.capacity>=0){ i64 left=faults.capacity-g_written; if(left<=0){ fault_fired(OP_WRITE,9); ev(OP_WRITE,d->path,ENOSPC,-1); errno=ENOSPC; return -1; } k=std::min<i64>(k,left); } }
  std::string& s=d->in->data; i64 pos=off>=0?off:((d->flags&O_APPEND)?(i64)s.size():d->pos);
  if((i64)s.size()<pos+(i64)k) s.resize(pos+k); memcpy(&s[pos],buf,k); d->wrote+=k; if(off<0) d->pos=pos+k; g_written+=k;
  ev(OP_WRITE,d->path,0,k);
  if(e){ errno=e; return (ssize_t)k | (1ll<<62); } // marker for callers: partial then error
  return k;
}
static ssize_t sys_write(int fd,const void* b,size_t n){ // one write(2): a torn write reports its short count, the error comes with the next call
  static int pend_fd=-1,pend_err=0; static u64 pend_run=0; (void)pend_run;
  if(pend_fd==fd&&pend_err){ Harness h; errno=pend_err; pend_err=0; lat(); ev(OP_WRITE,"",errno,-1); return -1; }
  ssize_t r=do_write(fd,b,n); if(r>0&&(r>>62)){ pend_fd=fd; pend_err=errno; r&=~(1ll<<62); } return r;
}
static int do_close(int fd){
  lat(); Harness h; Fd* d=fdp(fd); if(!d){ errno=EBADF; return -1; } pre(OP_CLOSE,d->path); bool wr=(d->flags&O_ACCMODE)!=O_RDONLY; std::string p=d->path;
  int f=fault(OP_CLOSE,wr?3:1);
  if(f&&wr&&d->wrote>0&&!d->in->data.empty()){ u64 n=d->in->data.size(); u64 lost=1+keyed(K_FAULT,g_ops*8+5,prng(K_FAULT,g_ops*8+5)%(n>4096?4096:n))%n; d->in->data.resize(n-lost); hash_mix(lost); } // delayed writes that never made it
  g_fds->erase(fd); // the descriptor is gone either way
  if(f){ int e=wr?pick(f,{ENOSPC,EDQUOT,EIO}):EIO; ev(OP_CLOSE,p,e,-1); errno=e; return -1; } ev(OP_CLOSE,p,0,0); return 0;
}
static i64 do_seek(int fd,i64 off,int wh,bool raw){ // lseek(2) of an open regular file does not fail; fseek(3) does when it has to read
  lat(200); Harness h; Fd* d=fdp(fd); if(!d){ errno=EBADF; return -1; } pre(OP_SEEK,d->path); int f=raw?0:fault(OP_SEEK,1); if(f){ ev(OP_SEEK,d->path,EIO,-1); errno=EIO; return -1; }
  i64 b=wh==SEEK_SET?0:wh==SEEK_CUR?d->pos:(i64)d->in->data.size(); if(b+off<0){ errno=EINVAL; return -1; } d->pos=b+off; ev(OP_SEEK,d->path,0,d->pos); return d->pos;
}
static void fill(const In& in,struct stat* st){ memset(st,0,sizeof *st); st->st_mode=(in->dir?S_IFDIR:S_IFREG)|in->mode; st->st_size=in->dir?4096:(i64)in->data.size(); st->st_ino=in->ino+100; st->st_dev=7; st->st_nlink=1; st->st_uid=1000; st->st_gid=1000; st->st_blksize=4096; st->st_blocks=(st->st_size+511)/512; }
static int do_stat(const char* path,struct stat* st){
  lat(); Harness h; std::string ap=absp(path); pre(OP_STAT,ap); int f=fault(OP_STAT,3); if(f){ int e=pick(f,{EACCES,ELOOP,EIO}); ev(OP_STAT,ap,e,-1); errno=e; return -1; }
  In in; int e=walk(path,in,nullptr,nullptr); if(e){ e=abs(e); ev(OP_STAT,ap,e,-1); errno=e; return -1; } fill(in,st); ev(OP_STAT,ap,0,in->dir); return 0;
}
static int do_access(const char* path,int m){
  lat(); Harness h; std::string ap=absp(path); pre(OP_ACCESS,ap); int f=fault(OP_ACCESS,2); if(f){ int e=pick(f,{EACCES,EIO}); ev(OP_ACCESS,ap,e,-1); errno=e; return -1; }
  In in; int e=walk(path,in,nullptr,nullptr); if(e){ e=abs(e); ev(OP_ACCESS,ap,e,-1); errno=e; return -1; }
  if(((m&R_OK)&&!(in->mode&0400))||((m&W_OK)&&!(in->mode&0200))||((m&X_OK)&&!(in->mode&0100))){ ev(OP_ACCESS,ap,EACCES,-1); errno=EACCES; return -1; } ev(OP_ACCESS,ap,0,m); return 0;
}
static int do_mkdir(const char* path,int mode){
  lat(); Harness h; std::string ap=absp(path); pre(OP_MKDIR,ap); int f=fault(OP_MKDIR,4); if(f){ int e=pick(f,{EACCES,ENOSPC,EROFS,EIO}); ev(OP_MKDIR,ap,e,-1); errno=e; return -1; }
  std::string s=path; while(s.size()>1&&s.back()=='/') s.pop_back(); In in,par; std::string leaf; int e=walk(s.c_str(),in,&par,&leaf);
  if(e==0) e=EEXIST; else if(e==-ENOENT){ if(!(par->mode&0200)) e=EACCES; else { In k=std::make_shared<Ino>(); k->dir=true; k->mode=mode&0777&~022; k->ino=++g_ino; par->kids[leaf]=k; e=0; } }
  if(e){ ev(OP_MKDIR,ap,e,-1); errno=e; return -1; } ev(OP_MKDIR,ap,0,0); return 0;
}
static int do_unlink(const char* path,int want){ // want 0 file 1 dir 2 any
  lat(); Harness h; std::string ap=absp(path); pre(OP_UNLINK,ap); int f=fault(OP_UNLINK,2); if(f){ int e=pick(f,{EACCES,EIO}); ev(OP_UNLINK,ap,e,-1); errno=e; return -1; }
  In in,par; std::string leaf; int e=walk(path,in,&par,&leaf); if(e) e=abs(e); else if(!par) e=EBUSY; else if(in->dir&&want==0) e=EISDIR; else if(!in->dir&&want==1) e=ENOTDIR; else if(in->dir&&!in->kids.empty()) e=ENOTEMPTY; else if(!(par->mode&0200)) e=EACCES;
  if(!e) par->kids.erase(leaf); ev(OP_UNLINK,ap,e,0); if(e){ errno=e; return -1; } return 0;
}
static int do_rename(const char* a,const char* b){
  lat(); Harness h; std::string ap=absp(a); pre(OP_RENAME,ap); int f=fault(OP_RENAME,2); if(f){ int e=pick(f,{EACCES,EIO}); ev(OP_RENAME,ap,e,-1); errno=e; return -1; }
  In i1,p1,i2,p2; std::string l1,l2; int e=walk(a,i1,&p1,&l1); if(e) e=abs(e); else { e=walk(b,i2,&p2,&l2); if(e==-ENOENT) e=0; else if(e==0&&i2->dir!=i1->dir) e=i2->dir?EISDIR:ENOTDIR; else if(e==0&&i2->dir&&!i2->kids.empty()) e=ENOTEMPTY; }
  if(!e){ if(!(p1->mode&0200)||!(p2->mode&0200)) e=EACCES; else { p1->kids.erase(l1); p2->kids[l2]=i1; } } ev(OP_RENAME,ap+"->"+absp(b),e,0); if(e){ errno=e; return -1; } return 0;
}
// ---- stdio
struct Ck { int fd; };
static ssize_t ck_read(void* c,char* b,size_t n){ Harness h; return do_read(((Ck*)c)->fd,b,n); }
static ssize_t ck_write(void* c,const char* b,size_t n){ Harness h; size_t done=0; while(done<n){ ssize_t r=sys_write(((Ck*)c)->fd,b+done,n-done); if(r<=0) return done?(ssize_t)done:0; done+=r; } return done; }
static int ck_seek(void* c,off64_t* o,int w){ Harness h; i64 r=do_seek(((Ck*)c)->fd,*o,w,false); if(r<0) return -1; *o=r; return 0; }
static int ck_close(void* c){ Harness h; int r=do_close(((Ck*)c)->fd); free(c); return r; }
static FILE* mkfile(int fd,const char* mode){
  Harness h; Ck* c=(Ck*)malloc(sizeof(Ck)); c->fd=fd; cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close}; FILE* f=fopencookie(c,mode,io); if(!f){ free(c); return nullptr; }
  Fd* d=fdp(fd); d->fp=f; (*g_files)[f]=fd; int n=g_bufsize?g_bufsize:4096; d->buf=(char*)malloc(n); if(n==1){ setvbuf(f,nullptr,_IONBF,0); } else setvbuf(f,d->buf,_IOFBF,n); return f;
}
static int mflags(const char* m){ int fl; bool plus=strchr(m,'+'); switch(m[0]){ case 'r': fl=plus?O_RDWR:O_RDONLY; break; case 'w': fl=(plus?O_RDWR:O_WRONLY)|O_CREAT|O_TRUNC; break; case 'a': fl=(plus?O_RDWR:O_WRONLY)|O_CREAT|O_APPEND; break; default: return -1; } if(strchr(m,'x')) fl|=O_EXCL; return fl; }
template<class F> static F realf(const char* n){ return (F)dlsym(RTLD_NEXT,n); }
#define REAL(name) (__extension__({ static decltype(&::name) f_; if(!f_) f_=sim::realf<decltype(&::name)>(#name); f_; }))
struct Dir { int magic; std::vector<std::pair<std::string,bool>> e; size_t i; struct dirent d; std::string path; };
}
using namespace sim;
#define SIMFD(fd) (simthr() && (fd)>=FD0 && g_fds)
extern "C" {
FILE* fopen(const char* p,const char* m){ if(!simthr()) return REAL(fopen)(p,m); int fl=mflags(m); if(fl<0){ errno=EINVAL; return nullptr; } int fd=do_open(p,fl,0644); if(fd<0) return nullptr; return mkfile(fd,m); }
FILE* fopen64(const char* p,const char* m){ return fopen(p,m); }
FILE* fdopen(int fd,const char* m){ if(!SIMFD(fd)) return REAL(fdopen)(fd,m); if(!fdp(fd)){ errno=EBADF; return nullptr; } return mkfile(fd,m); }
FILE* freopen(const char* p,const char* m,FILE* f){ Thr* t=simthr(); if(!t) return REAL(freopen)(p,m,f); int fd; { Harness h; auto it=g_files->find(f); if(it==g_files->end()) return nullptr; fd=it->second; g_files->erase(it);} (void)fd; fclose(f); return fopen(p,m); }
int fclose(FILE* f){ Thr* t=simthr(); if(!t) return REAL(fclose)(f); char* buf=nullptr; { Harness h; auto it=g_files->find(f); if(it!=g_files->end()){ Fd* d=fdp(it->second); if(d) buf=d->buf; g_files->erase(it);} else if(f!=stdin&&f!=stdout&&f!=stderr) violation("bad-fclose","fclose of a stream that is not open%s",backtrace_text(2).c_str()); } int r=REAL(fclose)(f); if(buf){ int e=errno; Harness h; free(buf); errno=e; } return r; }
int fileno(FILE* f){ if(simthr()&&g_files){ Harness h; auto it=g_files->find(f); if(it!=g_files->end()) return it->second; } return REAL(fileno)(f); }
int isatty(int fd){ if(SIMFD(fd)){ errno=ENOTTY; return 0; } if(simthr()) { errno=ENOTTY; return 0; } return REAL(isatty)(fd); }
int open(const char* p,int fl,...){ va_list a; va_start(a,fl); int m=(fl&O_CREAT)?va_arg(a,int):0; va_end(a); if(!simthr()) return (int)syscall(SYS_openat,AT_FDCWD,p,fl,m); return do_open(p,fl,m); }
int open64(const char* p,int fl,...){ va_list a; va_start(a,fl); int m=(fl&O_CREAT)?va_arg(a,int):0; va_end(a); if(!simthr()) return (int)syscall(SYS_openat,AT_FDCWD,p,fl,m); return do_open(p,fl,m); }
int __open_2(const char* p,int fl){ return open(p,fl); } int __open64_2(const char* p,int fl){ return open(p,fl); }
int creat(const char* p,mode_t m){ return open(p,O_CREAT|O_WRONLY|O_TRUNC,m); }
ssize_t read(int fd,void* b,size_t n){ if(!SIMFD(fd)) return syscall(SYS_read,fd,b,n); return do_read(fd,b,n); }
ssize_t __read_chk(int fd,void* b,size_t n,size_t){ return read(fd,b,n); }
ssize_t write(int fd,const void* b,size_t n){ if(!SIMFD(fd)) return syscall(SYS_write,fd,b,n); return sys_write(fd,b,n); }
ssize_t pread(int fd,void* b,size_t n,off_t o){ if(!SIMFD(fd)) return syscall(SYS_pread64,fd,b,n,o); return do_read(fd,b,n,o); }
ssize_t pread64(int fd,void* b,size_t n,off_t o){ return pread(fd,b,n,o); }
ssize_t pwrite(int fd,const void* b,size_t n,off_t o){ if(!SIMFD(fd)) return syscall(SYS_pwrite64,fd,b,n,o); return do_write(fd,b,n,o)&~(1ll<<62); }
ssize_t pwrite64(int fd,const void* b,size_t n,off_t o){ return pwrite(fd,b,n,o); }
ssize_t writev(int fd,const struct iovec* v,int c){ if(!SIMFD(fd)) return syscall(SYS_writev,fd,v,c); ssize_t s=0; for(int i=0;i<c;i++){ ssize_t r=sys_write(fd,v[i].iov_base,v[i].iov_len); if(r<0) return s?s:-1; s+=r; if((size_t)r<v[i].iov_len) break; } return s; }
int close(int fd){ if(!SIMFD(fd)) return (int)syscall(SYS_close,fd); return do_close(fd); }
off_t lseek(int fd,off_t o,int w){ if(!SIMFD(fd)) return syscall(SYS_lseek,fd,o,w); return do_seek(fd,o,w,true); }
off_t lseek64(int fd,off_t o,int w){ return lseek(fd,o,w); }
int fstat(int fd,struct stat* st){ if(!SIMFD(fd)) return (int)syscall(SYS_fstat,fd,st); Fd* d=fdp(fd); if(!d){ errno=EBADF; return -1; } lat(200); Harness h; pre(OP_STAT,d->path); if(fault(OP_STAT,1)){ ev(OP_STAT,d->path,EIO,-1); errno=EIO; return -1; } fill(d->in,st); ev(OP_STAT,d->path,0,2); return 0; }
int fstat64(int fd,struct stat64* st){ return fstat(fd,(struct stat*)st); }
int stat(const char* p,struct stat* st){ if(!simthr()) return (int)syscall(SYS_stat,p,st); return do_stat(p,st); }
int stat64(const char* p,struct stat64* st){ return stat(p,(struct stat*)st); }
int lstat(const char* p,struct stat* st){ if(!simthr()) return (int)syscall(SYS_lstat,p,st); return do_stat(p,st); }
int lstat64(const char* p,struct stat64* st){ return lstat(p,(struct stat*)st); }
int fstatat(int d,const char* p,struct stat* st,int fl){ if(!simthr()) return (int)syscall(SYS_newfstatat,d,p,st,fl); return do_stat(p,st); }
int access(const char* p,int m){ if(!simthr()) return (int)syscall(SYS_access,p,m); return do_access(p,m); }
int faccessat(int d,const char* p,int m,int fl){ if(!simthr()) return (int)syscall(SYS_faccessat,d,p,m,fl); return do_access(p,m); }
int euidaccess(const char* p,int m){ return access(p,m); } int eaccess(const char* p,int m){ return access(p,m); }
uid_t getuid(void){ return simthr()?1000:(uid_t)syscall(SYS_getuid); } uid_t geteuid(void){ return simthr()?1000:(uid_t)syscall(SYS_geteuid); }
gid_t getgid(void){ return simthr()?1000:(gid_t)syscall(SYS_getgid); } gid_t getegid(void){ return simthr()?1000:(gid_t)syscall(SYS_getegid); }
int mkdir(const char* p,mode_t m){ if(!simthr()) return (int)syscall(SYS_mkdir,p,m); return do_mkdir(p,m); }
int rmdir(const char* p){ if(!simthr()) return (int)syscall(SYS_rmdir,p); return do_unlink(p,1); }
int unlink(const char* p){ if(!simthr()) return (int)syscall(SYS_unlink,p); return do_unlink(p,0); }
int remove(const char* p){ if(!simthr()) return REAL(remove)(p); return do_unlink(p,2); }
int rename(const char* a,const char* b){ if(!simthr()) return (int)syscall(SYS_rename,a,b); return do_rename(a,b); }
int fchmod(int fd,mode_t m){ if(!SIMFD(fd)) return (int)syscall(SYS_fchmod,fd,m); Harness h; Fd*d=fdp(fd); if(d) d->in->mode=m&0777; return 0; }
int chmod(const char* p,mode_t m){ if(!simthr()) return (int)syscall(SYS_chmod,p,m); Harness h; In in; int e=walk(p,in,nullptr,nullptr); if(e){ errno=abs(e); return -1; } in->mode=m&0777; return 0; }
int ftruncate(int fd,off_t n){ if(!SIMFD(fd)) return (int)syscall(SYS_ftruncate,fd,n); lat(); Harness h; Fd*d=fdp(fd); if(!d){ errno=EBADF; return -1; } pre(OP_TRUNC,d->path); if(fault(OP_TRUNC,1)){ errno=EIO; return -1; } d->in->data.resize(n); ev(OP_TRUNC,d->path,0,n); return 0; }
int ftruncate64(int fd,off_t n){ return ftruncate(fd,n); }
int fsync(int fd){ if(!SIMFD(fd)) return (int)syscall(SYS_fsync,fd); lat(1000000); Harness h; Fd*d=fdp(fd); if(!d){ errno=EBADF; return -1; } pre(OP_SYNC,d->path); if(fault(OP_SYNC,2)){ errno=EIO; ev(OP_SYNC,d->path,EIO,-1); return -1; } ev(OP_SYNC,d->path,0,0); return 0; }
int fdatasync(int fd){ return fsync(fd); }
void* mmap(void* a,size_t n,int pr,int fl,int fd,off_t o){ if(fd>=FD0&&SIMFD(fd)){ errno=ENODEV; return MAP_FAILED; } long r=syscall(SYS_mmap,a,n,pr,fl,fd,o); return (void*)r; }
void* mmap64(void* a,size_t n,int pr,int fl,int fd,off_t o){ return mmap(a,n,pr,fl,fd,o); }
char* getcwd(char* b,size_t n){ if(!simthr()){ long r=syscall(SYS_getcwd,b,n); return r<0?nullptr:b; } Harness h; lat(200); if(!b){ return strdup(g_cwd->c_str()); } if(g_cwd->size()+1>n){ errno=ERANGE; return nullptr; } strcpy(b,g_cwd->c_str()); return b; }
int chdir(const char* p){ if(!simthr()) return (int)syscall(SYS_chdir,p); Harness h; In in; int e=walk(p,in,nullptr,nullptr); if(e){ errno=abs(e); return -1; } if(!in->dir){ errno=ENOTDIR; return -1; } *g_cwd=absp(p); return 0; }
char* realpath(const char* p,char* out){ if(!simthr()) return REAL(realpath)(p,out);
  lat(); std::string ap; { Harness h; if(!p){ errno=EINVAL; return nullptr; } if(!*p){ errno=ENOENT; return nullptr; } ap=absp(p); pre(OP_REALPATH,ap); if(fault(OP_REALPATH,2)){ ev(OP_REALPATH,ap,EACCES,-1); errno=EACCES; return nullptr; } In in; int e=walk(p,in,nullptr,nullptr); if(e){ errno=abs(e); ev(OP_REALPATH,ap,errno,-1); return nullptr; } ev(OP_REALPATH,ap,0,0); }
  char* r=out?out:(char*)malloc(PATH_MAX); if(ap.size()>=PATH_MAX){ errno=ENAMETOOLONG; return nullptr; } strcpy(r,ap.c_str()); return r; }
char* __realpath_chk(const char* p,char* o,size_t){ return realpath(p,o); }
DIR* opendir(const char* p){ if(!simthr()) return REAL(opendir)(p);
  lat(); Harness h; std::string ap=absp(p); pre(OP_OPENDIR,ap); int f=fault(OP_OPENDIR,3); if(f){ int e=pick(f,{EACCES,EMFILE,EIO}); ev(OP_OPENDIR,ap,e,-1); errno=e; return nullptr; }
  In in; int e=walk(p,in,nullptr,nullptr); if(e) e=abs(e); else if(!in->dir) e=ENOTDIR; else if(!(in->mode&0400)) e=EACCES; if(e){ ev(OP_OPENDIR,ap,e,-1); errno=e; return nullptr; }
  Dir* d=new Dir(); d->magic=0x0d12; d->i=0; d->path=ap; d->e.push_back({".",true}); d->e.push_back({"..",true}); for(auto&k:in->kids) d->e.push_back({k.first,k.second->dir});
  u64 seed=draw(K_WL,1<<20); if(seed){ Rng r(seed); for(size_t i=d->e.size();i>1;i--) std::swap(d->e[i-1],d->e[r.below(i)]); }
  g_dirs++; ev(OP_OPENDIR,ap,0,d->e.size()); return (DIR*)d; }
struct dirent* readdir(DIR* dd){ Dir* d=(Dir*)dd; if(!simthr()||d->magic!=0x0d12) return REAL(readdir)(dd);
  lat(500); Harness h; pre(OP_READDIR,d->path); if(fault(OP_READDIR,1)){ ev(OP_READDIR,d->path,EIO,-1); errno=EIO; return nullptr; }
  if(d->i>=d->e.size()){ ev(OP_READDIR,d->path,0,0); return nullptr; } auto& e=d->e[d->i++]; memset(&d->d,0,sizeof d->d); d->d.d_ino=d->i+50; d->d.d_type=e.second?DT_DIR:DT_REG; snprintf(d->d.d_name,256,"%s",e.first.c_str()); ev(OP_READDIR,d->path,0,1); return &d->d; }
struct dirent64* readdir64(DIR* d){ return (struct dirent64*)readdir(d); }
int closedir(DIR* dd){ Dir* d=(Dir*)dd; if(!dd){ errno=EINVAL; return -1; } if(!simthr()||d->magic!=0x0d12) return REAL(closedir)(dd); Harness h; lat(200); d->magic=0; g_dirs--; delete d; return 0; }
}
