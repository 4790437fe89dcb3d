// Image files under storage faults: saving, loading, damaged files.
#include "images.hpp"
#include "faulty.hpp"
#include "cameras/image_film.hpp"
#include "samplers/filter_box.hpp"
#include <memory>
#include <sys/mman.h>
using namespace hx;
static int g_w,g_h; 
static void dims(Rng& r,int& w,int& h,int lim=48){ switch(wl(6)){ default: w=1+(int)r.below(lim); h=1+(int)r.below(lim); break; case 1: w=1+(int)r.below(400); h=1+(int)r.below(3); break; case 2: w=1+(int)r.below(3); h=1+(int)r.below(400); break; case 3: w=1+(int)r.below(6); h=1+(int)r.below(6); break; case 4: w=100+(int)r.below(120); h=60+(int)r.below(80); break; } }
static bool save(const std::string& p,const std::string& ext,const Pic& pic){ std::vector<u32> d; { Harness h; d=pic.v; } char r=img_write(p.c_str(),ext.c_str(),pic.w,pic.h,d.data()); { Harness h; if(d!=pic.v) violation("caller-data","saving changed the caller's pixels"); } return r; }
static int jtol(const Pic& p){ (void)p; return 24; }
// one healthy save and load of the format: what the libraries initialise once is not counted later
static void warm(const std::string& ext){ Pic p; { Harness h; Rng r(7); p=make_pic(r,4,4,1,false); } std::string f="/warm."+ext; std::vector<u32> b(16); img_write(f.c_str(),ext.c_str(),4,4,p.v.data()); int w,h; img_valid(f.c_str(),ext.c_str()); img_dimensions(f.c_str(),ext.c_str(),&w,&h); img_read8(f.c_str(),ext.c_str(),b.data()); fs::remove(f); }
static const char* pick_ext(){ return EXTS[wl(EXTS.size())]; }
// ---- C08 / C09: saving
static void save_run(bool survive){
  Harness hh; std::string ext=pick_ext(); Rng r(content_seed()); int w,h; dims(r,w,h); bool jpg=ext=="jpg"||ext=="jpeg"; int style=jpg?1:(int)wl(3); Pic pic=make_pic(r,w,h,style,wl(3)==0); set_fill(1+(u32)r.below(1000)); sched.preempt=false;
  random_bufsize(); std::string dir=wl(2)?"/out":"/a/b.c/d"; fs::mkdirs(dir); std::string path=dir+"/img."+ext; fs::put(dir+"/other.txt","keep"); bool old=wl(3)==1; if(old){ std::string j; size_t n=r.below(300000); for(size_t i=0;i<n;i++) j+=(char)r.next(); fs::put(path,j); }
  auto prog_=[&](const std::function<void()>& f){ hh.t->harness--; Outcome o=guarded(f); hh.t->harness++; return o; };
  fs::set_cwd("/"); Outcome o=prog_([&]{ warm(ext); }); if(o.kind!=Outcome::RETURNED) violation("dies","warm-up save %s",describe(o).c_str());
  u64 base=live_blocks(); u64 baseb=live_bytes(); int hand=fs::open_handles(); auto snap=snapshot(); FaultMode m=pick_faults(true); u64 f0=faults_fired();
  char ret=0; o=prog_([&]{ ret=save(path,ext,pic); }); u64 ff=faults_fired()-f0; sample("save %dx%d %s (style %d%s) to %s: %s; %llu faults fired, returned %d",w,h,ext.c_str(),style,old?", over an old file":"",path.c_str(),m.name.c_str(),(unsigned long long)ff,(int)ret);
  heal(); if(ff||m.mode==1) nontrivial(); probe(ret?"save reported success":"save reported failure"); if(ff&&ret) probe("success in spite of a fault");
  if(o.kind!=Outcome::RETURNED) violation("dies","saving ended the process: %s",describe(o).c_str());
  if(fs::open_handles()!=hand) violation("handle-leak","%d handles more open after saving (returned %d)",fs::open_handles()-hand,(int)ret);
  only_changed(snap,path,"saving");
  if(ret!=0&&ret!=1) violation("return-value","saving returned %d",(int)ret);
  if(ret){ std::string d; Pic p; std::string why; if(!fs::get(path,d)) violation("lost-save","saving reported success but there is no file"); if(!decode_any(ext,d,p,why)) violation("lost-save","saving reported success but the file is damaged: %s (%zu bytes)",why.c_str(),d.size()); std::string e=diff(p,pic,jpg?jtol(pic):0,false); if(!e.empty()) violation("lost-save","saving reported success but %s",e.c_str()); }
  else if(!ff) violation("failed-save","saving failed on healthy storage (%s)",m.name.c_str());
  if(survive){
    if(live_blocks()!=base) violation("memory-leak","%lld blocks (%lld bytes) not given back after saving returned %d",(long long)(live_blocks()-base),(long long)(live_bytes()-baseb),(int)ret);
    char r2=0; o=prog_([&]{ r2=save(path,ext,pic); }); if(o.kind!=Outcome::RETURNED||!r2) violation("no-recovery","the repeated save on healthy storage failed (%s)",describe(o).c_str()); std::string d,why; Pic p; fs::get(path,d); if(!decode_any(ext,d,p,why)||!(why=diff(p,pic,jpg?jtol(pic):0,false)).empty()) violation("no-recovery","the repeated save left a wrong file: %s",why.c_str());
    if(fs::open_handles()!=hand||live_blocks()!=base) violation("memory-leak","after the repeated save %lld blocks and %d handles are left",(long long)(live_blocks()-base),fs::open_handles()-hand);
  }
}
SCENARIO("C08",save_faults,1){ save_run(false); }
SCENARIO("C09",save_survives,1){ save_run(true); }

// ---- buffers of exactly the size a reader may fill, with a guard behind
struct Buf { u32* p=nullptr; size_t n=0; void* map=nullptr; size_t mapn=0;
  Buf(size_t pixels):n(pixels){ size_t b=pixels*4; if(b<=(8u<<20)) p=(u32*)malloc(b?b:1); else { mapn=((b+4095)&~4095ull)+4096; map=mmap(nullptr,mapn,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(map==MAP_FAILED) harness_error("buffer"); mprotect((char*)map+mapn-4096,4096,PROT_NONE); p=(u32*)((char*)map+mapn-4096-b); } }
  ~Buf(){ if(map) munmap(map,mapn); else free(p); } 
  void fillp(u32 v){ if(n<=(2u<<20)) for(size_t i=0;i<n;i++) p[i]=v*(u32)(i*2654435761u+1); } };
struct Loaded { Outcome o; char valid=0,dim=0,read=0; int w=-7,h=-7; Pic pic; bool exact=true; };
static Loaded load(Harness& hh,const std::string& path,const std::string& ext,u32 pat,bool twice=false){
  Loaded l; auto prog_=[&](const std::function<void()>& f){ hh.t->harness--; Outcome o=guarded(f); hh.t->harness++; return o; };
  l.o=prog_([&]{ l.valid=img_valid(path.c_str(),ext.c_str()); l.dim=img_dimensions(path.c_str(),ext.c_str(),&l.w,&l.h); }); if(l.o.kind!=Outcome::RETURNED||!l.dim) return l;
  if(l.w<=0||l.h<=0||(i64)l.w*l.h>((i64)1<<31)/4) violation("bad-dimensions","dimensions reported as %d x %d",l.w,l.h);
  Buf b((size_t)l.w*l.h); b.fillp(pat); l.o=prog_([&]{ l.read=img_read8(path.c_str(),ext.c_str(),b.p); }); (void)twice;
  if(l.read&&b.n<=(2u<<20)){ l.pic.w=l.w; l.pic.h=l.h; l.pic.v.assign(b.p,b.p+b.n); } return l;
}
// ---- C09: loading under faults
static File8 setup_file(std::string& ext,std::string& path,Rng& r){ ext=pick_ext(); int w,h; dims(r,w,h,32); if(w>64&&h>64){ w=64; h=40; } File8 f=encode_any(ext,r,w,h,(int)wl(3)); random_bufsize(); fs::mkdirs("/in"); path="/in/pic."+ext; fs::put(path,f.data); return f; }
SCENARIO("C09",load_survives,1){
  Harness hh; Rng r(content_seed()); std::string ext,path; File8 f=setup_file(ext,path,r); set_fill(1+(u32)r.below(1000)); sched.preempt=false;
  auto prog_=[&](const std::function<void()>& fn){ hh.t->harness--; Outcome o=guarded(fn); hh.t->harness++; return o; };
  prog_([&]{ warm(ext); }); u64 base=live_blocks(); int hand=fs::open_handles(); auto snap=snapshot(); bool cut=wl(3)==1; size_t n=f.data.size(); if(cut){ n=(size_t)wl(f.data.size()+1); if(wl(2)) fs::read_limit(path,n,wl(2)?5:0); else fs::put(path,f.data.substr(0,n)); snap=snapshot(); }
  FaultMode m=pick_faults(false); u64 f0=faults_fired(); Loaded l=load(hh,path,ext,0x01010101); u64 ff=faults_fired()-f0; heal();
  sample("load %s %dx%d: %s%s; valid %d dimensions %d read %d",f.what.c_str(),f.pix.w,f.pix.h,m.name.c_str(),cut?" (cut)":"",l.valid,l.dim,l.read); if(ff||cut) nontrivial(); probe(l.read?"load reported success":"load reported failure");
  if(l.o.kind!=Outcome::RETURNED) violation("dies","loading ended the process: %s",describe(l.o).c_str());
  if(fs::open_handles()!=hand) violation("handle-leak","%d handles left open after loading (valid %d dimensions %d read %d)",fs::open_handles()-hand,l.valid,l.dim,l.read);
  if(live_blocks()!=base) violation("memory-leak","%lld blocks not given back after loading (valid %d dimensions %d read %d)",(long long)(live_blocks()-base),l.valid,l.dim,l.read);
  only_changed(snap,"","loading");
  fs::put(path,f.data); fs::read_limit(path,-1,0); Loaded k=load(hh,path,ext,0x02020202); if(k.o.kind!=Outcome::RETURNED||!k.valid||!k.dim||!k.read) violation("no-recovery","the repeated load on healthy storage failed: valid %d dimensions %d read %d",k.valid,k.dim,k.read);
  std::string e=diff(k.pic,f.pix,f.tol,true); if(!e.empty()) violation("no-recovery","the repeated load gave wrong pixels: %s",e.c_str());
}
// ---- C12
SCENARIO("C12",load_exact,3){
  Harness hh; Rng r(content_seed()); std::string ext,path; File8 f=setup_file(ext,path,r); set_fill(1+(u32)r.below(1000)); sched.preempt=false;
  int cutm=(int)wl(6); size_t n=f.data.size(),cut=n; char t[100]=""; bool lossy=false;
  if(cutm>=3){ cut=wl(2)?n-std::min<size_t>(n,(size_t)wl(40)):(size_t)wl(n); if(cutm==3){ fs::put(path,f.data.substr(0,cut)); snprintf(t,100," cut to %zu of %zu",cut,n); } else { fs::read_limit(path,cut,cutm==4?0:5); snprintf(t,100," %s after %zu of %zu bytes",cutm==4?"ends":"read error",cut,n); } lossy=cut<n; }
  FaultMode m=pick_faults(false); u64 f0=faults_fired(); Loaded l=load(hh,path,ext,0x01010101); u64 ff=faults_fired()-f0; heal();
  sample("load %s %dx%d: %s%s; %llu faults; valid %d dimensions %d read %d",f.what.c_str(),f.pix.w,f.pix.h,m.name.c_str(),t,(unsigned long long)ff,l.valid,l.dim,l.read); if(ff||lossy||m.mode==1) nontrivial(); probe(l.read?"load reported success":"load reported failure"); if(l.read&&(ff||lossy)) probe("success in spite of a fault or cut");
  if(l.o.kind!=Outcome::RETURNED) violation("dies","loading ended the process: %s",describe(l.o).c_str());
  if(l.dim&&(l.w!=f.pix.w||l.h!=f.pix.h)&&!(f.what.find("P3")!=std::string::npos||(ext=="ppm"&&lossy))) violation("wrong-dimensions","%s reported as %dx%d instead of %dx%d",f.what.c_str(),l.w,l.h,f.pix.w,f.pix.h);
  // a text image cut inside its last number cannot be told from a complete one
  bool unknowable=ext=="ppm"&&f.what.find("P3")!=std::string::npos&&(lossy);
  if(unknowable){ size_t e=f.data.find_last_not_of(" \n\t"); size_t b=f.data.find_last_of(" \n\t",e); if(cut<=b) unknowable=false; }
  if(l.read&&!unknowable){ std::string e=diff(l.pic,f.pix,f.tol,true); if(!e.empty()) violation("wrong-pixels","reading %s%s reported success but %s",f.what.c_str(),t,e.c_str()); }
  if(!ff&&!lossy&&(!l.read||!l.valid||!l.dim)) violation("refused","%s not read on healthy storage (%s): valid %d dimensions %d read %d",f.what.c_str(),m.name.c_str(),l.valid,l.dim,l.read);
}
SCENARIO("C12",load_rare,1){ // variants that may be refused, but not read wrongly
  Harness hh; Rng r(content_seed()); std::string ext=pick_ext(); int w,h; dims(r,w,h,32); if(w>64&&h>64){ w=64; h=40; } File8 f=encode_rare(ext,r,w,h,(int)wl(3)); std::string path="/in/pic."+ext; fs::mkdirs("/in"); fs::put(path,f.data); set_fill(1+(u32)r.below(1000)); sched.preempt=false; random_bufsize();
  FaultMode m=pick_faults(false); Loaded l=load(hh,path,ext,0x01010101); heal(); sample("load %s %dx%d: %s; valid %d dimensions %d read %d",f.what.c_str(),w,h,m.name.c_str(),l.valid,l.dim,l.read); nontrivial(); probe(l.read?"unusual variant accepted":"unusual variant refused");
  if(l.o.kind!=Outcome::RETURNED) violation("dies","loading ended the process: %s",describe(l.o).c_str());
  if(l.read){ if(l.w!=w||l.h!=h) violation("wrong-dimensions","%s reported as %dx%d instead of %dx%d",f.what.c_str(),l.w,l.h,w,h); std::string e=diff(l.pic,f.pix,f.tol,false); if(!e.empty()) violation("wrong-pixels","reading %s reported success but %s",f.what.c_str(),e.c_str()); }
}
SCENARIO("C12",load_deterministic,1){ // what a successful read delivers depends on the file only
  Harness hh; Rng r(content_seed()); std::string ext,path; File8 f=setup_file(ext,path,r); sched.preempt=false; std::string what; std::string d=damage(f.data,r,what,ext); fs::put(path,d);
  set_fill(1+(u32)r.below(1000)); Loaded a=load(hh,path,ext,0x01010101); set_fill(2000+(u32)r.below(1000)); random_bufsize(); FaultMode m; faults.on=true; faults.short_permille_read=(int)wl(2)*700; Loaded b=load(hh,path,ext,0xfe37c109); heal();
  sample("load %s damaged:%s; read %d then %d",f.what.c_str(),what.c_str(),a.read,b.read); if(a.read) nontrivial();
  if(a.o.kind!=Outcome::RETURNED||b.o.kind!=Outcome::RETURNED) violation("dies","loading ended the process: %s %s",describe(a.o).c_str(),describe(b.o).c_str());
  if(a.read!=b.read||a.dim!=b.dim||a.valid!=b.valid) violation("unstable-read","two reads of the same file: %d %d %d and %d %d %d",a.valid,a.dim,a.read,b.valid,b.dim,b.read);
  if(a.read){ std::string e=diff(a.pic,b.pic,0,true); if(!e.empty()) violation("undefined-pixels","a successful read left undefined pixels (%s): %s",f.what.c_str(),e.c_str()); }
}
// ---- C13
SCENARIO("C13",damaged_images,1){
  Harness hh; Rng r(content_seed()); std::string ext,path; File8 f=setup_file(ext,path,r); set_fill(1+(u32)r.below(1000)); sched.preempt=false; std::string what,d=f.data;
  switch(wl(8)){ default: d=damage(f.data,r,what,ext); break; case 1: { d.clear(); size_t n=r.below(600); for(size_t i=0;i<n;i++) d+=(char)r.next(); what=" random bytes"; break; } case 2: { std::string e2=EXTS[r.below(EXTS.size())]; File8 g=encode_any(e2,r,1+(int)r.below(20),1+(int)r.below(20),0); d=damage(g.data,r,what,e2); what+=" content of "+e2; break; } case 5: f=encode_rare(ext,r,1+(int)r.below(40),1+(int)r.below(40),0); d=f.data; if(r.below(2)) d=damage(d,r,what,ext); break;
    case 3: { size_t k=std::min<size_t>(f.data.size(),4+r.below(60)); d=f.data.substr(0,k); size_t n=r.below(600); for(size_t i=0;i<n;i++) d+=(char)r.next(); what=" random after header"; break; } case 4: what=""; d=damage(f.data,r,what,ext); d=damage(d,r,what,ext); break; }
  fs::put(path,d); if(wl(6)==1){ fs::read_limit(path,(i64)wl(d.size()+1),wl(2)?5:0); what+=" limited"; } bool flt=wl(4)==1; FaultMode m; if(flt) m=pick_faults(false);
  nontrivial(); sample("%s (%zu bytes) damaged:%s %s",f.what.c_str(),d.size(),what.c_str(),m.name.c_str());
  Loaded l=load(hh,path,ext,0x01010101); heal(); probe(l.read?"damaged file accepted":l.dim?"dimensions accepted, read refused":"refused"); sample("; valid %d dimensions %d (%d x %d) read %d",l.valid,l.dim,l.w,l.h,l.read);
  if(l.o.kind!=Outcome::RETURNED) violation("dies","%s",describe(l.o).c_str());
  // another file changed between measuring and reading: the reader must still fit the buffer it was given when the file shrank or lost data
}

// ---- C30: memory runs out
static std::string pick_short(const std::string& ext){ faults=FaultCfg(); faults.on=true; faults.alloc_own=ext.compare(0,3,"tif")==0; /* libtiff itself does not survive a failed allocation */ faults.alloc_at=1+wl(wl(3)?8:wl(3)?40:200); static const u64 L[]={1,1,2,5,1000000}; faults.alloc_len=L[wl(5)]; static const size_t M[]={0,0,100,1000,10000}; faults.alloc_min=M[wl(5)]; if(wl(4)==3){ faults.short_permille_read=faults.short_permille_write=400; } char t[160]; snprintf(t,160,"allocation +%llu of %zu bytes or more fails, and %llu in all",(unsigned long long)faults.alloc_at,faults.alloc_min,(unsigned long long)faults.alloc_len); return t; }
SCENARIO("C30",save_without_memory,1){
  Harness hh; std::string ext=pick_ext(); Rng r(content_seed()); int w,h; dims(r,w,h); bool jpg=ext=="jpg"||ext=="jpeg"; int style=jpg?1:(int)wl(3); Pic pic=make_pic(r,w,h,style,wl(3)==0); set_fill(1+(u32)r.below(1000)); sched.preempt=false; random_bufsize(); fs::mkdirs("/out"); std::string path="/out/img."+ext; fs::put("/out/other.txt","keep"); fs::set_cwd("/");
  Outcome o=prog_run(hh,[&]{ warm(ext); }); if(o.kind!=Outcome::RETURNED) violation("dies","warm-up save %s",describe(o).c_str()); u64 base=live_blocks(); int hand=fs::open_handles(); auto snap=snapshot(); std::string m=pick_short(ext); u64 f0=faults_fired();
  char ret=0; o=prog_run(hh,[&]{ ret=img_write(path.c_str(),ext.c_str(),w,h,pic.v.data()); }); u64 ff=faults_fired()-f0; heal(); sample("save %dx%d %s: %s; %llu failed, returned %d",w,h,ext.c_str(),m.c_str(),(unsigned long long)ff,(int)ret); if(ff) nontrivial(); probe(ret?"save reported success":"save reported failure"); if(ff&&ret) probe("success in spite of a fault");
  if(o.kind!=Outcome::RETURNED) violation("dies","saving ended the process: %s",describe(o).c_str()); if(fs::open_handles()!=hand) violation("handle-leak","%d handles more open after saving (returned %d)",fs::open_handles()-hand,(int)ret); only_changed(snap,path,"saving"); if(ret!=0&&ret!=1) violation("return-value","saving returned %d",(int)ret); if(!ret&&!ff) violation("failed-save","saving failed although nothing was short");
  auto right=[&](const char* when){ std::string d,why; Pic p; if(!fs::get(path,d)) violation("lost-save","%s reported success but there is no file",when); if(!decode_any(ext,d,p,why)||!(why=diff(p,pic,jpg?jtol(pic):0,false)).empty()) violation("lost-save","%s reported success but %s",when,why.c_str()); }; if(ret) right("saving");
  if(live_blocks()>base) violation("memory-leak","%lld blocks not given back after saving returned %d",(long long)(live_blocks()-base),(int)ret); o=prog_run(hh,[&]{ ret=img_write(path.c_str(),ext.c_str(),w,h,pic.v.data()); }); if(o.kind!=Outcome::RETURNED||!ret) violation("no-recovery","the repeated save failed (%s)",describe(o).c_str()); right("the repeated save"); if(fs::open_handles()!=hand||live_blocks()>base) violation("memory-leak","after the repeated save %lld blocks and %d handles are left",(long long)(live_blocks()-base),fs::open_handles()-hand);
}
SCENARIO("C30",load_without_memory,1){
  Harness hh; Rng r(content_seed()); std::string ext,path; File8 f=setup_file(ext,path,r); set_fill(1+(u32)r.below(1000)); sched.preempt=false; prog_run(hh,[&]{ warm(ext); }); u64 base=live_blocks(); int hand=fs::open_handles(); auto snap=snapshot(); std::string m=pick_short(ext); u64 f0=faults_fired(); Loaded l=load(hh,path,ext,0x01010101); u64 ff=faults_fired()-f0; heal();
  sample("load %s %dx%d: %s; %llu failed; valid %d dimensions %d read %d",f.what.c_str(),f.pix.w,f.pix.h,m.c_str(),(unsigned long long)ff,l.valid,l.dim,l.read); if(ff) nontrivial(); probe(l.read?"load reported success":"load reported failure"); if(ff&&l.read) probe("success in spite of a fault");
  if(l.o.kind!=Outcome::RETURNED) violation("dies","loading ended the process: %s",describe(l.o).c_str()); if(fs::open_handles()!=hand) violation("handle-leak","%d handles left open after loading (valid %d dimensions %d read %d)",fs::open_handles()-hand,l.valid,l.dim,l.read); if(live_blocks()>base) violation("memory-leak","%lld blocks not given back after loading (valid %d dimensions %d read %d)",(long long)(live_blocks()-base),l.valid,l.dim,l.read); only_changed(snap,"","loading");
  if(!ff&&(!l.valid||!l.dim||!l.read)) violation("refused","%s not read although nothing was short",f.what.c_str()); if(l.read){ std::string e=diff(l.pic,f.pix,f.tol,true); if(!e.empty()) violation("wrong-pixels","reading %s reported success but %s",f.what.c_str(),e.c_str()); } if(l.dim&&(l.w!=f.pix.w||l.h!=f.pix.h)) violation("wrong-dimensions","%s reported as %dx%d",f.what.c_str(),l.w,l.h);
  Loaded k=load(hh,path,ext,0x02020202); if(k.o.kind!=Outcome::RETURNED||!k.valid||!k.dim||!k.read) violation("no-recovery","the repeated load failed: valid %d dimensions %d read %d",k.valid,k.dim,k.read); std::string e=diff(k.pic,f.pix,f.tol,true); if(!e.empty()) violation("no-recovery","the repeated load gave wrong pixels: %s",e.c_str());
}
SCENARIO("C30",film_without_memory,1){
  Harness hh; std::string ext=pick_ext(); Rng r(content_seed()); bool jpg=ext=="jpg"||ext=="jpeg"; int w=1+(int)r.below(40),h=1+(int)r.below(40); set_fill(1+(u32)r.below(1000)); sched.preempt=false; random_bufsize(); fs::mkdirs("/out"); std::string path="/out/film."+ext; fs::put("/out/other.txt","keep"); fs::set_cwd("/");
  Pic pic; pic.w=w; pic.h=h; pic.v.resize((size_t)w*h); u32 c0=bgra((int)r.below(256),(int)r.below(256),(int)r.below(256),255); std::unique_ptr<ImageFilm> film; std::unique_ptr<FilterBox> box; Outcome o=prog_run(hh,[&]{ warm(ext); box.reset(new FilterBox()); film.reset(new ImageFilm(w,h,path.c_str())); film->set_filter(box.get()); });
  if(o.kind!=Outcome::RETURNED) violation("dies","making a film %s",describe(o).c_str()); int lit=(int)r.below(30); std::vector<u32> want((size_t)w*h,bgra(0,0,0,255)); (void)c0;
  prog_run(hh,[&]{ for(int i=0;i<lit;i++){ int x,y; u8 c[3]; { Harness q; x=(int)r.below(w); y=(int)r.below(h); for(u8&k:c) k=r.below(2)?255:0; } Sample s; s.posx=x+.5f; s.posy=y+.5f; ExecutorData ex; ex.startx=0; ex.starty=0; ex.endx=w; ex.endy=h; film->add_pixel(&s,Spectrum(ColorRGB(c[0],c[1],c[2]),false).to_xyz(),&ex); film->add_pixel_forced(&ex); } });
  u64 base=live_blocks(); int hand=fs::open_handles(); auto snap=snapshot(); std::string m=pick_short(ext); u64 f0=faults_fired(); bool ok=false; o=prog_run(hh,[&]{ ok=film->save_image(); }); u64 ff=faults_fired()-f0; heal(); sample("save a film of %dx%d as %s: %s; %llu failed, returned %d",w,h,ext.c_str(),m.c_str(),(unsigned long long)ff,(int)ok); if(ff) nontrivial();
  if(o.kind!=Outcome::RETURNED) violation("dies","saving the film ended the process: %s",describe(o).c_str()); if(fs::open_handles()!=hand) violation("handle-leak","%d handles more open after saving",fs::open_handles()-hand); only_changed(snap,path,"saving"); if(!ok&&!ff) violation("failed-save","saving failed although nothing was short"); if(live_blocks()>base) violation("memory-leak","%lld blocks not given back after saving returned %d",(long long)(live_blocks()-base),(int)ok);
  std::string first,second,why; Pic p; fs::get(path,first); if(ok&&(!decode_any(ext,first,p,why)||p.w!=w||p.h!=h)) violation("lost-save","saving reported success but %s",why.c_str()); bool again=false; o=prog_run(hh,[&]{ again=film->save_image(); }); if(o.kind!=Outcome::RETURNED||!again) violation("no-recovery","the repeated save failed (%s)",describe(o).c_str()); fs::get(path,second); if(!decode_any(ext,second,p,why)||p.w!=w||p.h!=h) violation("no-recovery","the repeated save left a damaged file: %s",why.c_str()); if(ok&&!jpg&&first!=second&&ext!="tif"&&ext!="tiff") violation("lost-save","the saved film differs from the one saved again"); (void)pic;
  prog_run(hh,[&]{ film.reset(); box.reset(); });
}
