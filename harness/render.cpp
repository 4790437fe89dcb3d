// Whole renders under the scheduler: C01 C02 C03 C04 C05 C06 C07 C23 C24.
#include "common.hpp"
#include "samplers/sampler_random.hpp"
#include "samplers/sampler_stratified.hpp"
using namespace hx;
static const int SPLIT=SPLIT_SIZE;
struct Job { int w,h,spp,threads,sampler,filter,strata; };
static Job draw_job(int maxtiles,int maxspp){
  Job j; static const int T[]={2,3,4,1,5,8}; j.threads=T[wl(6)];
  int tx=1+(int)wl(std::min(maxtiles,6)); int ty=1+(int)wl(std::max(1,maxtiles/tx)); j.w=tx*SPLIT;
  static const int H[]={4,8,16,32,2,1}; j.h=(ty-1)*SPLIT+(wl(2)?1+(int)wl(SPLIT):H[wl(6)]);
  j.sampler=wl(2)?SPECTRE_SAMPLER_STRATIFIED:SPECTRE_SAMPLER_RANDOM;
  j.spp=1+(int)wl(maxspp); j.strata=0; if(j.sampler==SPECTRE_SAMPLER_STRATIFIED){ int s=std::max(1,(int)sqrtf((float)j.spp)); j.spp=s*s; j.strata=s; }
  j.filter=(int)wl(5); return j;
}
static std::string text(const Job& j){ char b[160]; snprintf(b,160,"%dx%d spp=%d threads=%d sampler=%s filter=%s",j.w,j.h,j.spp,j.threads,j.sampler==SPECTRE_SAMPLER_RANDOM?"random":"stratified",filter_name(j.filter)); return b; }
static std::string sched_text(){ static const char* n[]={"random","priorities","stalled-thread","run-to-block"}; char b[120]; snprintf(b,120," schedule=%s gap=%llu",n[sched.strategy],(unsigned long long)sched.mean_gap); return b; }
// a scene of boxes that covers part of the image plane in front of a RecCamera
static void rec_scene(Scene& sc,World& w,Rng& r,int W,int H){
  Box* b=new Box(); sc.inherit_shape(b); const Bsdf* m[1]={new SingleBRDF(new Lambertian())}; u8 idx[8]={0};
  int n=1+(int)r.below(4); if(r.below(3)==0) n=1; bool full=r.below(2);
  for(int i=0;i<n;i++){ Matrix4 t,s; float x0=full&&i==0?-2:r.f(-10,W*0.8f),x1=full&&i==0?W+2:x0+r.f(10,W); float y0=full&&i==0?-2:r.f(-10,H*0.8f),y1=full&&i==0?H+2:y0+r.f(4,H);
    t.set_translation(Vec3((x0+x1)/2,(y0+y1)/2,5+i*3.f)); s.set_scale(Vec3((x1-x0)/2,(y1-y0)/2,1)); Asset* a=new Asset(b,t*s,1); a->set_materials(m,1,idx); sc.inherit_asset(a); }
  w.mats.push_back(m[0]);
}
struct RecRun { Trace tr; Lit lit; Job j; Filter* twin=nullptr; int ret=-1; Outcome out; u64 t0=0,t1=0; size_t out0=0; };
static Renderer* make_renderer(RecRun& q,const std::string& path,bool numbers){
  Renderer* r=new Renderer(q.j.w,q.j.h,q.j.spp,path.c_str(),q.j.threads); r->inherit_camera(new RecCamera(&q.tr,q.j.w,q.j.h));
  Rng fr(content_seed()); std::unique_ptr<Filter> f=make_filter(q.j.filter,fr,&q.twin); r->inherit_filter(f.release()); r->inherit_integrator(new RecIntegrator(&q.lit,numbers)); r->set_sampler(q.j.sampler); return r;
}
static void model_add(FilmModel& m,RecRun& q){ for(auto&s:q.tr.s){ bool hit=q.lit.hits.count(Lit::k(s.x,s.y)); m.add(*q.twin,s.x,s.y,hit?q.lit.color(s.x,s.y):SPECTRUM_BLACK); } }
static bool run_record(RecRun& q,const Job& j,bool numbers=false){
  { u64 est=(u64)j.w*j.h*j.spp*450; sched.mean_gap=std::max(sched.mean_gap,est/60000); }
  fs::mkdirs("/out"); q.j=j; q.lit.mode=(u32)wl(4); q.lit.key=content_seed(); Rng r(content_seed());
  World w; Scene* sc=new Scene(); rec_scene(*sc,w,r,j.w,j.h); Renderer* rd=nullptr; q.t0=now_ns();
  q.out=guarded([&]{ rd=make_renderer(q,"/out/image.ppm",numbers); q.t0=now_ns(); q.ret=rd->render(sc); q.t1=now_ns(); });
  sample("%s%s samples=%zu",text(j).c_str(),sched_text().c_str(),q.tr.s.size());
  if(threads_created()>1 && q.tr.s.size()>10){ std::set<int> t; for(auto&s:q.tr.s) t.insert(s.tid); probe("worker threads that traced",t.size()); if(t.size()>1) nontrivial(); }
  return q.out.kind==Outcome::RETURNED;
}
static void want_ok(RecRun& q){
  if(q.out.kind!=Outcome::RETURNED) violation("render-died","the render did not return: %s",describe(q.out).c_str());
  if(q.ret!=0) violation("render-failed","render() reported %d on healthy storage",q.ret);
  if(live_threads()) violation("thread-left","%d threads still run after the renderer returned",live_threads());
}
static Img saved(const char* p){ std::string d; if(!fs::get(p,d)) violation("no-image","no image file %s after a successful render",p); Img im=decode_ppm(d); if(!im.ok) violation("bad-image","image file is damaged: %s",im.why.c_str()); return im; }

// -------------------------------------------------------------- C01
static void film_case(int tiles,int spp,bool trylock){
  random_sched(); set_fill(content_seed()); set_race_detection(false); if(trylock&&wl(2)){ faults.on=true; faults.permille[OP_TRYLOCK]=300; }
  RecRun q; run_record(q,draw_job(tiles,spp)); want_ok(q); faults.on=false;
  FilmModel m(q.j.w,q.j.h); model_add(m,q); int n=0; std::string e=m.compare(saved("/out/image.ppm"),&n); probe("pixels compared",n);
  if(!e.empty()) violation("film","%s [%s]",e.c_str(),text(q.j).c_str());
}
SCENARIO("C01",c01_film,4){ film_case(6,4,true); }
SCENARIO("C01",c01_film_borders,3){ // many border pixels: wide filter, small tiles count, dense preemption
  random_sched(); set_fill(content_seed()); static const u64 G[]={60,20,150,400}; sched.mean_gap=G[wl(4)]; sched.shared_bias=(int)wl(2)*100; g_shared_bias=sched.shared_bias>0;
  if(wl(3)==0){ faults.on=true; faults.permille[OP_TRYLOCK]=500; }
  Job j; j.threads=2+(int)wl(3); j.w=SPLIT*(1+(int)wl(3)); j.h=(int)wl(2)?SPLIT+1+(int)wl(4):1+(int)wl(6); j.sampler=SPECTRE_SAMPLER_RANDOM; j.spp=1+(int)wl(3); j.strata=0; j.filter=(int)(4-wl(5));
  RecRun q; run_record(q,j); want_ok(q); faults.on=false; FilmModel m(q.j.w,q.j.h); model_add(m,q); int n=0; std::string e=m.compare(saved("/out/image.ppm"),&n); probe("pixels compared",n);
  if(!e.empty()) violation("film","%s [%s]",e.c_str(),text(q.j).c_str());
}
// -------------------------------------------------------------- C02
SCENARIO("C02",c02_counts,3){
  random_sched(); set_fill(content_seed()); RecRun q; run_record(q,draw_job(12,6)); want_ok(q);
  std::string e=check_counts(q.tr.s,q.j.w,q.j.h,q.j.spp,0); if(!e.empty()) violation("sample-count","%s [%s]",e.c_str(),text(q.j).c_str());
}
SCENARIO("C02",c02_many_tiles,1){ // the queue spans several memory blocks
  random_sched(); set_fill(content_seed()); Job j; j.threads=2+(int)wl(7); j.w=SPLIT*(33+(int)wl(20)); j.h=1+(int)wl(2); j.sampler=SPECTRE_SAMPLER_RANDOM; j.spp=1; j.strata=0; j.filter=0;
  RecRun q; run_record(q,j); want_ok(q); std::string e=check_counts(q.tr.s,q.j.w,q.j.h,q.j.spp,0); if(!e.empty()) violation("sample-count","%s [%s]",e.c_str(),text(q.j).c_str());
}
// -------------------------------------------------------------- C07
SCENARIO("C07",c07_render,2){
  random_sched(); set_fill(content_seed()); Job j=draw_job(8,1); j.sampler=SPECTRE_SAMPLER_STRATIFIED; j.strata=1+(int)wl(4); j.spp=j.strata*j.strata; if(j.strata>2&&j.h>16) j.h=1+j.h%16;
  RecRun q; run_record(q,j,true); want_ok(q); std::string e=check_counts(q.tr.s,j.w,j.h,j.spp,j.strata); if(!e.empty()) violation("strata","%s [%s]",e.c_str(),text(j).c_str());
}
static void draw_seed(unsigned* seed,Rng& r,int k){ for(int i=0;i<WELL_R;i++) switch(k){ case 0: seed[i]=(unsigned)r.next(); break; case 1: seed[i]=0; break; case 2: seed[i]=~0u; break; case 3: seed[i]=r.below(8)==0?1u<<r.below(32):0; break; case 4: seed[i]=i==0?(unsigned)r.next():0; break; default: seed[i]=(unsigned)r.below(3)-1; } }
SCENARIO("C07",c07_tiles,3){ // a thread's life: one sampler per tile, the seed altered in between
  set_fill(content_seed()); Rng r(content_seed()); unsigned seed[WELL_R]; int k=(int)wl(6); draw_seed(seed,r,k); int n=1+(int)wl(4); char b[200]; sample("seed style %d, %d tiles",k,n); nontrivial(); bool strat=wl(4)<3;
  for(int t=0;t<n;t++){ for(int i=0;i<WELL_R;i++) seed[i]++;
    int s=1+(int)wl(6),x0=(int)wl(40)*32,y0=(int)wl(40)*32,w=1+(int)wl(32),h=1+(int)wl(32); int spp=strat?s*s:1+(int)wl(9); std::vector<Rec> got; std::vector<Sample> buf(spp+2);
    Outcome o=guarded([&]{ std::unique_ptr<Sampler> sm; if(strat) sm.reset(new SamplerStratified(x0,x0+w,y0,y0+h,spp,seed,JITTERED_SAMPLER)); else sm.reset(new SamplerRandom(x0,x0+w,y0,y0+h,spp,seed)); long calls=0;
      for(;;){ buf[spp].posx=buf[spp].posy=-7; if(!sm->get_samples(buf.data())) break; if(++calls>(long)w*h) break; if(buf[spp].posx!=-7||buf[spp].posy!=-7) violation("strata","the sampler wrote more samples than configured");
        for(int i=0;i<spp;i++) got.push_back(Rec{buf[i].posx-x0,buf[i].posy-y0,0,0,0}); float v[4]; sm->get_random_numbers(v,4); for(float q:v) if(!(q>=0&&q<=1)) violation("random-range","random number %.9g outside [0,1]",q); } });
    if(o.kind!=Outcome::RETURNED) violation("sampler-died","%s",describe(o).c_str());
    probe("tiles sampled"); bool degenerate=k!=0; // the same random number may come twice from a poor seed
    std::string e; if(degenerate&&!strat){ if((long)got.size()!=(long)w*h*spp) e="wrong number of samples"; } else e=check_counts(got,w,h,spp,0);
    if(degenerate && e.find("twice")!=std::string::npos) e="";
    if(strat&&e.empty()){ // cells, relative to the pixel: exact because positions are below 2^11 and get_samples hands out whole pixels
      for(size_t p=0;p*spp<got.size()&&e.empty();p++){ std::vector<int> c(spp),nr(spp); int px=(int)(p%w),py=(int)(p/w); (void)px;(void)py;
        double mx=1e9,my=1e9; for(int i=0;i<spp;i++){ mx=std::min<double>(mx,got[p*spp+i].x); my=std::min<double>(my,got[p*spp+i].y); }
        for(int i=0;i<spp;i++){ double fx=got[p*spp+i].x*(double)s,fy=got[p*spp+i].y*(double)s; long ix=(long)floor(fx),iy=(long)floor(fy); bool amb=fabs(fx-nearbyint(fx))/s<4e-4||fabs(fy-nearbyint(fy))/s<4e-4;
          if(!amb){ int cell=(int)((iy%s)*s+ix%s); if(++c[cell]>1){ snprintf(b,200,"two samples of one pixel fall in cell %d",cell); e=b; } } } } }
    if(!e.empty()) violation("strata","%s [tile (%d,%d) %dx%d spp=%d seed style %d]",e.c_str(),x0,y0,w,h,spp,k); }
}
// -------------------------------------------------------------- C04
SCENARIO("C04",c04_render,3){
  random_sched(); set_fill(content_seed()); sched.step_budget=60u*1000*1000; clockcfg.oversleep=wl(2); if(wl(2)){ faults.on=true; faults.permille[OP_TRYLOCK]=(int)wl(4)*250; }
  Job j=draw_job(8,2); j.threads=1+(int)wl(12); RecRun q; q.tr.stall_permille=(int)wl(3)*2; q.tr.stall_ns=1000000000ull*(1+wl(100)); run_record(q,j); want_ok(q);
}
SCENARIO("C04",c04_create_fails,3){
  random_sched(); set_fill(content_seed()); sched.step_budget=60u*1000*1000; clockcfg.oversleep=wl(2); faults.on=true; faults.permille[OP_CREAT_THREAD]=(int)(1+wl(9))*100;
  Job j=draw_job(4,2); j.threads=1+(int)wl(8); RecRun q; run_record(q,j); if(faults_fired(OP_CREAT_THREAD)) { nontrivial(); probe("renders with a refused thread"); }
  if(q.out.kind==Outcome::ABORTED||q.out.kind==Outcome::THREW) violation("thread-refused","the render ends the process when a thread cannot be created: %s",describe(q.out).c_str());
  if(q.out.kind==Outcome::EXITED) { if(q.out.code==0) violation("thread-refused","exit status 0 although the render did not take place"); return; }
  if(live_threads()) violation("thread-left","%d threads still run after the renderer returned",live_threads());
  if(q.ret==0){ std::string e=check_counts(q.tr.s,q.j.w,q.j.h,q.j.spp,0); if(!e.empty()) violation("thread-refused","render() reports success although %s",e.c_str()); saved("/out/image.ppm"); }
}
// -------------------------------------------------------------- C06
static void check_progress(RecRun& q){
  std::string o=out_text(); auto ls=lines(o,"\n"); std::string all; int n=0,last=-1; bool done=false; 
  size_t p=0; while((p=o.find("\33[2K\r(",p))!=std::string::npos){ p+=6; size_t e=o.find(')',p); if(e==std::string::npos) violation("progress","cut progress line"); std::string bar=o.substr(p,e-p); if(bar.size()!=20) violation("progress","progress bar of %zu characters: (%s)",bar.size(),bar.substr(0,60).c_str()); size_t full=bar.find_first_not_of('#'); if(full==std::string::npos) full=20; if(bar.find_first_not_of('-',full)!=std::string::npos) violation("progress","bad progress bar (%s)",bar.c_str());
    std::string rest=o.substr(e+1,60); if(rest.compare(0,11," 100% Done!")==0){ done=true; continue; }
    int pc=0; char num[40]={0}; if(sscanf(rest.c_str()," %d%%\tETA:%39s s",&pc,num)!=2) violation("progress","cannot understand the progress line: %.40s",rest.c_str());
    char* end; double eta=strtod(num,&end); if(!std::isfinite(eta)||eta<0) violation("progress","remaining time estimate is %s",num); if(pc<0||pc>100) violation("progress","progress of %d per cent",pc);
    if((int)full*5>pc+5||(int)full*5<pc-5) violation("progress","bar and percentage disagree: %zu blocks, %d%%",full,pc);
    if(!done){ if(pc<last) violation("progress","progress went back from %d%% to %d%%",last,pc); last=pc; n++; } }
  probe("progress lines",n); if(n) nontrivial(); if(!done) violation("progress","the end of the render was not reported");
  // duration
  size_t k=o.find("Rendering ended ("); if(k==std::string::npos) violation("duration","no duration was reported"); std::string d=o.substr(k+17); d=d.substr(0,d.find(')')); 
  double lo=(double)(q.tr.s.empty()?0:q.tr.last_ns-q.tr.first_ns)/1e9,hi=(double)(q.t1-q.t0)/1e9; double v=-1;
  if(d=="less than 1s") v=0; else if(d=="more than 100d"){ if(hi<99.9*86400) violation("duration","'%s' reported for a render of %.3f..%.3f s",d.c_str(),lo,hi); return; } else { double t=0; long x; char u; const char* s=d.c_str(); int c; bool ok=false; while(sscanf(s,"%ld%c%n",&x,&u,&c)==2){ ok=true; if(x<0) ok=false; t+=u=='d'?x*86400.:u=='h'?x*3600.:u=='m'?x*60.:u=='s'?x:-1e18; s+=c; while(*s==' ') s++; } if(!ok||*s||t<0) violation("duration","cannot understand the duration '%s'",d.c_str()); v=t; }
  if(v>hi||v+1.0001<lo) violation("duration","reported '%s' but the render took between %.3f and %.3f s",d.c_str(),lo,hi);
  if(v>0) probe("duration above one second");
}
SCENARIO("C06",c06_progress,1){
  random_sched(); set_fill(content_seed()); static const u64 NS[]={20000,200000,2000,2000000}; sched.ns_per_step=NS[wl(4)]; clockcfg.oversleep=wl(2); clockcfg.jump_permille=wl(2)?(int)wl(4)*100:0; clockcfg.start_real=1+(i64)wl(4)*500000000;
  Job j; if(wl(3)){ j.w=SPLIT*(33+(int)wl(30)); j.h=1; } else { j.w=SPLIT*(1+(int)wl(8)); j.h=1+(int)wl(40); } j.threads=1+(int)wl(6); j.spp=1; j.sampler=SPECTRE_SAMPLER_RANDOM; j.strata=0; j.filter=0;
  RecRun q; if(wl(2)){ q.tr.stall_permille=1+(int)wl(5); static const u64 ST[]={1000000000ull,60000000000ull,3600000000000ull,86400000000000ull,1000000000000000ull}; q.tr.stall_ns=ST[wl(5)]; }
  run_record(q,j); want_ok(q); check_progress(q);
  FilmModel m(q.j.w,q.j.h); model_add(m,q); std::string e=m.compare(saved("/out/image.ppm"),nullptr); if(!e.empty()) violation("film","%s",e.c_str());
}
// -------------------------------------------------------------- C24
SCENARIO("C24",c24_sequence,1){
  random_sched(); set_fill(content_seed()); fs::mkdirs("/out"); int n=2+(int)wl(3); sample("%d renders:",n); nontrivial();
  struct Live { RecRun* q; Renderer* rd; Scene* sc; FilmModel* m; bool pending; std::string path; }; std::vector<Live> live; char b[200];
  for(int i=0;i<n;i++){
    bool again=!live.empty()&&wl(3)==0; Live L;
    if(again){ L=live[wl(live.size())]; L.q->tr.s.clear(); }
    else { L.q=new RecRun(); L.q->j=draw_job(4,2); L.q->lit.mode=(u32)wl(4); L.q->lit.key=content_seed(); L.sc=new Scene(); World w; Rng r(content_seed()); rec_scene(*L.sc,w,r,L.q->j.w,L.q->j.h); snprintf(b,200,"/out/image%d.ppm",i); L.path=b; L.pending=false; L.rd=nullptr; L.m=new FilmModel(L.q->j.w,L.q->j.h); }
    bool fail=wl(3)==0; sample(" %s%s%s;",again?"again ":"",text(L.q->j).c_str(),fail?" disk full":""); int ret=-1;
    Outcome o=guarded([&]{ if(!L.rd) L.rd=make_renderer(*L.q,L.path,false); if(fail){ faults=FaultCfg(); faults.on=true; faults.capacity=(i64)(wl(2)?0:wl(2000)); faults.kinds=1u<<OP_WRITE; } ret=L.rd->render(L.sc); });
    bool fired=faults_fired(OP_WRITE)>0; faults=FaultCfg(); S->faults[OP_WRITE]=0; if(fired) probe("failed saves");
    if(o.kind!=Outcome::RETURNED) violation("render-died","render %d did not return: %s",i,describe(o).c_str());
    if(live_threads()) violation("thread-left","%d threads still run",live_threads());
    std::string e=check_counts(L.q->tr.s,L.q->j.w,L.q->j.h,L.q->j.spp,0); if(!e.empty()) violation("sample-count","render %d: %s",i,e.c_str());
    model_add(*L.m,*L.q);
    if(ret==0){ e=L.m->compare(saved(L.path.c_str()),nullptr); if(!e.empty()) violation("film","render %d%s: %s",i,again?" (rendered again)":"",e.c_str()); probe("images compared"); }
    else if(!fired) violation("render-failed","render %d reported %d on healthy storage",i,ret);
    else { // retry on healthy storage
      L.q->tr.s.clear(); o=guarded([&]{ ret=L.rd->render(L.sc); }); if(o.kind!=Outcome::RETURNED||ret!=0) violation("retry","the render repeated after a failed save reported %d, %s",ret,describe(o).c_str());
      model_add(*L.m,*L.q); e=L.m->compare(saved(L.path.c_str()),nullptr); if(!e.empty()) violation("film","retried render %d: %s",i,e.c_str()); probe("retried saves"); }
    if(!again) live.push_back(L); else for(auto&x:live) if(x.rd==L.rd) x=L;
    // earlier images stay as they were
    if(!again && live.size()>1 && wl(2)){ auto& x=live[wl(live.size()-1)]; Img im=saved(x.path.c_str()); e=x.m->compare(im,nullptr); if(!e.empty()) violation("film","image of an earlier render changed: %s",e.c_str()); }
    if(wl(2)&&!live.empty()){ size_t k=wl(live.size()); Live d=live[k]; guarded([&]{ delete d.rd; delete d.sc; }); live.erase(live.begin()+k); probe("renderers destroyed"); }
  }
}
// -------------------------------------------------------------- real light: C03 C05 C23
struct LightRec { u64 key; Sample s; HitPoint h; Spectrum L; int tid; };
struct LightLog { std::vector<LightRec> v; size_t cap; std::string bad; bool own; };
static u64 ray_key(const Ray* r){ u32 v[6]; memcpy(v,&r->origin.x,4); memcpy(v+1,&r->origin.y,4); memcpy(v+2,&r->origin.z,4); memcpy(v+3,&r->direction.x,4); memcpy(v+4,&r->direction.y,4); memcpy(v+5,&r->direction.z,4); return bytes_hash(v,24); }
class CamWrap: public Camera { public: Camera* in; mutable std::unordered_map<u64,Sample> m; bool keep; CamWrap(Camera* c,int w,int h,bool k):Camera(&P,&T,&U,w,h),in(c),keep(k){} static const Point3 P,T; static const Vec3 U; ~CamWrap(){ delete in; }
  void create_ray(const Sample* s,Ray* r,Ray* rx,Ray* ry) const override { in->create_ray(s,r,rx,ry); if(keep){ Harness h; m[ray_key(r)]=*s; } }
  protected: void create_single_ray(const Sample*,Point3*,Vec3*) const override {} };
const Point3 CamWrap::P(0,0,-10),CamWrap::T(0,0,0); const Vec3 CamWrap::U(0,1,0);
static const int SPN=(int)(sizeof(Spectrum)/sizeof(float));
static bool bad_spec(const Spectrum& s){ for(int i=0;i<SPN;i++) if(!(s.w[i]>=0)||!std::isfinite(s.w[i])) return true; return false; }
static void key_seed(u64 k,unsigned* seed){ Rng r(k); for(int i=0;i<WELL_R;i++) seed[i]=(unsigned)r.next(); }
class IntWrap: public LightIntegrator { public: LightIntegrator* in; LightLog* log; IntWrap(LightIntegrator* i,LightLog* l):in(i),log(l){} ~IntWrap(){ delete in; }
  Spectrum radiance(const Scene* sc,const HitPoint* h,const Ray* r,Sampler* sam,OcclusionTester* ot) const override {
    u64 k=ray_key(r); Spectrum s; if(log->own){ unsigned seed[WELL_R]; key_seed(k,seed); SamplerRandom own(0,1,0,1,1,seed); s=in->radiance(sc,h,r,&own,ot); } else s=in->radiance(sc,h,r,sam,ot);
    Harness hh; if(bad_spec(s)&&log->bad.empty()){ char b[400]; snprintf(b,400,"light (%g,%g,%g) at point (%g,%g,%g) of asset %u for the ray from (%g,%g,%g) along (%g,%g,%g)",s.w[0],s.w[1],s.w[2],h->point_h.x,h->point_h.y,h->point_h.z,h->asset_h->get_id(),r->origin.x,r->origin.y,r->origin.z,r->direction.x,r->direction.y,r->direction.z); log->bad=b; }
    if(log->v.size()<log->cap) log->v.push_back(LightRec{k,Sample(),*h,s,self_tid()}); return s; } };
struct LightRun { World w; LightLog log; Job j; CamWrap* cam=nullptr; int ret=-1; Outcome out; PathTracer pt; };
static void run_light(LightRun& q,const WorldOpt& o,const Job& j,bool keep,bool own){
  fs::mkdirs("/out"); q.j=j; q.log.cap=keep?20000:0; q.log.own=own; Rng r(content_seed()); Renderer* rd=nullptr;
  q.out=guarded([&]{ build_world(q.w,r,o); rd=new Renderer(j.w,j.h,j.spp,"/out/image.ppm",j.threads); q.cam=new CamWrap(make_camera(r,j.w,j.h),j.w,j.h,keep); rd->inherit_camera(q.cam); rd->inherit_filter(make_filter(j.filter,r).release()); rd->inherit_integrator(new IntWrap(new PathTracer(),&q.log)); rd->set_sampler(j.sampler); q.ret=rd->render(q.w.scene); });
  sample("%s%s %s",text(j).c_str(),sched_text().c_str(),q.w.desc.c_str()); probe("light computations",q.log.v.size());
  if(q.out.kind!=Outcome::RETURNED) violation("render-died","the render did not return: %s",describe(q.out).c_str());
}
SCENARIO("C03",c03_scene,3){
  random_sched(); set_fill(content_seed()); set_race_detection(true); Job j=draw_job(3,1); j.h=1+j.h%24; if(j.threads<2) j.threads=2; clockcfg.oversleep=wl(2); LightRun q; WorldOpt o; run_light(q,o,j,false,false); nontrivial();
}
SCENARIO("C03",c03_film,3){ // cheap rays, many tiles: queue, film, progress
  random_sched(); set_fill(content_seed()); set_race_detection(true); Job j=draw_job(10,2); if(j.threads<2) j.threads=2; RecRun q; if(wl(3)==0){ q.tr.stall_permille=2; q.tr.stall_ns=1000000000ull; } run_record(q,j,true); want_ok(q); nontrivial();
}
SCENARIO("C05",c05_light,1){
  random_sched(); set_fill(content_seed()); Job j=draw_job(3,1); j.h=1+j.h%20; LightRun q; WorldOpt o; o.max_shapes=5; run_light(q,o,j,true,true); if(threads_created()>2) nontrivial();
  // every recorded computation again, alone, with fresh objects
  set_fill(content_seed()); size_t n=q.log.v.size(); std::string bad; bool sub=n>3000; Rng r(content_seed());
  Outcome oo=guarded([&]{ for(size_t i=0;i<n;i++){ if(sub&&r.below(n)>3000) continue; LightRec& L=q.log.v[i]; auto it=q.cam->m.find(L.key); if(it==q.cam->m.end()) continue; Ray ray,rx,ry; q.cam->in->create_ray(&it->second,&ray,&rx,&ry); if(ray_key(&ray)!=L.key) { bad="the camera ray of the same sample differs"; break; }
      alignas(16) u8 mem[sizeof(HitPoint)]; memset(mem,(int)r.below(256),sizeof mem); HitPoint* h=new(mem) HitPoint; char b[300];
      if(!q.w.scene->k.intersect(&ray,h)){ bad="a ray that hit a surface during the render misses it afterwards"; break; } calculate_differentials(h,&rx,&ry);
      if(h->asset_h!=L.h.asset_h||h->index!=L.h.index||memcmp(&h->point_h,&L.h.point_h,sizeof(Point3))||memcmp(&h->normal_h,&L.h.normal_h,sizeof(Normal))||memcmp(&h->uv,&L.h.uv,sizeof(Point2))){ snprintf(b,300,"the surface hit differs: asset %u point (%g,%g,%g) during the render, asset %u point (%g,%g,%g) alone",L.h.asset_h->get_id(),L.h.point_h.x,L.h.point_h.y,L.h.point_h.z,h->asset_h->get_id(),h->point_h.x,h->point_h.y,h->point_h.z); bad=b; break; }
      unsigned seed[WELL_R]; key_seed(L.key,seed); SamplerRandom own(0,1,0,1,1,seed); OcclusionTester ot(q.w.scene); Spectrum s=((const LightIntegrator*)&q.pt)->radiance(q.w.scene,h,&ray,&own,&ot); probe("recomputed");
      bool nan=false; for(int k=0;k<SPN;k++) if(std::isnan(s.w[k])&&std::isnan(L.L.w[k])) nan=true;
      if(!nan&&memcmp(&s,&L.L,sizeof s)){ snprintf(b,300,"light at asset %u point (%g,%g,%g) was (%g,%g,%g) in thread T%d and is (%g,%g,%g) alone",h->asset_h->get_id(),h->point_h.x,h->point_h.y,h->point_h.z,L.L.w[0],L.L.w[1],L.L.w[2],L.tid,s.w[0],s.w[1],s.w[2]); bad=b; break; } } });
  if(oo.kind!=Outcome::RETURNED) violation("render-died","%s",describe(oo).c_str());
  if(!bad.empty()) violation("light-differs","%s",bad.c_str());
}
SCENARIO("C23",c23_light,3){
  random_sched(); set_fill(content_seed()); Job j=draw_job(2,2); j.h=1+j.h%16; LightRun q; WorldOpt o; o.unit_lights=true; run_light(q,o,j,false,false); nontrivial(); if(!q.log.bad.empty()) violation("bad-light","%s",q.log.bad.c_str());
}
