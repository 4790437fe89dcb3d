// Scene descriptions: references, textures, faults while parsing, whole runs of the program, outputs.
#include "scenegen.hpp"
#include "faulty.hpp"
#include "parsers/config_driver.hpp"
#include "materials/shading_space.hpp"
using namespace hx;
int spectre_main(int argc,char** argv);
struct Parsed { std::unique_ptr<Scene> scene; Renderer* r=nullptr; Outcome o; };
static Parsed parse_scene(Harness& hh,const SScene& s){ Parsed p; p.o=prog_run(hh,[&]{ p.scene.reset(new Scene()); ConfigDriver d; p.r=d.parse(s.arg,p.scene.get()); }); return p; }
// the pixels the reader delivers on healthy storage (the readers themselves are judged by C12)
static std::string load_refs(Harness& hh,SScene& s){ std::string err; prog_run(hh,[&]{ for(auto&i:s.imgs) if(i.state==GOOD){ int w=0,h=0; bool ok=img_valid(i.path.c_str(),i.ext.c_str())&&img_dimensions(i.path.c_str(),i.ext.c_str(),&w,&h)&&w==i.pix.w&&h==i.pix.h; if(ok){ std::vector<u32> b((size_t)w*h); ok=img_read8(i.path.c_str(),i.ext.c_str(),b.data()); if(ok) i.pix.v=b; } if(!ok) err=i.path; } }); return err; }
// the light a matte material reflects for a texture value; computed with the program's own white surface
static Spectrum matte(const Bsdf* b,float u,float v){ HitPoint hp; hp.point_h=Point3(0,0,0); hp.normal_h=Normal(0,0,1); hp.dpdu=Vec3(1,0,0); hp.dpdv=Vec3(0,1,0); hp.asset_h=nullptr; hp.index=0; hp.uv=Point2(u,v); hp.du=Vec2(0,0); hp.dv=Vec2(0,0); ShadingSpace sp(&hp); Vec3 wo(0.1f,0.2f,0.97f),wi(-0.3f,0.1f,0.94f); wo.normalize(); wi.normalize(); return b->value(&wo,&hp,&wi,&sp,false); }
static Spectrum expected(const Spectrum& tex){ SingleBRDF b(new Lambertian(),NULL); TextureUniform t(tex); SingleBRDF x(new Lambertian(),&t); return matte(&x,0.5f,0.5f); }
static bool same(const Spectrum& a,const Spectrum& b,float tol){ ColorXYZ x=a.to_xyz(),y=b.to_xyz(); float m=std::max({1e-3f,fabsf(y.r),fabsf(y.g),fabsf(y.b)}); return fabsf(x.r-y.r)<=tol*m+1e-6f&&fabsf(x.g-y.g)<=tol*m+1e-6f&&fabsf(x.b-y.b)<=tol*m+1e-6f; }
enum Content { EXACT=1, WHITE=2, OTHER=4 };
// what a material shows: the image's content, the default, or something else; both may hold for white images
static int shows(Harness& hh,const Bsdf* b,const SImg* im,bool unfiltered,Rng& r){
  int res=EXACT|WHITE; Outcome o=prog_run(hh,[&]{ Spectrum white=expected(SPECTRUM_ONE); Spectrum dw=expected(Spectrum(0xFFFFFFFFu,false)); int n=im?std::min(6,im->pix.w*im->pix.h):3; for(int k=0;k<n;k++){ int w=im?im->pix.w:4,h=im?im->pix.h:4,x=(int)r.below(w),y=(int)r.below(h); Spectrum v=matte(b,(x+.5f)/w,(y+.5f)/h); if(!same(v,dw,1e-3f)&&!same(v,white,1e-3f)) res&=~WHITE; if(!im||!same(v,expected(Spectrum(im->pix.at(x,y),false)),unfiltered?1e-3f:3e-2f)) res&=~EXACT; } }); if(o.kind!=Outcome::RETURNED) violation("dies","evaluating a material %s",describe(o).c_str()); return res?res:OTHER; }
struct Judge { bool strict=true; std::set<std::string> touched; u64 mark=0; };   // touched: images that something happened to
static bool said(const std::string& e,const char* what,const std::string& path){ std::string w=std::string(what)+path; for(size_t i=0;(i=e.find(w,i))!=std::string::npos;i++){ char c=i+w.size()<e.size()?e[i+w.size()]:0; if(!isalnum((u8)c)&&(c!='.'||!isalnum((u8)(i+w.size()+1<e.size()?e[i+w.size()+1]:0)))) return true; } return false; }
static void judge_scene(Harness& hh,SScene& s,Parsed& p,const Meaning& m,const Judge& j,Rng& r){
  std::string err=err_text().substr((size_t)j.mark); auto bad=[&](const SImg* i){ return !i||i->state!=GOOD; }; auto hit=[&](const std::string& f){ return j.touched.count(f)>0; };
  auto reported=[&](const std::string& f){ return said(err,"",f); };
  // materials
  for(auto&kv:m.mats){ const SMat& x=kv.second; const Bsdf* b=nullptr; Spectrum want; bool ok=true; prog_run(hh,[&]{ b=MtlLib.get(x.name); }); if(!b) violation("missing-material","material \"%s\" is not in the library",x.name.c_str());
    if(!x.tex){ prog_run(hh,[&]{ ok=same(matte(b,.3f,.3f),expected(Spectrum(ColorRGB(x.rgb[0],x.rgb[1],x.rgb[2]),false)),1e-3f); }); if(!ok) violation("wrong-material","material \"%s\" does not have the colour %d,%d,%d",x.name.c_str(),x.rgb[0],x.rgb[1],x.rgb[2]); continue; }
    auto it=m.lib.find(x.ref); std::string path=it!=m.lib.end()?it->second:x.abs; const SImg* im=s.img(path); int sh=shows(hh,b,bad(im)?nullptr:im,s.unfiltered,r);
    if(bad(im)){ if(!(sh&WHITE)&&!(it!=m.lib.end()&&hit(path))) /* a definition that failed leaves its name to be understood as a path */ violation("wrong-texture","material \"%s\" names \"%s\" (%s, not usable) but does not show the default texture",x.name.c_str(),x.ref.c_str(),path.c_str()); probe("unusable images referenced"); }
    else if(!hit(path)&&it==m.lib.end()){ if(!(sh&EXACT)) violation("wrong-texture","material \"%s\" names \"%s\" (%s %dx%d) but shows %s",x.name.c_str(),x.ref.c_str(),path.c_str(),im->pix.w,im->pix.h,sh&WHITE?"the default texture":"something else"); }
    else if(!hit(path)){ bool defhit=false; for(auto&d:s.defs) defhit|=hit(d.abs); if(!(sh&EXACT)&&!defhit) violation("wrong-texture","material \"%s\" names \"%s\" (%s %dx%d) but shows %s",x.name.c_str(),x.ref.c_str(),path.c_str(),im->pix.w,im->pix.h,sh&WHITE?"the default texture":"something else"); }
    else { // something happened to the file: its content or the default with a word about it
      if(sh&EXACT) probe("content survived"); else if(sh&WHITE){ if(!reported(path)) violation("silent-default","the image %s of material \"%s\" was replaced by the default without a word",path.c_str(),x.name.c_str()); probe("default used after a fault"); } else { bool defhit=it!=m.lib.end()||im->data.compare(0,2,"P3")==0; /* cutting the last number of a text file short is not noticeable */ if(!defhit) violation("wrong-texture","material \"%s\" shows neither %s nor the default after a fault",x.name.c_str(),path.c_str()); } } }
  if(j.strict) for(auto&f:m.tried){ const SImg* im=s.img(f); if(hit(f)) continue; bool told=said(err,"texture ",f); if(bad(im)&&!told) violation("silent-missing","nothing was reported about %s, which could not be used",f.c_str()); if(!bad(im)&&told) violation("false-report","%s is a healthy image but was reported: %.300s",f.c_str(),err.c_str()); }
  // worlds: everything that can be placed is there, with the right material and mask
  unsigned na=0,nl=0; std::set<std::string> shp; for(auto&w:s.worlds){ if(w.shape!="Sphere"&&!m.shapes.count(w.shape)){ if(err.find(w.shape)==std::string::npos) violation("silent-missing","shape \"%s\" is missing without a word",w.shape.c_str()); continue; } if(w.light) nl++; else na++; }
  unsigned ga=0,gl=0; Outcome o=prog_run(hh,[&]{ ga=p.scene->size_assets(); gl=p.scene->size_lights(); p.scene->k.buildTree(); }); if(o.kind!=Outcome::RETURNED) violation("dies","building the index %s",describe(o).c_str());
  if(gl!=nl||ga!=na+nl) violation("wrong-scene","%u objects and %u lights instead of %u and %u",ga,gl,na+nl,nl);
  for(auto&w:s.worlds){ const SObjPart* part=nullptr; if(w.shape!="Sphere"){ auto it=m.shapes.find(w.shape); if(it==m.shapes.end()) continue; part=&it->second; }
    bool vis=true,sure=true; if(w.masked){ auto it=m.lib.find(w.mref); std::string path=it!=m.lib.end()?it->second:w.mabs; const SImg* im=s.img(path); if(hit(path)) sure=false; if(it!=m.lib.end()) for(auto&d:s.defs) if(hit(d.abs)) sure=false; if(!bad(im)){ if(im->pix.w>1) sure=false; else vis=((chan(im->pix.v[0],w.chan)>=128)!=w.inv); } if(sure) probe(vis?"visible masked objects":"hidden objects"); }
    bool got=false; const Bsdf *b=nullptr,*want=nullptr; bool named=true; o=prog_run(hh,[&]{ Ray ray(Point3(w.x+0.37f,0.21f,-30),Vec3(0,0,1)); HitPoint hp; got=p.scene->k.intersect(&ray,&hp); if(got) b=hp.asset_h->get_material(hp.index); std::string n=w.light?"":!w.mat.empty()?w.mat:part?part->mat:""; if(!n.empty()) want=MtlLib.get(n); named=!n.empty()&&want; if(!want) want=MtlLib.get_default(); }); if(o.kind!=Outcome::RETURNED) violation("dies","a ray into the scene %s",describe(o).c_str());
    if(sure&&got!=vis) violation("wrong-mask","%s \"%s\" at %g with mask \"%s\"%s is %s",w.light?"light":"world",w.shape.c_str(),w.x,w.masked?w.mref.c_str():"",w.inv?" inverted":"",got?"visible":"not there"); if(got&&b!=want) violation("wrong-material","%s \"%s\" at %g does not have the material %s",w.light?"light":"world",w.shape.c_str(),w.x,named?"it names":"that replaces a missing one"); }
  for(auto&h:s.shapes){ const SObj* ob=s.obj(h.abs); if((!ob||ob->state!=GOOD)&&!reported(h.abs)) violation("silent-missing","nothing was reported about %s",h.abs.c_str()); } 
  for(auto&k:s.kids) if(k.state!=GOOD&&!reported(k.path)) violation("silent-missing","nothing was reported about the missing chained file %s",k.path.c_str());
}
static void judge_opens(const SScene& s){ std::set<std::string> ok; ok.insert(s.path); for(auto&k:s.kids) ok.insert(k.path); for(auto&d:s.defs) ok.insert(d.abs); for(auto&x:s.mats) if(x.tex) ok.insert(x.abs); for(auto&h:s.shapes) ok.insert(h.abs); for(auto&w:s.worlds) if(w.masked) ok.insert(w.mabs);
  for(auto&e:fs::log()) if(e.op==OP_OPEN&&!ok.count(e.path)) violation("wrong-file","%s was opened, which the description does not name",e.path.c_str()); }
static int g_ncpu[]={1,2,3,4};
static SScene setup(Harness& hh,Rng& r,const SceneOpt& o){ SScene s=make_scene(r,o); place(s); sched.preempt=false; sched.ncpu=g_ncpu[wl(4)]; std::string e=load_refs(hh,s); if(!e.empty()) violation("reader","a healthy image could not be read: %s",e.c_str()); fs::clear_log(); return s; }
// ---- C18
SCENARIO("C18",scene_references,1){
  Harness hh; Rng r(content_seed()); SceneOpt o; o.bad_files=wl(3)!=1; SScene s=setup(hh,r,o); Meaning m=meaning(s); faults=FaultCfg(); faults.on=true; faults.short_permille_read=(int)wl(3)*400; faults.budget=0; random_bufsize(); Judge j; j.mark=err_mark(); sample("%s",s.what.c_str()); nontrivial();
  int h=fs::open_handles(); auto snap=snapshot(); Parsed p=parse_scene(hh,s); heal(); if(p.o.kind!=Outcome::RETURNED) violation("dies","parsing a complete scene %s: %.400s",describe(p.o).c_str(),err_text().substr((size_t)j.mark).c_str());
  note("%s",s.text.c_str()); for(auto&k:s.kids) note("---- %s (%d)\n%s",k.path.c_str(),k.state,k.text.c_str()); for(auto&i:s.imgs) note("%s state %d %dx%d",i.path.c_str(),i.state,i.pix.w,i.pix.h); if(fs::open_handles()!=h) violation("handle-leak","%d files left open",fs::open_handles()-h); only_changed(snap,"","parsing"); judge_opens(s); judge_scene(hh,s,p,m,j,r); prog_run(hh,[&]{ delete p.r; p.scene.reset(); });
}
// ---- C14
SCENARIO("C14",scene_textures,1){
  Harness hh; Rng r(content_seed()); SceneOpt o; o.tiff=wl(6)==5; o.max_imgs=6; SScene s=setup(hh,r,o); Meaning m=meaning(s); set_fill(1+(u32)r.below(1000)); random_bufsize(); Judge j; j.mark=err_mark(); j.strict=true;
  std::set<std::string> imgs; for(auto&i:s.imgs) imgs.insert(i.path); FaultCfg f; int mode=(int)wl(o.tiff?3:6); std::string what; static const Op OPS[]={OP_OPEN,OP_READ,OP_STAT,OP_ACCESS,OP_SEEK}; 
  struct Plan { int at,kind; size_t cut; }; auto plans=std::make_shared<std::map<std::string,Plan>>(); auto cnt=std::make_shared<std::map<std::string,int>>(); auto touched=std::make_shared<std::set<std::string>>();
  if(mode>=1){ for(auto&i:s.imgs) if(i.state==GOOD&&wl(2)){ Plan q; q.at=1+(int)wl(wl(2)?6:40); q.kind=(int)wl(o.tiff?4:6); q.cut=(size_t)wl(i.data.size()+1); (*plans)[i.path]=q; } what="files change while they are used"; }
  if(mode>=3){ f.on=true; f.budget=1+(int)wl(6); if(mode==3) f.permille[OPS[wl(5)]]=50+(int)wl(900); else { int q=5+(int)wl(300); for(auto op:OPS) f.permille[op]=q; } what+=" and operations on images fail"; } f.short_permille_read=(int)wl(3)*300; f.on=true;
  auto fired=std::make_shared<u64>(0); auto last=std::make_shared<std::string>(); faults=f; faults.on=false;
  fs::on_op([=](Op,const std::string& p){ if(faults_fired()!=*fired){ *fired=faults_fired(); touched->insert(*last); } bool im=imgs.count(p)>0; faults.on=im; if(!im) return; *last=p; int n=++(*cnt)[p]; auto it=plans->find(p); if(it==plans->end()||n!=it->second.at) return; touched->insert(p); std::string d; switch(it->second.kind){ case 0: fs::remove(p); break; case 1: fs::chmod(p,0); break; case 2: if(fs::get(p,d)) fs::put(p,d.substr(0,it->second.cut)); break; case 3: fs::remove(p); fs::mkdirs(p); break; default: fs::read_limit(p,(i64)it->second.cut,5); } });
  int h=fs::open_handles(); Parsed p=parse_scene(hh,s); if(faults_fired()!=*fired) touched->insert(*last); fs::on_op(nullptr); heal(); if(!touched->empty()) nontrivial(); sample("%s; %s, %zu images affected",s.what.c_str(),what.empty()?"nothing fails":what.c_str(),touched->size());
  if(p.o.kind!=Outcome::RETURNED) violation("dies","parsing %s: %.400s",describe(p.o).c_str(),err_text().substr((size_t)j.mark).c_str()); if(fs::open_handles()!=h) violation("handle-leak","%d files left open",fs::open_handles()-h);
  j.touched=*touched; judge_scene(hh,s,p,m,j,r); prog_run(hh,[&]{ delete p.r; p.scene.reset(); });
}
// ---- C17
static void drop_kids(SScene& s,const std::set<int>& gone){ auto cut=[&](auto& v){ typename std::remove_reference<decltype(v)>::type u; for(auto&x:v) if(!gone.count(x.file)) u.push_back(x); v=u; }; cut(s.defs); cut(s.mats); cut(s.worlds); cut(s.shapes); for(int k:gone) s.kids[k].state=MISSING; }
static void must_fail(const Outcome& o,const std::string& err,const char* why){ if(o.kind==Outcome::RETURNED) violation("silent","the scene was parsed although %s",why); if(o.kind!=Outcome::EXITED) violation("dies","parsing %s when %s",describe(o).c_str(),why); if(o.code==0) violation("exit-zero","the program ended with status 0 when %s",why); if(err.empty()) violation("silent","nothing was reported when %s",why); }
static void sane(Harness& hh,Parsed& p,Rng& r){ Outcome o=prog_run(hh,[&]{ p.scene->k.buildTree(); for(int i=0;i<8;i++){ Ray ray(Point3(r.f(-10,300),r.f(-6,6),-300),Vec3(0,0,1)); HitPoint hp; if(p.scene->k.intersect(&ray,&hp)) hp.asset_h->get_material(hp.index); } }); if(o.kind!=Outcome::RETURNED) violation("dies","the parsed scene %s",describe(o).c_str()); }
SCENARIO("C17",text_faults,3){
  Harness hh; Rng r(content_seed()); SceneOpt o; o.bad_files=wl(2); o.tiff=false; o.decoys=false; static const int PADS[]={0,0,5000,8100,8190,16300,16380,20000,40000,70}; int kind=(int)wl(5); if(wl(2)) { o.pad=PADS[wl(10)]; if(o.pad) o.pad+=(int)r.below(200); } SScene s=setup(hh,r,o); set_fill(1+(u32)r.below(1000)); random_bufsize();
  faults=FaultCfg(); faults.on=true; faults.budget=0; faults.short_permille_read=(int)wl(3)*450; Judge j; j.mark=err_mark(); sched.step_budget=60u*1000*1000; std::string why; std::set<int> gone; std::vector<std::string> texts={s.path}; for(auto&k:s.kids) if(k.state==GOOD) texts.push_back(k.path); auto bad=std::make_shared<std::map<std::string,int>>();
  auto kidpick=[&]()->int{ std::vector<int> v; for(size_t i=0;i<s.kids.size();i++) if(s.kids[i].state==GOOD) v.push_back((int)i); return v.empty()?-1:v[r.below(v.size())]; };
  bool mustfail=false,kidfail=false; std::function<void()> g_final; int k=-1;
  switch(kind){
    case 0: why="reads are split"; break;
    case 1: { size_t n=wl(2)?wl(s.text.size()+1):s.text.size(); fs::read_limit(s.path,(i64)n,5); mustfail=true; char b[100]; snprintf(b,100,"the main file (%zu bytes) cannot be read after byte %zu",s.text.size(),n); why=b; break; }
    case 2: switch(wl(4)){ case 0: fs::remove(s.path); why="the main file is missing"; break; case 1: fs::chmod(s.path,0); why="the main file is not readable"; break; case 2: fs::remove(s.path); fs::mkdirs(s.path); why="the main file is a folder"; break; default: s.arg+=wl(2)?"x":"/x"; why="the main file has another name"; } mustfail=true; break;
    case 3: { k=kidpick(); if(k<0){ why="reads are split"; break; } SChild& c=s.kids[k]; switch(wl(4)){ case 0: fs::remove(c.path); why="the chained file vanished"; gone.insert(k); break; case 1: fs::chmod(c.path,0); why="the chained file is not readable"; kidfail=true; break; case 2: { size_t n=wl(2)?wl(c.text.size()+1):c.text.size(); fs::read_limit(c.path,(i64)n,5); why="the chained file cannot be read to its end"; kidfail=true; break; } default: fs::remove(c.path); fs::mkdirs(c.path); why="the chained file is a folder"; kidfail=true; } break; }
    default: { why="operations on the descriptions fail"; static const Op OPS[]={OP_OPEN,OP_READ,OP_STAT,OP_ACCESS,OP_SEEK,OP_CLOSE,OP_REALPATH}; faults.budget=1+(int)wl(3); if(wl(2)) faults.permille[OPS[wl(7)]]=100+(int)wl(900); else { int q=20+(int)wl(300); for(auto op:OPS) faults.permille[op]=q; }
      auto fired=std::make_shared<u64>(0); auto last=std::make_shared<std::string>(); faults.on=false; g_final=[=]{ if(faults_fired()!=*fired){ *fired=faults_fired(); (*bad)[*last]++; } }; fs::on_op([=](Op,const std::string& p){ g_final(); bool t=false; for(auto&x:texts) t|=x==p; faults.on=t; if(t) *last=p; }); } }
  drop_kids(s,gone); for(int g:gone) (void)g; Meaning m=meaning(s); if(!why.empty()&&kind) nontrivial(); if(s.text.size()>200&&!kind) nontrivial(); sample("%s; %s",s.what.c_str(),why.c_str());
  int h=fs::open_handles(); auto snap=snapshot(); Parsed p=parse_scene(hh,s); if(kind==4) g_final(); fs::on_op(nullptr); heal(); std::string err=err_text().substr((size_t)j.mark); note("%s\n%s",s.text.c_str(),err.c_str()); only_changed(snap,"","parsing");
  if(kind==4&&faults_fired()){ if(p.o.kind==Outcome::RETURNED){ std::set<int> g; for(size_t i=0;i<s.kids.size();i++) if(s.kids[i].state==GOOD&&bad->count(s.kids[i].path)&&said(err,"",s.kids[i].path)) g.insert((int)i); drop_kids(s,g); m=meaning(s); } else { must_fail(p.o,err,why.c_str()); probe("stopped after a fault"); return; } }
  else if(mustfail){ must_fail(p.o,err,why.c_str()); return; } else if(kidfail){ must_fail(p.o,err,why.c_str()); return; }
  else if(p.o.kind!=Outcome::RETURNED) violation("dies","parsing %s when %s: %.300s",describe(p.o).c_str(),why.c_str(),err.c_str());
  if(fs::open_handles()!=h) violation("handle-leak","%d files left open",fs::open_handles()-h); judge_scene(hh,s,p,m,j,r); prog_run(hh,[&]{ delete p.r; p.scene.reset(); });
}
static std::string damage_text(std::string t,Rng& r,std::string& what){
  static const char* TOK[]={"world","light","material","texture","camera","filter","resolution","shape","spp","sampler","out","dualmaterial","{","}","[","]",":",",","\"","'","\\","#","\n","-","+",".","e","1e","1e99","-1e38","99999999999999999999","0","-5","nan","inf","\"\"","''","mask","inverted","using channel","name","src","scale","shift","roughness","elem","dist","ior","bump","type","metal","glass","glossy","matte","position","rotation","target","fov","value0","true","\x01","\xff","\xc3\xa4"};
  int n=1+(int)r.below(3); for(int q=0;q<n;q++) switch(r.below(9)){
    case 0: { size_t i=r.below(t.size()+1); t.insert(i,TOK[r.below(sizeof TOK/sizeof*TOK)]); what+=" token"; break; }
    case 1: if(!t.empty()){ t[r.below(t.size())]=(char)r.next(); what+=" byte"; } break;
    case 2: if(!t.empty()){ size_t i=r.below(t.size()); t.erase(i,1+r.below(20)); what+=" erase"; } break;
    case 3: { static const int L[]={40,60,64,70,100,120,123,124,128,200,1000,9000,20000}; int l=L[r.below(13)]+(int)r.below(4); size_t i=r.below(t.size()+1); std::string x; switch(r.below(5)){ case 0: x=std::string(l,'z'); break; case 1: x=std::string(l,' '); break; case 2: x=std::string(l,'7'); break; case 3: x="\""+std::string(l,'q')+(r.below(2)?"\"":""); break; default: x=std::string(l,'\t'); } t.insert(i,x); what+=" long"; break; }
    case 4: { size_t i=r.below(t.size()+1),l=1+r.below(60); t.insert(i,t.substr(r.below(t.size()+1),l)); what+=" copy"; break; }
    case 5: t.resize(r.below(t.size()+1)); what+=" cut"; break;
    case 6: for(char&c:t) if(c=='\n') c=' '; what+=" one line"; break;
    case 7: t.insert(r.below(t.size()+1),1,(char)0); what+=" zero byte"; break;
    default: { size_t i=t.find_first_of("0123456789",r.below(t.size()+1)); if(i!=std::string::npos){ static const char* N[]={"0","-1","1e30","4294967296","99999999999999999999","1e-30","0.0000001","-0"}; t.erase(i,1); t.insert(i,N[r.below(8)]); what+=" number"; } } }
  return t; }
SCENARIO("C17",text_damage,2){
  Harness hh; Rng r(content_seed()); SceneOpt o; o.bad_files=wl(2); o.tiff=false; o.decoys=false; SScene s=setup(hh,r,o); set_fill(1+(u32)r.below(1000)); random_bufsize(); std::string what; sched.step_budget=60u*1000*1000; Judge j; j.mark=err_mark();
  bool kid=!s.kids.empty()&&wl(3)==2; std::string t=damage_text(kid?s.kids[0].text:s.text,r,what); fs::put(kid?s.kids[0].path:s.path,t); nontrivial(); sample("%s;%s in the %s file",s.what.c_str(),what.c_str(),kid?"chained":"main"); 
  int h=fs::open_handles(); auto snap=snapshot(); Parsed p=parse_scene(hh,s); std::string err=err_text().substr((size_t)j.mark); note("%s\n%s",t.c_str(),err.c_str()); only_changed(snap,"","parsing"); hash_bytes(err.data(),err.size());
  if(p.o.kind==Outcome::EXITED){ if(p.o.code==0) violation("exit-zero","the program ended with status 0 on a damaged description"); if(err.empty()) violation("silent","nothing was reported about a damaged description"); probe("rejected"); return; }
  if(p.o.kind!=Outcome::RETURNED){ if(p.o.kind==Outcome::THREW&&(p.o.what.find("alloc")!=std::string::npos||p.o.what.find("length")!=std::string::npos||p.o.what.find("max_size")!=std::string::npos)){ probe("too large"); return; } violation("dies","a damaged description (%s) %s: %.300s",what.c_str(),describe(p.o).c_str(),err.c_str()); }
  probe("accepted"); if(fs::open_handles()!=h) violation("handle-leak","%d files left open",fs::open_handles()-h); sane(hh,p,r); prog_run(hh,[&]{ delete p.r; p.scene.reset(); });
}
// ---- C10 / C11: whole runs of the program
static Outcome run_main(Harness& hh,const std::vector<std::string>& args,int* code){ *code=-1; auto a=std::make_shared<std::vector<std::string>>(args); return prog_run(hh,[=]{ std::vector<char*> v; for(auto&x:*a) v.push_back(const_cast<char*>(x.c_str())); v.push_back(nullptr); *code=spectre_main((int)a->size(),v.data()); }); }
static std::string ext_of(const std::string& p){ size_t k=p.rfind('.'); return k==std::string::npos?"":p.substr(k+1); }
// the whole picture: every pixel shows the light that fills the view
static void whole_image(Harness& hh,const SScene& s,const std::string& out,const char* when){
  std::string d,why; Pic pic; if(!fs::get(out,d)) violation("no-image","exit status 0 but there is no file %s (%s)",out.c_str(),when); std::string ext=ext_of(out); bool ok=decode_any(ext,d,pic,why); if(!ok) violation("bad-image","exit status 0 but %s (%zu bytes) is not a complete image: %s (%s)",out.c_str(),d.size(),why.c_str(),when);
  if(pic.w!=s.width||pic.h!=s.height) violation("bad-image","exit status 0 but %s is %dx%d instead of %dx%d",out.c_str(),pic.w,pic.h,s.width,s.height); int dark=0; std::string map; for(size_t i=0;i<pic.v.size();i++){ if(chan(pic.v[i],0)<40) dark++; char b[16]; snprintf(b,16,"%02x%02x%02x%s",chan(pic.v[i],0),chan(pic.v[i],1),chan(pic.v[i],2),(i+1)%pic.w?" ":"\n"); map+=b; } note("%s",map.c_str()); if(dark) violation("incomplete","exit status 0 but %d of %zu pixels of %s are missing (%s)",dark,pic.v.size(),out.c_str(),when); probe("complete images",1); }
SCENARIO("C10",program_run,1){
  Harness hh; Rng r(content_seed()); SceneOpt o; o.bad_files=wl(2); o.decoys=false; o.tiff=false; o.uniform=true; o.max_imgs=3; SScene s=setup(hh,r,o); random_sched(); sched.preempt=true; set_race_detection(false); set_fill(1+(u32)r.below(1000)); random_bufsize(); sched.step_budget=400u*1000*1000; sched.mean_gap=std::max<u64>(sched.mean_gap,1000); u64 mark=err_mark();
  static const Op ALL[]={OP_OPEN,OP_READ,OP_WRITE,OP_CLOSE,OP_SEEK,OP_STAT,OP_ACCESS,OP_REALPATH,OP_CREAT_THREAD,OP_TRYLOCK}; std::string why; std::set<std::string> scope; bool assets=false,must0=false; int mode=(int)wl(8); FaultCfg f; f.on=true; f.budget=1+(int)wl(4); if(wl(3)==2) f.budget=100000; f.short_permille_read=(int)wl(3)*300; f.short_permille_write=(int)wl(3)*300; auto hit=std::make_shared<std::set<std::string>>(); auto fired=std::make_shared<u64>(0); auto last=std::make_shared<std::string>(); std::function<void()> last_check=[]{}; bool exists=wl(3)==2; if(exists&&s.out!=s.path) fs::put(s.out,"old content");
  std::vector<std::string> args={"spectre",s.arg};
  switch(mode){
    case 0: why="healthy"; must0=true; break;
    case 1: why="transfers are split"; must0=true; break;
    case 2: { for(auto op:ALL) f.permille[op]=1+(int)wl(60); why="any operation fails"; break; }
    case 3: { Op op=ALL[wl(8)]; f.permille[op]=20+(int)wl(900); why=std::string(op_name[op])+" fails"; break; }
    case 4: { for(auto op:ALL) f.permille[op]=wl(2)?1000:300; f.permille[OP_CREAT_THREAD]=0; assets=true; must0=true; for(auto&i:s.imgs) scope.insert(i.path); for(auto&i:s.objs) scope.insert(i.path); why="images and meshes fail"; break; }
    case 5: { for(auto op:ALL) f.permille[op]=wl(2)?1000:300; f.permille[OP_TRYLOCK]=f.permille[OP_CREAT_THREAD]=0; scope.insert(s.out); why="the output file fails"; if(wl(3)==2){ f.capacity=(i64)wl(wl(2)?100:8000); for(auto op:ALL) f.permille[op]=0; why="disk full"; } break; }
    case 6: f.permille[OP_CREAT_THREAD]=wl(2)?1000:400; f.permille[OP_TRYLOCK]=300; f.budget=100000; must0=true; why="threads are refused"; break;
    default: f.target_op=(i64)(fs::ops()+1+wl(wl(2)?20:150)); why="one operation fails"; break; }
  faults=f; if(!scope.empty()){ faults.on=false; } auto charge=[=]{ if(faults_fired()!=*fired){ *fired=faults_fired(); hit->insert(*last); } }; fs::on_op([=](Op,const std::string& p){ charge(); if(!scope.empty()) faults.on=scope.count(p)>0; *last=p; });
  if(mode>1) nontrivial(); sample("%s -> %s %dx%d%s; %s",s.what.c_str(),s.out.c_str(),s.width,s.height,exists?" exists":"",why.c_str()); auto snap=snapshot(); int code; int h=fs::open_handles(); Outcome oc=run_main(hh,args,&code); charge(); fs::on_op(nullptr); u64 nf=faults_fired(); heal(); std::string err=err_text().substr((size_t)mark); note("%s\n%s\n%s",s.text.c_str(),out_text().c_str(),err.c_str());
  only_changed(snap,s.out,"running the program"); if(oc.kind==Outcome::EXITED) code=oc.code; else if(oc.kind!=Outcome::RETURNED) violation("dies","the program %s when %s: %.300s",describe(oc).c_str(),why.c_str(),err.c_str());
  if(oc.kind==Outcome::RETURNED&&live_threads()) violation("thread-left","%d threads still run after main returned",live_threads());
  if(code==0){ whole_image(hh,s,s.out,why.c_str()); if(nf) probe("success in spite of a fault"); }
  else { if(err.empty()) violation("silent","exit status %d without a message when %s",code,why.c_str()); if(must0||!nf) violation("false-failure","exit status %d although nothing but %s: %.300s",code,why.c_str(),err.c_str()); probe("failures reported"); }
}
SCENARIO("C10",bad_call,1){
  Harness hh; Rng r(content_seed()); SceneOpt o; o.bad_files=false; o.decoys=false; o.tiff=false; o.uniform=true; o.kids=false; o.max_imgs=1; SScene s=setup(hh,r,o); random_sched(); set_race_detection(false); std::vector<std::string> args={"spectre"}; std::string why; u64 mark=err_mark(); bool extra=false;
  switch(wl(6)){ case 0: why="no argument"; break; case 1: args.push_back(""); why="an empty name"; break; case 2: args.push_back(s.arg+".gone"); why="a missing file"; break; case 3: args.push_back(s.dir); why="a folder"; break; case 4: { args.push_back(s.arg); std::string t=s.text; std::string x=wl(2)?"\n@\n":"\nworld }\n"; if(wl(2)) t+=x; else t=x+t; fs::put(s.path,t); why="a broken file"; break; } default: args.push_back(s.arg); args.push_back("--more"); why="an extra argument"; extra=true; }
  nontrivial(); sample("%s",why.c_str()); auto snap=snapshot(); int code; Outcome oc=run_main(hh,args,&code); std::string err=err_text().substr((size_t)mark); if(oc.kind==Outcome::EXITED) code=oc.code; else if(oc.kind!=Outcome::RETURNED) violation("dies","the program %s with %s",describe(oc).c_str(),why.c_str());
  if(code==0){ if(!extra) violation("exit-zero","exit status 0 with %s",why.c_str()); whole_image(hh,s,s.out,why.c_str()); only_changed(snap,s.out,"running the program"); } else { if(err.empty()) violation("silent","exit status %d without a message with %s",code,why.c_str()); only_changed(snap,"","a refused run"); if(why=="an extra argument") violation("false-failure","exit status %d with an extra argument",code); }
}
SCENARIO("C10",impossible_image,1){ // an image that cannot exist is refused before anything is done
  Harness hh; Rng r(content_seed()); SceneOpt o; o.bad_files=false; o.decoys=false; o.tiff=false; o.uniform=true; o.kids=false; o.max_imgs=1; SScene s=setup(hh,r,o); random_sched(); set_race_detection(false); random_bufsize(); u64 mark=err_mark();
  static const char* BAD[]={"0","00","32769","65536","100000","2147483647","2147483648","4294967296","4294967297","4294967328","99999999999","18446744073709551648","340282366920938463463374607431768211488"}; static const char* GOOD[]={"32","64","7"}; std::string st,why; int k=(int)wl(3);
  if(k<2){ int n=(int)wl(13); std::string w=BAD[n],h=GOOD[wl(3)]; if(k==1) std::swap(w,h); if(wl(6)==5) { w=BAD[n]; h=BAD[wl(13)]; } st=wl(2)?"resolution:{width:"+w+" height:"+h+"}":"resolution:{height:"+h+",width:"+w+"}"; why=w+"x"+h; }
  else { static const char* B[]={"0","000","2147483648","4294967296","4294967297","4294967300","99999999999","18446744073709551617"}; std::string n=B[wl(8)]; st="spp:"+n; why=n+" samples per pixel"; }
  fs::put(s.path,s.text+"\n"+st+"\n"); nontrivial(); sample("%s",why.c_str()); auto snap=snapshot(); int code; Outcome oc=run_main(hh,{"spectre",s.arg},&code); std::string err=err_text().substr((size_t)mark); if(oc.kind==Outcome::EXITED) code=oc.code; else if(oc.kind!=Outcome::RETURNED) violation("dies","the program %s when asked for %s",describe(oc).c_str(),why.c_str());
  if(code==0) violation("exit-zero","exit status 0 when asked for %s",why.c_str()); if(err.empty()) violation("silent","exit status %d without a message when asked for %s",code,why.c_str()); if(threads_created()) violation("late","%d threads were started when asked for %s",threads_created(),why.c_str()); only_changed(snap,"","a refused run"); probe("refused");
}
SCENARIO("C11",output_location,1){
  Harness hh; Rng r(content_seed()); SceneOpt o; o.bad_files=wl(2); o.decoys=false; o.tiff=false; o.uniform=true; o.max_imgs=2;
  static const char* DIR[]={"/results","/results/deep/er","/w/out put","/"}; std::string dir=DIR[wl(4)],name="image",ext=r.below(3)?EXTS[r.below(EXTS.size())]:"ppm"; static const char* UN[]={"xyz","","pngx","jp","PNGG","txt","gif","PPM","Jpg","BMP","tIF","Png"}; bool unknown=wl(3)==2; if(unknown) ext=UN[wl(12)]; std::string out=(dir=="/"?"":dir)+"/"+name+(ext.empty()?"":"."+ext);
  o.out=out; SScene s=make_scene(r,o); place(s); sched.ncpu=2; std::string final_=unknown?out+".ppm":out; std::string why="usable"; bool refuse=false; int kind=(int)wl(8);
  if(dir!="/") fs::mkdirs(dir);
  switch(kind){
    case 0: break;
    case 1: fs::mkdirs(out); why="the output is a folder"; refuse=true; break;
    case 2: if(dir=="/") break; fs::remove(dir); why="the folder is missing"; refuse=true; break;
    case 3: if(dir=="/") break; fs::remove(dir); fs::put(dir,"a file"); why="the parent is a file"; refuse=true; break;
    case 4: fs::chmod(dir,0555); why="the folder cannot be written"; refuse=true; break;
    case 5: if(!unknown) break; fs::mkdirs(final_); why="the fallback name is a folder"; refuse=true; break;
    case 6: fs::put(final_,"old"); why="the output exists"; break;
    default: if(dir=="/") break; fs::put((dir+"2")+"/x.ppm","x"); fs::put(dir+"/sibling.ppm","sibling"); why="other files around"; break; }
  if(wl(4)==3&&!refuse){ why+="; queries fail"; faults=FaultCfg(); faults.on=true; faults.budget=1+(int)wl(2); faults.permille[OP_STAT]=(int)wl(2)*300; faults.permille[OP_ACCESS]=300; }
  u64 mark=err_mark(); auto snap=snapshot(); nontrivial(); sample("%s: %s",out.c_str(),why.c_str()); fs::clear_log(); int code; Outcome oc=run_main(hh,{"spectre",s.arg},&code); u64 nf=faults_fired(); heal(); std::string err=err_text().substr((size_t)mark); note("%s\n%s",s.text.c_str(),err.c_str());
  if(oc.kind==Outcome::EXITED) code=oc.code; else if(oc.kind!=Outcome::RETURNED) violation("dies","the program %s when %s",describe(oc).c_str(),why.c_str());
  if(refuse){ if(code==0) violation("accepted","exit status 0 although %s",why.c_str()); if(threads_created()) violation("late","%d threads were started although %s",threads_created(),why.c_str()); if(oc.kind!=Outcome::EXITED) violation("late","the program rendered although %s",why.c_str()); if(err.empty()) violation("silent","nothing was said although %s",why.c_str()); only_changed(snap,"","a refused output"); probe("refused"); return; }
  only_changed(snap,final_,"a render"); if(code==0) whole_image(hh,s,final_,why.c_str()); else { if(!nf) violation("false-failure","exit status %d although %s: %.300s",code,why.c_str(),err.c_str()); if(err.empty()) violation("silent","exit status %d without a message",code); }
  if(unknown&&code==0&&err.find(final_)==std::string::npos) violation("silent","the new name %s was not announced",final_.c_str());
}
