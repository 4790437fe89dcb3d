// Image textures: what is shown where, at every filter and footprint.
#include "images.hpp"
#include "faulty.hpp"
#include "cameras/camera_perspective.hpp"
#include <thread>
using namespace hx;
namespace {
const char* FILTERS[]={"unfiltered","trilinear","EWA"};
struct Tex { Pic pic; int kind=0,tol=0; bool flat_lookup=false; Vec2 shift,scale; std::unique_ptr<TextureImage> t; const ImageMap* own=nullptr; std::string from; int style=0; double mean[4]={0,0,0,0}; int levels=1; int kx=0,ky=0; double phase[4]={0,0,0,0}; };
struct Look { int t; HitPoint h; u32 got[6]; bool asked[6]; int roll; }; // got: as it is, transposed, rolled, identity texture, moved by whole periods, x and y exchanged
double wrap01(double u){ return u-floor(u); }
int wrapi(long long i,int n){ return (int)(((i%n)+n)%n); }
const ImageMap* build(const Pic& p,int kind){ const pixBGRA* d=(const pixBGRA*)p.v.data(); uint16_t s=(uint16_t)p.w; switch(kind){ case 0: return new ImageMapUnfiltered(d,s); case 1: return new ImageMapTrilinear(d,s); default: return new ImageMapEWA(d,s); } }
Pic rolled(const Pic& p,int mode){ Pic q=p; int s=p.w; for(int y=0;y<s;y++) for(int x=0;x<s;x++) q.v[(size_t)((y+(mode&2?s/2:0))%s)*s+(x+(mode&1?s/2:0))%s]=p.at(x,y); return q; }
Pic transposed(const Pic& p){ Pic q=p; for(int y=0;y<p.h;y++) for(int x=0;x<p.w;x++) q.v[(size_t)x*p.w+y]=p.at(x,y); return q; }
// linear interpolation between the centres of the texels, of an image that repeats
double linear(const Pic& p,int k,double u,double v){ double x=u*p.w-.5,y=v*p.h-.5; long long ix=(long long)floor(x),iy=(long long)floor(y); double fx=x-ix,fy=y-iy; auto at=[&](int a,int b){ return (double)chan(p.at(wrapi(ix+a,p.w),wrapi(iy+b,p.h)),k); };
  return (at(0,0)*(1-fx)+at(1,0)*fx)*(1-fy)+(at(0,1)*(1-fx)+at(1,1)*fx)*fy; }
void window(const Pic& p,int k,double u,double v,double rad,int* lo,int* hi){ double x=u*p.w-.5,y=v*p.h-.5; *lo=255; *hi=0; long long x0,x1,y0,y1; if(2*rad+1>=p.w||!std::isfinite(rad)){ x0=y0=0; x1=y1=p.w-1; } else { x0=(long long)floor(x-rad); x1=(long long)ceil(x+rad); y0=(long long)floor(y-rad); y1=(long long)ceil(y+rad); }
  for(long long j=y0;j<=y1;j++) for(long long i=x0;i<=x1;i++){ int c=chan(p.at(wrapi(i,p.w),wrapi(j,p.h)),k); *lo=std::min(*lo,c); *hi=std::max(*hi,c); } }
}
// ---- C28: lookups by several threads in shared images, loaded from files or given
SCENARIO("C28",texture_lookup,3){
  Harness hh; Rng r(content_seed()); int nt=1+(int)wl(4); sched.preempt=nt>1; if(nt>1) random_sched(); sched.ncpu=4; sched.step_budget=2000000000ull; set_fill(1+(u32)r.below(1000)); int n=1+(int)wl(3),per=20+(int)wl(60); std::vector<Tex> ts(n); fs::mkdirs("/t");
  for(int i=0;i<n;i++){ Tex& t=ts[i]; int side=1<<wl(wl(2)?8:5); t.kind=1+(int)r.below(2); if(r.below(4)==0) t.kind=0; t.style=(int)r.below(8); if(t.style>5){ t.style=side>=16?6:2; while(!t.kx&&!t.ky){ t.kx=(int)r.below(9)-4; t.ky=(int)r.below(9)-4; } while(8*std::max(abs(t.kx),abs(t.ky))>side){ t.kx/=2; t.ky/=2; } if(!t.kx&&!t.ky) t.kx=1; for(auto&q:t.phase) q=r.f(0,6.28f); } t.shift=r.below(3)?Vec2(r.f(-2,2),r.f(-2,2)):Vec2(0,0); t.scale=r.below(3)?Vec2(r.f(.2f,4),r.f(.2f,4)):Vec2(1,1); if(r.below(8)==0) t.scale.x*=-1; bool file=wl(2)==1&&t.style<3;
    if(file){ const char* ext=EXTS[r.below(EXTS.size())]; File8 f; do f=encode_any(ext,r,side,side,t.style); while(f.optional); t.pic=f.pix; t.tol=f.tol; t.from="/t/i"+std::to_string(i)+"."+ext; fs::put(t.from,f.data); }
    else { if(t.style<3) t.pic=make_pic(r,side,side,t.style,true); else if(t.style==6){ t.pic=make_pic(r,side,side,2,true); for(int y=0;y<side;y++) for(int x=0;x<side;x++){ int c[4]; for(int k=0;k<4;k++) c[k]=(int)lround(128+100*cos(2*M_PI*(t.kx*(x+.5)+t.ky*(y+.5))/side+t.phase[k])); t.pic.v[(size_t)y*side+x]=bgra(c[0],c[1],c[2],c[3]); } }
    else { t.pic=make_pic(r,side,side,2,true); u32 a=(u32)r.next(),b=(u32)r.next(); int cell=t.style==3?1:t.style==4?std::max(1,side>>(1+r.below(4))):side; for(int y=0;y<side;y++) for(int x=0;x<side;x++) t.pic.v[(size_t)y*side+x]=((x/cell+y/cell)&1)?a:b; } }
  }
  bool faulty=wl(3)==2; std::vector<std::unique_ptr<const ImageMap>> maps; struct Twin { std::unique_ptr<TextureImage> tr,ro[4],id; }; std::vector<Twin> tw(n);
  for(int i=0;i<n;i++){ Tex& t=ts[i]; if(t.from.empty()) continue; u64 before=faults_fired(); if(faulty) pick_faults(false);
    Outcome o=prog_run(hh,[&]{ File f(t.from.c_str()); t.t.reset(new TextureImage(f,t.shift,t.scale,t.kind==0?UNFILTERED:t.kind==1?TRILINEAR:EWA)); }); heal(); if(o.kind!=Outcome::RETURNED) violation("dies","loading %s %s",t.from.c_str(),describe(o).c_str());
    bool ok=false; prog_run(hh,[&]{ ok=t.t->is_loaded(); }); if(!ok){ if(faults_fired()==before) violation("not-loaded","%s is not loaded: %s",t.from.c_str(),err_text().c_str()); probe("not loaded because of faults"); t.t.reset(); } else { probe("loaded from a file"); if(faults_fired()>before) probe("loaded in spite of faults"); } }
  Outcome o=prog_run(hh,[&]{ for(int i=0;i<n;i++){ Tex& t=ts[i]; Vec2 zero(0,0),one(1,1); auto mk=[&](const Pic& p){ const ImageMap* m=build(p,t.kind); maps.emplace_back(m); return new TextureImage(m,zero,one,t.flat_lookup); };
      if(!t.t){ t.from=""; t.tol=0; if(t.kind&&r.below(6)==0) t.flat_lookup=true; t.own=build(t.pic,t.kind); maps.emplace_back(t.own); t.t.reset(new TextureImage(t.own,t.shift,t.scale,t.flat_lookup)); }
      if(t.tol==0){ tw[i].id.reset(mk(t.pic)); if(t.kind){ tw[i].tr.reset(mk(transposed(t.pic))); for(int k=1;k<4;k++) tw[i].ro[k].reset(mk(rolled(t.pic,k))); } } } }); if(o.kind!=Outcome::RETURNED) violation("dies","building the textures %s",describe(o).c_str());
  for(auto&t:ts){ t.levels=1; for(int s=t.pic.w;s>1;s/=2) t.levels++; for(int k=0;k<4;k++){ for(u32 p:t.pic.v) t.mean[k]+=chan(p,k); t.mean[k]/=t.pic.v.size(); } }
  std::vector<std::vector<Look>> ls(nt); for(auto&v:ls) for(int i=0;i<per;i++){ Look l; l.t=(int)r.below(n); Tex& t=ts[l.t]; auto co=[&]{ switch(r.below(6)){ case 0: return r.f(-20,20); case 1: return (float)(int)r.below(3)-1; case 2: return (float)(r.below(2*t.pic.w+1))/t.pic.w/2; case 3: { float b=(float)r.below(t.pic.w+1)/t.pic.w; return b+r.f(-1e-3f,1e-3f); } default: return r.f(0,1); } }; l.h.uv=Point2(co(),co()); 
    l.h.differentials=r.below(4)!=0; float big=expf(r.f(logf(.05f/t.pic.w),logf(3.f))); auto d=[&]{ return r.below(6)==0?0.f:big*r.f(-1,1)*(r.below(4)?1.f:expf(r.f(-6,0))); }; l.h.du=Vec2(d(),d()); l.h.dv=Vec2(d(),d()); if(r.below(3)==0){ float a=r.f(0,6.3f); l.h.du=Vec2(big*cosf(a),-big*sinf(a)); l.h.dv=Vec2(big*sinf(a),big*cosf(a)); } if(r.below(8)==0) l.h.du=l.h.dv=Vec2(0,0);
    if(t.style==6&&r.below(2)){ double q=t.kx*t.kx+t.ky*t.ky,c=exp(r.f(-4,1)),d2=exp(r.f(-4,1)); double A[2]={-t.ky/q*c,t.kx/q*c},B[2]={t.kx/q*d2,t.ky/q*d2}; if(r.below(2)){ std::swap(A[0],B[0]); std::swap(A[1],B[1]); } l.h.du=Vec2((float)(A[0]/t.scale.x),(float)(B[0]/t.scale.x)); l.h.dv=Vec2((float)(A[1]/t.scale.y),(float)(B[1]/t.scale.y)); } l.roll=1+(int)r.below(3); for(auto&b:l.asked) b=false; v.push_back(l); }
  // the same point of a texture without shift and scale
  auto plain=[&](const Look& l){ Tex& t=ts[l.t]; HitPoint h=l.h; h.uv.x=l.h.uv.x*t.scale.x+t.shift.x; h.uv.y=l.h.uv.y*t.scale.y+t.shift.y; h.du=Vec2(l.h.du.x*t.scale.x,l.h.du.y*t.scale.x); h.dv=Vec2(l.h.dv.x*t.scale.y,l.h.dv.y*t.scale.y); return h; };
  auto work=[&](int k){ for(auto&l:ls[k]){ Tex& t=ts[l.t]; Twin& w=tw[l.t]; auto ask=[&](int i,TextureImage* x,const HitPoint& h){ if(!x) return; l.asked[i]=true; l.got[i]=x->map_value(&h).bgra_value; }; ask(0,t.t.get(),l.h); HitPoint p=plain(l),q=p; ask(3,w.id.get(),p);
      q.uv=Point2(p.uv.y,p.uv.x); std::swap(q.du,q.dv); ask(1,w.tr.get(),q); q=p; if(l.roll&1) q.uv.x+=.5f; if(l.roll&2) q.uv.y+=.5f; if(t.pic.w>1) ask(2,w.ro[l.roll].get(),q); q=p; q.uv.x+=(float)(l.roll-2)*3; q.uv.y-=2; ask(4,w.id.get(),q); q=p; std::swap(q.du.x,q.du.y); std::swap(q.dv.x,q.dv.y); ask(5,w.id.get(),q); } };
  o=prog_run(hh,[&]{ if(nt<2) work(0); else { std::vector<std::thread> th; for(int k=0;k<nt;k++) th.emplace_back(work,k); for(auto&t:th) t.join(); } }); if(o.kind!=Outcome::RETURNED) violation("dies","looking colours up %s",describe(o).c_str());
  u64 h64=0; int judged=0,blurred=0,near_=0,waves=0;
  for(auto&v:ls) for(auto&l:v){ Tex& t=ts[l.t]; int S=t.pic.w; HitPoint p=plain(l); double u=wrap01(p.uv.x),w=wrap01(p.uv.y); char what[400]; bool diffs=l.h.differentials&&t.kind&&!t.flat_lookup; snprintf(what,400,"%s image of side %d (%s) at (%.8g,%.8g), footprint %s(%.5g,%.5g) (%.5g,%.5g), scale (%.4g,%.4g), shift (%.4g,%.4g)",FILTERS[t.kind],S,t.from.empty()?"given":t.from.c_str(),l.h.uv.x,l.h.uv.y,diffs?"":"not used ",l.h.du.x,l.h.dv.x,l.h.du.y,l.h.dv.y,t.scale.x,t.scale.y,t.shift.x,t.shift.y);
    h64=h64*1099511628211ull+l.got[0]; double dx=hypot(p.du.x,p.dv.x),dy=hypot(p.du.y,p.dv.y),longer=std::max(dx,dy),shorter=std::min(dx,dy); if(!diffs) longer=shorter=0; double slack=1e-6*(1+fabs(p.uv.x)+fabs(p.uv.y))*S; 
    for(int k=0;k<4;k++){ int c=chan(l.got[0],k); judged++;
      if(t.kind==0){ bool ok=false; double x=u*S,y=w*S; for(int a=-1;a<=0&&!ok;a++) for(int b=-1;b<=0&&!ok;b++) for(int s=0;s<4&&!ok;s++){ int xi=(int)floor(x+(s&1?slack:-slack))+a,yi=(int)floor(y+(s&2?slack:-slack))+b; ok=abs(chan(t.pic.at(wrapi(xi,S),wrapi(yi,S)),k)-c)<=t.tol; } 
        if(!ok) violation("wrong-texel","%s: channel %d is %d, no texel there has it",what,k,c); continue; }
      int lo,hi; window(t.pic,k,u,w,6*longer*S+2+slack,&lo,&hi); if(c<lo-3-t.levels-t.tol||c>hi+1+t.tol) violation("foreign-colour","%s: channel %d is %d, but the texels around are between %d and %d",what,k,c,lo,hi); if(hi-lo<100) near_++;
      if(shorter==0&&(t.kind==2||longer==0)){ double a=1e9,b=-1e9; for(int s=0;s<5;s++){ double e=linear(t.pic,k,u+(s<4?(s&1?slack:-slack)/S:0),w+(s<4?(s&2?slack:-slack)/S:0)); a=std::min(a,e); b=std::max(b,e); } if(c<a-1.5-t.tol||c>b+.5+t.tol) violation("wrong-colour","%s: channel %d is %d, between the centres of the texels it should be %.2f",what,k,c,a); }
      bool all=t.kind==1?std::max({fabs(p.du.x),fabs(p.du.y),fabs(p.dv.x),fabs(p.dv.y)})>=1:shorter>=1; if(diffs&&all){ blurred++; if(c<t.mean[k]-t.levels-2-t.tol||c>t.mean[k]+.5+t.tol) violation("wrong-average","%s: channel %d is %d, the average of the image is %.2f",what,k,c,t.mean[k]); }
      double fine=t.kind==1?std::max({fabs(p.du.x),fabs(p.du.y),fabs(p.dv.x),fabs(p.dv.y)}):shorter; if(diffs&&t.style==3&&t.from.empty()&&S>1&&fine*S>2.2){ blurred++; if(c<t.mean[k]-t.levels-4||c>t.mean[k]+1) violation("aliasing","%s: channel %d of an image of alternating texels is %d instead of the average %.2f",what,k,c,t.mean[k]); }
      if(t.style==6&&t.kind){ double kk=hypot(t.kx,t.ky),wave=128+100*cos(2*M_PI*(t.kx*u+t.ky*w)+t.phase[k]),blur,across; double ax=p.du.x,ay=p.dv.x,bx=p.du.y,by=p.dv.y; if(hypot(ax,ay)<hypot(bx,by)){ std::swap(ax,bx); std::swap(ay,by); } double thin=std::max(shorter,longer/30);
        if(t.kind==1){ blur=2*M_PI*kk*2*std::max(fine,1./S); across=std::max(abs(t.kx),abs(t.ky))*fine*.75; } else { blur=2*M_PI*(fabs(t.kx*ax+t.ky*ay)+(shorter>0?fabs(t.kx*bx+t.ky*by)*thin/shorter:0)+kk*std::max(2*thin,1./S)); across=fabs(t.kx*ax+t.ky*ay); } if(!diffs||(t.kind==2&&shorter==0)) across=0,blur=2*M_PI*kk/S;
        if(blur<.4){ waves++; if(fabs(c-wave)>22+t.levels) violation("blurred","%s: channel %d of a wave (%d,%d) is %d instead of %.1f",what,k,t.kx,t.ky,c,wave); }
        if(across>1.5){ waves++; if(fabs(c-128)>38) violation("not-averaged","%s: channel %d of a wave (%d,%d) is %d instead of the average 128",what,k,t.kx,t.ky,c); } }
      static const char* N[]={"","transposed, looked up at the mirrored point,","moved by half of its side, looked up at the moved point,","without shift and scale, looked up at the shifted and scaled point,","looked up whole periods away","looked up with the sides of the footprint exchanged"};
      for(int i=1;i<6;i++) if(l.asked[i]){ int e=chan(l.got[i],k),tol=4; if(t.kind==0) continue; bool far=std::max(fabs(p.uv.x),fabs(p.uv.y))>3; if(abs(e-c)>tol){ // rounding of the coordinates shows where the image has steps
          double worst=0; int lo2,hi2; window(t.pic,k,u,w,2.5,&lo2,&hi2); worst=(hi2-lo2)*2e-6*(far?40:8)*S; if(abs(e-c)>tol+worst) violation("inconsistent","%s: channel %d is %d, but the image %s gives %d",what,k,c,N[i],e); } } }
    if(t.tol==0&&l.asked[0]){ static const ImageChannel ch[]={RED,GREEN,BLUE,ALPHA}; int k=l.roll; bool inv=l.t&1; MaskBoolean m(t.t.get(),ch[k],inv); bool masked=false; prog_run(hh,[&]{ masked=m.is_masked(&l.h); }); if(masked!=((chan(l.got[0],k)>=128)==inv)) violation("wrong-mask","%s: channel %d is %d, the %smask says %s",what,k,chan(l.got[0],k),inv?"inverted ":"",masked?"masked":"visible"); } }
  hash_mix(h64); nontrivial(); probe("colours judged",judged); if(blurred) probe("averages judged",blurred); if(waves) probe("waves judged",waves); if(near_) probe("narrow ranges judged",near_); if(nt>1) probe("threads",nt); sample("%d images, %d lookups by each of %d threads",n,per,nt);
  prog_run(hh,[&]{ for(auto&t:ts) t.t.reset(); tw.clear(); maps.clear(); TexLib.clear(); });
}
// ---- C28: where on the image a point of a surface is, and how much of the image a pixel sees
namespace {
struct V3 { double x,y,z; }; V3 v3(const Point3& p){ return {p.x,p.y,p.z}; } V3 v3(const Vec3& p){ return {p.x,p.y,p.z}; } V3 operator-(V3 a,V3 b){ return {a.x-b.x,a.y-b.y,a.z-b.z}; } V3 operator+(V3 a,V3 b){ return {a.x+b.x,a.y+b.y,a.z+b.z}; } V3 operator*(V3 a,double k){ return {a.x*k,a.y*k,a.z*k}; }
double dot(V3 a,V3 b){ return a.x*b.x+a.y*b.y+a.z*b.z; } V3 cross(V3 a,V3 b){ return {a.y*b.z-a.z*b.y,a.z*b.x-a.x*b.z,a.x*b.y-a.y*b.x}; } double len(V3 a){ return sqrt(dot(a,a)); }
struct Flat { V3 p[3]; double t[3][2]; }; // a triangle in the world, with its texture coordinates
bool coords(const Flat& f,V3 p,double* u,double* v,double* b){ V3 e=f.p[1]-f.p[0],g=f.p[2]-f.p[0],n=cross(e,g),d=p-f.p[0]; double q=dot(n,n); b[1]=dot(cross(d,g),n)/q; b[2]=dot(cross(e,d),n)/q; b[0]=1-b[1]-b[2]; *u=*v=0; for(int i=0;i<3;i++){ *u+=b[i]*f.t[i][0]; *v+=b[i]*f.t[i][1]; } return b[0]>-1e-3&&b[1]>-1e-3&&b[2]>-1e-3; }
struct Obj28 { Asset* a=nullptr; std::vector<Flat> fs; bool sphere=false; Matrix4 inv; V3 c; double scale=1; };
}
SCENARIO("C28",texture_footprint,2){
  Harness hh; Rng r(content_seed()); int nt=1+(int)wl(4); sched.preempt=nt>1; if(nt>1) random_sched(); sched.ncpu=4; set_fill(1+(u32)r.below(1000)); World w; int no=1+(int)wl(5),per=10+(int)wl(40); std::vector<Obj28> os;
  Outcome o=prog_run(hh,[&]{ w.scene=new Scene(); const Texture* tx=new TextureUniform(Spectrum(.5f)); w.texs.push_back(tx); const Bsdf* mt=new SingleBRDF(new Lambertian(),tx); w.mats.push_back(mt); for(int i=0;i<no;i++){ Obj28 b; b.sphere=r.below(3)==0; b.scale=r.below(3)?expf(r.f(-3,2)):1; Matrix4 t,x,y,s; t.set_translation(Vec3((float)(i-no/2)*3.f,r.f(-2,2),r.f(-2,2))); x.set_rotate_x(r.f(0,6.2f)); y.set_rotate_y(r.f(0,6.2f)); if(b.sphere||r.below(2)) s.set_scale((float)b.scale); else s.set_scale(Vec3((float)b.scale,(float)b.scale*r.f(.3f,2),(float)b.scale*r.f(.3f,2))); Matrix4 m=t*x*y*s; Shape* sh; int faces=1;
      if(b.sphere){ sh=new Sphere(); m.inverse(&b.inv); b.c=v3(m*Point3(0,0,0)); } else { int k=1+(int)r.below(6); faces=k; Mesh* me=new Mesh(1+(unsigned)r.below(k)); float d=expf(r.f(-3,3)); int style=(int)r.below(3); for(int j=0;j<k;j++){ Vertex v[3]; Flat f; do { for(auto&q:v) q.p=Point3(r.f(-1,1),r.f(-1,1),r.f(-1,1)); } while(len(cross(v3(v[1].p)-v3(v[0].p),v3(v[2].p)-v3(v[0].p)))<.3); double det; do { for(auto&q:v) q.t=style==0?Point2(q.p.x*d,q.p.y*d):Point2(d*r.f(-1,1),d*r.f(-1,1)); det=((double)v[1].t.x-v[0].t.x)*(v[2].t.y-v[0].t.y)-((double)v[1].t.y-v[0].t.y)*(v[2].t.x-v[0].t.x); if(style==0&&(fabs(det)<.1*d*d||len(cross(v3(v[1].p)-v3(v[0].p),v3(v[2].p)-v3(v[0].p)))<.3)){ for(auto&q:v) q.p=Point3(r.f(-1,1),r.f(-1,1),r.f(-1,1)*.2f); } } while(fabs(det)<.1*d*d||len(cross(v3(v[1].p)-v3(v[0].p),v3(v[2].p)-v3(v[0].p)))<.3);
          V3 n=cross(v3(v[1].p)-v3(v[0].p),v3(v[2].p)-v3(v[0].p)); n=n*(1/len(n)); for(int q=0;q<3;q++){ v[q].n=Normal((float)n.x,(float)n.y,(float)n.z); f.p[q]=v3(m*v[q].p); f.t[q][0]=v[q].t.x; f.t[q][1]=v[q].t.y; } me->add_triangle(v,v+1,v+2); b.fs.push_back(f); } me->finalize(); sh=me; }
      w.scene->inherit_shape(sh); b.a=new Asset(sh,m,1); std::vector<u8> idx(faces,0); const Bsdf* ms[1]={mt}; b.a->set_materials(ms,1,idx.data()); w.scene->inherit_asset(b.a); os.push_back(b); } w.scene->k.buildTree(); }); if(o.kind!=Outcome::RETURNED) violation("dies","building the scene %s",describe(o).c_str());
  struct Q { Ray r,x,y; HitPoint h; bool hit; }; std::vector<std::vector<Q>> qs(nt); int W=64<<r.below(5); Camera* cam=nullptr; 
  o=prog_run(hh,[&]{ Point3 pos(r.f(-4,4),r.f(-4,4),r.f(-14,-8)),tg(0,0,0); Vec3 up(0,1,0); if(r.below(3)) cam=new CameraPerspective(&pos,&tg,&up,W,W,r.f(.4f,1.4f)); else cam=new CameraOrthographic(&pos,&tg,&up,W,W); }); if(o.kind!=Outcome::RETURNED) violation("dies","the camera %s",describe(o).c_str());
  for(auto&v:qs) for(int i=0;i<per;i++){ Q q; q.hit=false; Sample s; s.posx=r.f(0,(float)W-1); s.posy=r.f(0,(float)W-1); prog_run(hh,[&]{ cam->create_ray(&s,&q.r,&q.x,&q.y); }); if(r.below(2)){ V3 c; Obj28& b=os[r.below(no)]; if(b.sphere) c=b.c; else { Flat& f=b.fs[r.below(b.fs.size())]; double a=r.f(.1f,.8f),e=r.f(.05f,.9f-(float)a); c=f.p[0]*a+f.p[1]*e+f.p[2]*(1-a-e); } V3 d=c-v3(q.r.origin); d=d*(1/len(d)); V3 od=v3(q.r.direction); auto mv=[&](Ray& z){ V3 k=v3(z.direction)-od+d; k=k*(1/len(k)); z.direction=Vec3((float)k.x,(float)k.y,(float)k.z); }; mv(q.x); mv(q.y); mv(q.r); } v.push_back(q); }
  auto work=[&](int k){ for(auto&q:qs[k]){ q.h.differentials=false; q.hit=w.scene->k.intersect(&q.r,&q.h); if(q.hit){ Ray x=q.x,y=q.y; calculate_differentials(&q.h,&x,&y); } } };
  o=prog_run(hh,[&]{ if(nt<2) work(0); else { std::vector<std::thread> th; for(int k=0;k<nt;k++) th.emplace_back(work,k); for(auto&t:th) t.join(); } }); if(o.kind!=Outcome::RETURNED) violation("dies","looking at the scene %s",describe(o).c_str());
  int uvs=0,fps=0,none=0; u64 h64=0;
  for(auto&v:qs) for(auto&q:v) if(q.hit){ const Obj28* b=nullptr; for(auto&x:os) if(x.a==q.h.asset_h) b=&x; if(!b) violation("unknown-object","the hit object is not in the scene"); float bits[2]={q.h.uv.x,q.h.uv.y}; h64=h64*1099511628211ull+bytes_hash(bits,8);
    V3 p=v3(q.h.point_h),n=v3(Vec3(q.h.normal_h.x,q.h.normal_h.y,q.h.normal_h.z)),d=v3(q.r.direction); double cosn=fabs(dot(n,d))/len(n)/len(d); if(cosn<.1) continue; char what[300]; snprintf(what,300,"ray (%.7g,%.7g,%.7g)->(%.7g,%.7g,%.7g) to a %s of scale %g",q.r.origin.x,q.r.origin.y,q.r.origin.z,q.r.direction.x,q.r.direction.y,q.r.direction.z,b->sphere?"sphere":"mesh",b->scale);
    auto plane=[&](const Ray& z){ V3 dz=v3(z.direction),oz=v3(z.origin); return oz+dz*(dot(n,p-oz)/dot(n,dz)); }; V3 px=plane(q.x),py=plane(q.y); double want[4]; bool steep=fabs(dot(n,v3(q.x.direction)))<.05||fabs(dot(n,v3(q.y.direction)))<.05; double rel=.02,reff=0;
    if(b->sphere){ auto uv=[&](V3 g,double* u,double* e){ Point3 k=b->inv*Point3((float)g.x,(float)g.y,(float)g.z); V3 l=v3(k); *u=atan2(l.y,l.x)/(2*M_PI); if(*u<0) *u+=1; *e=1-acos(std::max(-1.,std::min(1.,l.z/len(l))))/M_PI; return hypot(l.x,l.y)/len(l); }; double u,e; double away=uv(p,&u,&e); if(away<.15) continue; double du=fabs(u-q.h.uv.x); du=std::min(du,1-du); uvs++; double tol=2e-3+1.2e-5*(1+len(p)+len(v3(q.r.origin)))/b->scale/away; if(du>tol||fabs(e-q.h.uv.y)>tol) violation("wrong-place","%s: texture coordinates (%g,%g) instead of (%g,%g)",what,q.h.uv.x,q.h.uv.y,u,e);
      // the footprint of a curved surface is the one of its tangent plane
      V3 step[2]={px-p,py-p}; for(int k=0;k<2;k++){ double L=len(step[k]); if(L==0) { steep=true; break; } double h=1e-2*b->scale; double u2,e2,u3,e3; uv(p+step[k]*(h/L),&u2,&e2); uv(p-step[k]*(h/L),&u3,&e3); double x=u2-u3; if(x>.5) x-=1; if(x<-.5) x+=1; want[k]=x/(2*h)*L; want[2+k]=(e2-e3)/(2*h)*L; } rel=.04; }
    else { double u=0,e=0,bc[3]; const Flat* f=nullptr; double best=1e9; for(auto&x:b->fs){ double a,c,y[3]; V3 nn=cross(x.p[1]-x.p[0],x.p[2]-x.p[0]); double off=fabs(dot(p-x.p[0],nn))/len(nn)/b->scale; if(!coords(x,p,&a,&c,y)) continue; int same=0; if(off<1e-3) { same=1; if(f) { f=nullptr; best=-1; break; } if(off<best){ best=off; f=&x; u=a; e=c; } } (void)same; } if(best<0||!f){ none++; continue; } double span=0; for(int i=0;i<3;i++) for(int k=0;k<2;k++) span=std::max(span,fabs(f->t[i][k]-f->t[(i+1)%3][k])); uvs++; double tol=(2e-3+4e-5*(1+len(p)+len(v3(q.r.origin)))/b->scale)*span; if(fabs(u-q.h.uv.x)>tol||fabs(e-q.h.uv.y)>tol) violation("wrong-place","%s: texture coordinates (%g,%g) instead of (%g,%g)",what,q.h.uv.x,q.h.uv.y,u,e);
      double u2,e2; coords(*f,px,&u2,&e2,bc); want[0]=u2-u; want[2]=e2-e; coords(*f,py,&u2,&e2,bc); want[1]=u2-u; want[3]=e2-e; }
    if(steep) continue; if(!q.h.differentials){ double sn=len(cross(v3(q.h.dpdu),v3(q.h.dpdv))); if(sn>.02) violation("no-footprint","%s: the pixel has no footprint, although its neighbours meet the surface",what); none++; continue; } double got[4]={q.h.du.x,q.h.du.y,q.h.dv.x,q.h.dv.y}; for(int i=0;i<4;i++) reff=std::max(reff,fabs(want[i])); 
    double near_=std::max(len(px-p),len(py-p)); if(near_<2e-4*(1+len(p))) continue; fps++; // the footprint must be larger than the rounding of the point
    for(int i=0;i<4;i++) if(!(fabs(got[i]-want[i])<=rel*reff+4e-6*(1+len(p))/near_*reff)){ static const char* N[]={"du/dx","du/dy","dv/dx","dv/dy"}; violation("wrong-footprint","%s: %s is %g instead of %g (footprint (%g,%g) (%g,%g) instead of (%g,%g) (%g,%g))",what,N[i],got[i],want[i],got[0],got[2],got[1],got[3],want[0],want[2],want[1],want[3]); } }
  hash_mix(h64); if(uvs) nontrivial(); probe("coordinates judged",uvs); if(fps) probe("footprints judged",fps); if(none) probe("no footprint",none); if(nt>1) probe("threads",nt); sample("%d objects, image of %d pixels, %d rays by each of %d threads",no,W,per,nt); prog_run(hh,[&]{ delete cam; delete w.scene; w.scene=nullptr; });
}
// ---- C28: bump maps lean the way their image says
SCENARIO("C28",texture_bump,1){
  Harness hh; Rng r(content_seed()); int nt=1+(int)wl(3); sched.preempt=nt>1; if(nt>1) random_sched(); sched.ncpu=4; set_fill(1+(u32)r.below(1000)); World w; int no=1+(int)wl(4),per=8+(int)wl(30); struct B { Obj28 o; int kind; double x,y,z; int dir; const Bsdf* m; bool mirrored=false; }; std::vector<B> os(no);
  Outcome o=prog_run(hh,[&]{ w.scene=new Scene(); const Texture* tx=new TextureUniform(Spectrum(.5f)); w.texs.push_back(tx); int i=0; for(auto&b:os){ b.kind=(int)r.below(2); b.o.sphere=r.below(4)==0; b.o.scale=r.below(3)?expf(r.f(-2,1)):1; Vec2 zero(0,0),one(1,1); Pic p; p.w=p.h=64; p.v.resize(64*64); u32 chn=(u32)r.below(4);
      if(b.kind==0){ int c[3]={(int)r.below(256),(int)r.below(256),180+(int)r.below(76)}; b.x=c[0]/127.5-1; b.y=c[1]/127.5-1; b.z=c[2]/127.5-1; for(auto&q:p.v) q=bgra(c[0],c[1],c[2],255); } else { b.dir=(int)r.below(4); int step=2+(int)r.below(3); for(int y=0;y<64;y++) for(int x=0;x<64;x++){ int k=b.dir&2?y:x; if(b.dir&1) k=63-k; int g=k*step; p.v[y*64+x]=bgra(chn==0?g:7,chn==1?g:90,chn==2?g:200,chn==3?g:33); } }
      const ImageMap* im=build(p,b.kind==0?(int)r.below(3):1+(int)r.below(2)); w.maps.push_back(im); TextureImage* t=new TextureImage(im,zero,one,false); w.texs.push_back(t); Bsdf* m=new SingleBRDF(new Lambertian(),tx); static const ImageChannel ch[]={RED,GREEN,BLUE,ALPHA}; if(b.kind==0) m->inherit_bump(new TextureNormal(t)); else m->inherit_bump(new TextureHeight(t,ch[chn])); w.mats.push_back(m); b.m=m;
      Matrix4 tr,x,y,s; tr.set_translation(Vec3((float)(i++-no/2)*3.f,r.f(-2,2),r.f(-2,2))); x.set_rotate_x(r.f(0,6.2f)); y.set_rotate_y(r.f(0,6.2f)); if(b.o.sphere||r.below(2)) s.set_scale((float)b.o.scale); else s.set_scale(Vec3((float)b.o.scale,(float)b.o.scale*r.f(.3f,2),(float)b.o.scale*r.f(.3f,2))); Matrix4 M=tr*x*y*s; Shape* sh;
      if(b.o.sphere){ sh=new Sphere(); M.inverse(&b.o.inv); b.o.c=v3(M*Point3(0,0,0)); } else { Mesh* me=new Mesh(1); Vertex v[3]; Flat f; do { for(auto&q:v) q.p=Point3(r.f(-1,1),r.f(-1,1),r.f(-1,1)); } while(len(cross(v3(v[1].p)-v3(v[0].p),v3(v[2].p)-v3(v[0].p)))<.3); double det; do { for(auto&q:v) q.t=Point2(r.f(.2f,.8f),r.f(.2f,.8f)); det=((double)v[1].t.x-v[0].t.x)*(v[2].t.y-v[0].t.y)-((double)v[1].t.y-v[0].t.y)*(v[2].t.x-v[0].t.x); } while(fabs(det)<.08); b.mirrored=det<0; V3 n=cross(v3(v[1].p)-v3(v[0].p),v3(v[2].p)-v3(v[0].p)); n=n*(1/len(n)); for(int q=0;q<3;q++){ v[q].n=Normal((float)n.x,(float)n.y,(float)n.z); f.p[q]=v3(M*v[q].p); f.t[q][0]=v[q].t.x; f.t[q][1]=v[q].t.y; } me->add_triangle(v,v+1,v+2); b.o.fs.push_back(f); me->finalize(); sh=me; }
      w.scene->inherit_shape(sh); b.o.a=new Asset(sh,M,1); std::vector<u8> idx(1,0); const Bsdf* ms[1]={m}; b.o.a->set_materials(ms,1,idx.data()); w.scene->inherit_asset(b.o.a); } w.scene->k.buildTree(); }); if(o.kind!=Outcome::RETURNED) violation("dies","building the scene %s",describe(o).c_str());
  struct Q { Ray r; HitPoint h; bool hit; ShadingSpace m; Normal n; }; std::vector<std::vector<Q>> qs(nt); for(auto&v:qs) for(int i=0;i<per;i++){ Q q; q.hit=false; B& b=os[r.below(no)]; V3 c; if(b.o.sphere) c=b.o.c+V3{r.f(-.6f,.6f),r.f(-.6f,.6f),r.f(-.6f,.6f)}*b.o.scale; else { Flat& f=b.o.fs[0]; double a=r.f(.1f,.8f),e=r.f(.05f,.9f-(float)a); c=f.p[0]*a+f.p[1]*e+f.p[2]*(1-a-e); } V3 d={r.f(-1,1),r.f(-1,1),r.f(-1,1)}; if(len(d)<.1) d={0,0,1}; d=d*(1/len(d)); V3 from=c-d*r.f(3,12); q.r=Ray(Point3((float)from.x,(float)from.y,(float)from.z),Vec3((float)d.x,(float)d.y,(float)d.z)); v.push_back(q); }
  auto work=[&](int k){ for(auto&q:qs[k]){ q.h.differentials=false; q.hit=w.scene->k.intersect(&q.r,&q.h); if(q.hit) q.h.asset_h->get_material(q.h.index)->gen_shading_matrix(&q.h,&q.m,&q.n); } };
  o=prog_run(hh,[&]{ if(nt<2) work(0); else { std::vector<std::thread> th; for(int k=0;k<nt;k++) th.emplace_back(work,k); for(auto&t:th) t.join(); } }); if(o.kind!=Outcome::RETURNED) violation("dies","bending the normals %s",describe(o).c_str());
  int judged=0; auto unit=[](V3 a){ return a*(1/len(a)); }; 
  for(auto&v:qs) for(auto&q:v) if(q.hit){ const B* b=nullptr; for(auto&x:os) if(x.o.a==q.h.asset_h) b=&x; if(!b) violation("unknown-object","the hit object is not in the scene"); V3 g=unit(v3(Vec3(q.h.normal_h.x,q.h.normal_h.y,q.h.normal_h.z))),p=v3(q.h.point_h),du,dv; if(b->o.sphere){ // east and north
      V3 ax=v3(Vec3(0,0,0)); Point3 l=b->o.inv*q.h.point_h; (void)ax; if(hypot(l.x,l.y)<.2) continue; Matrix4 m=b->o.inv,back; prog_run(hh,[&]{ m.inverse(&back); }); du=unit(v3(back*Vec3(-l.y,l.x,0))); dv=unit(cross(g,du)); Point3 up=b->o.inv*Point3((float)(p.x+dv.x*b->o.scale*.01),(float)(p.y+dv.y*b->o.scale*.01),(float)(p.z+dv.z*b->o.scale*.01)); if(up.z<l.z) dv=dv*-1; if(b->kind==1&&(q.h.uv.x<.15||q.h.uv.x>.85||q.h.uv.y<.15||q.h.uv.y>.85)) continue; }
    else { const Flat& f=b->o.fs[0]; V3 e1=f.p[1]-f.p[0],e2=f.p[2]-f.p[0]; double a=f.t[1][0]-f.t[0][0],c=f.t[1][1]-f.t[0][1],d=f.t[2][0]-f.t[0][0],e=f.t[2][1]-f.t[0][1],det=a*e-c*d; du=unit((e1*e-e2*c)*(1/det)); dv=unit((e2*a-e1*d)*(1/det)); }
    char what[300]; snprintf(what,300,"ray (%.7g,%.7g,%.7g)->(%.7g,%.7g,%.7g) to a %s of scale %g%s with a %s map",q.r.origin.x,q.r.origin.y,q.r.origin.z,q.r.direction.x,q.r.direction.y,q.r.direction.z,b->o.sphere?"sphere":"triangle",b->o.scale,b->mirrored?", mirrored coordinates,":"",b->kind?"height":"normal");
    V3 n=v3(Vec3(q.n.x,q.n.y,q.n.z)),S=v3(q.m.s),T=v3(q.m.t),N=v3(Vec3(q.m.n.x,q.m.n.y,q.m.n.z)); judged++; probe(b->kind?"height maps judged":"normal maps judged"); if(b->mirrored) probe("mirrored coordinates judged");
    if(!(len(n-N)<1e-3)||!(fabs(len(N)-1)<1e-3)||!(fabs(len(S)-1)<1e-3)||!(fabs(len(T)-1)<1e-3)||!(fabs(dot(S,T))<2e-3)||!(fabs(dot(S,N))<2e-3)||!(fabs(dot(T,N))<2e-3)) violation("crooked-frame","%s: axes (%g,%g,%g) (%g,%g,%g) (%g,%g,%g)",what,S.x,S.y,S.z,T.x,T.y,T.z,N.x,N.y,N.z);
    if(!(dot(n,g)>=-1e-3)) violation("turned-over","%s: the normal (%g,%g,%g) is on the other side of (%g,%g,%g)",what,n.x,n.y,n.z,g.x,g.y,g.z);
    if(b->kind==0){ V3 t=dv*-1; t=unit(t-du*dot(t,du)); V3 want=unit(du*b->x+t*b->y+g*b->z); if(len(want-n)>.02) violation("wrong-lean","%s: the colour (%.3f,%.3f,%.3f) gives the normal (%g,%g,%g) instead of (%g,%g,%g), surface (%g,%g,%g)",what,b->x,b->y,b->z,n.x,n.y,n.z,want.x,want.y,want.z,g.x,g.y,g.z); }
    else { double uphill=b->dir&2?dot(n,dv-du*dot(dv,du)):dot(n,du-dv*dot(dv,du)); if(b->dir&1) uphill*=-1; if(!(uphill<-1e-3)) violation("wrong-slope","%s: the height %s with %s, but the normal leans %g towards it",what,b->dir&1?"falls":"rises",b->dir&2?"v":"u",uphill); double aside=dot(n,b->dir&2?du:dv); if(fabs(aside)>.02) violation("wrong-slope","%s: the height changes with %s only, but the normal leans %g with the other coordinate",what,b->dir&2?"v":"u",aside); } }
  if(judged) nontrivial(); probe("normals judged",judged); if(nt>1) probe("threads",nt); sample("%d objects, %d rays by each of %d threads",no,per,nt); hash_mix((u64)judged); prog_run(hh,[&]{ delete w.scene; w.scene=nullptr; });
}
