// What lights report when they are sampled, and how much light arrives.
#include "common.hpp"
#include "faulty.hpp"
#include "utility/occlusion_tester.hpp"
#include "lights/area_light.hpp"
#include "samplers/sampler_random.hpp"
#include <thread>
#include <array>
using namespace hx;
namespace {
static const int SPN=(int)(sizeof(Spectrum)/sizeof(float));
struct D3 { double x,y,z; };
D3 d3(const Point3& p){ return {p.x,p.y,p.z}; } D3 operator-(D3 a,D3 b){ return {a.x-b.x,a.y-b.y,a.z-b.z}; } double dot3(D3 a,D3 b){ return a.x*b.x+a.y*b.y+a.z*b.z; } D3 cross3(D3 a,D3 b){ return {a.y*b.z-a.z*b.y,a.z*b.x-a.x*b.z,a.x*b.y-a.y*b.x}; } double len3(D3 a){ return sqrt(dot3(a,a)); }
struct Tri { D3 a,b,c; double area() const { return len3(cross3(b-a,c-a))/2; } };
struct OneLight { AreaLight* l=nullptr; Shape* shape=nullptr; bool sphere=false,masked=false; double scale=1,area=0; std::vector<Tri> tris; Matrix4 t; };
Vertex vert(const Point3& p,const Vec3& n,float u,float v){ Vertex x; x.p=p; x.n=Normal(n.x,n.y,n.z); x.t=Point2(u,v); return x; }
Rng* any_uv=nullptr; // texture coordinates of any kind
void add_tri(Mesh* m,std::vector<Tri>* keep,const Point3& a,const Point3& b,const Point3& c){ Vec3 n=cross(b-a,c-a); if(n.length()>1e-12f) n.normalize(); else n=Vec3(0,0,1); Vertex v[3]={vert(a,n,0,0),vert(b,n,1,0),vert(c,n,1,1)}; if(any_uv) for(auto&x:v) x.t=Point2(any_uv->f(-2,2),any_uv->f(-2,2)); m->add_triangle(v,v+1,v+2); if(keep) keep->push_back(Tri{d3(a),d3(b),d3(c)}); }
Matrix4 place(Rng& r,float scale,float spread,bool uniform){ Matrix4 t,a,b,s; t.set_translation(Vec3(r.f(-spread,spread),r.f(-spread,spread),r.f(-spread,spread))); a.set_rotate_x(r.f(0,6.2f)); b.set_rotate_y(r.f(0,6.2f)); if(uniform) s.set_scale(scale); else s.set_scale(Vec3(scale,scale*r.f(.3f,2),scale*r.f(.3f,2))); return t*a*b*s; }
float any_scale(Rng& r){ return r.below(3)==0?1.f:expf(r.f(logf(.002f),logf(40.f))); }
const Bsdf* matte(World& w,float albedo){ const Texture* t=new TextureUniform(Spectrum(albedo)); w.texs.push_back(t); const Bsdf* b=new SingleBRDF(new Lambertian(),t); w.mats.push_back(b); return b; }
void dress(Asset* a,const Shape* s,const Bsdf* b){ std::vector<u8> idx(s->get_faces_number(),0); const Bsdf* m[1]={b}; a->set_materials(m,1,idx.data()); }
std::string show(const Ray& r){ char b[200]; snprintf(b,200,"ray (%.9g,%.9g,%.9g)->(%.9g,%.9g,%.9g)",r.origin.x,r.origin.y,r.origin.z,r.direction.x,r.direction.y,r.direction.z); return b; }
OneLight make_light(World& w,Rng& r,float spread){
  OneLight o; o.scale=any_scale(r); int kind=(int)r.below(4); o.sphere=kind==0; 
  if(kind==0) o.shape=new Sphere();
  else if(kind==1){ Mesh* m=new Mesh(1+(unsigned)r.below(4)); float s=r.f(.4f,1.5f); add_tri(m,&o.tris,Point3(-s,-s,0),Point3(s,-s,0),Point3(s,s,0)); add_tri(m,&o.tris,Point3(-s,-s,0),Point3(s,s,0),Point3(-s,s,0)); m->finalize(); o.shape=m; }
  else { int k=1+(int)r.below(kind==2?3:20); Mesh* m=new Mesh(1+(unsigned)r.below(k)); for(int i=0;i<k;i++){ Point3 c(r.f(-.7f,.7f),r.f(-.7f,.7f),r.f(-.7f,.7f)); Point3 p[3]; do for(auto&q:p) q=Point3(c.x+r.f(-.5f,.5f),c.y+r.f(-.5f,.5f),c.z+r.f(-.5f,.5f)); while((Tri{d3(p[0]),d3(p[1]),d3(p[2])}).area()<.03); add_tri(m,&o.tris,p[0],p[1],p[2]); } m->finalize(); o.shape=m; }
  w.scene->inherit_shape(o.shape); o.t=place(r,(float)o.scale,spread,o.sphere||r.below(2)); for(auto&t:o.tris){ auto mv=[&](D3 p){ return d3(o.t*Point3((float)p.x,(float)p.y,(float)p.z)); }; t={mv(t.a),mv(t.b),mv(t.c)}; o.area+=t.area(); } if(o.sphere) o.area=4*M_PI*o.scale*o.scale;
  o.l=new AreaLight(o.shape,o.t,Spectrum(r.f(.2f,5))); dress(o.l,o.shape,matte(w,.5f)); w.scene->inherit_light(o.l); return o;
}
Ray wiggle(const Ray& r,int k,float eps){ Ray x(r); float po=eps*(1+std::max({fabsf(r.origin.x),fabsf(r.origin.y),fabsf(r.origin.z)})*.1f); if(k<8) x.origin=Point3(r.origin.x+(k&1?po:-po),r.origin.y+(k&2?po:-po),r.origin.z+(k&4?po:-po)); else { x.direction=Vec3(r.direction.x+(k&1?eps:-eps),r.direction.y+(k&2?eps:-eps),r.direction.z+(k&4?eps:-eps)); x.direction.normalize(); } return x; }
const Asset* nearest(const std::vector<const Asset*>& v,const Ray& r,float* d){ const Asset* n=nullptr; *d=FLT_MAX; for(auto a:v){ float e=FLT_MAX; HitPoint h; if(a->intersect(&r,&e,&h)&&e<*d){ *d=e; n=a; } } return n; }
double facing(const HitPoint& h,const Ray& r){ return -((double)h.normal_h.x*r.direction.x+(double)h.normal_h.y*r.direction.y+(double)h.normal_h.z*r.direction.z); }
void seed_well(Rng& r,unsigned* s,int mode){ u32 c=(u32)r.next(); int one=(int)r.below(WELL_R); for(int i=0;i<WELL_R;i++) s[i]=mode==0?0:mode==1?0xffffffffu:mode==2?(i==one?1u<<r.below(32):0):mode==3?c:(unsigned)r.next(); }
}
// ---- C25: a sampled light is where it is said to be
SCENARIO("C25",light_sampling,3){
  Harness hh; Rng r(content_seed()); int nt=(int)wl(5); sched.preempt=nt>1; if(nt>1) random_sched(); sched.ncpu=4; set_fill(1+(u32)r.below(1000)); World w; std::vector<OneLight> ls; std::vector<const Asset*> in; int nl=1+(int)wl(4),no=(int)wl(8); float spread=r.f(.5f,5);
  Outcome o=prog_run(hh,[&]{ w.scene=new Scene(); for(int i=0;i<nl;i++){ ls.push_back(make_light(w,r,spread)); in.push_back(ls.back().l); if(r.below(4)==0){ ls.back().l->set_mask(make_mask(w,r)); ls.back().masked=true; } } for(int i=0;i<no;i++){ Shape* s=make_shape(r); w.scene->inherit_shape(s); Asset* a=new Asset(s,place(r,expf(r.f(-2,2)),spread*2,true),1); dress(a,s,matte(w,.5f)); w.scene->inherit_asset(a); in.push_back(a); } w.scene->k.buildTree(); }); if(o.kind!=Outcome::RETURNED) violation("dies","building the scene %s",describe(o).c_str());
  struct Q { int l; Point3 p; float r0,r1; bool edge; Spectrum c; Vec3 wi; float pdf,d; bool occ; }; int per=20+(int)wl(40); std::vector<std::vector<Q>> qs(std::max(1,nt));
  for(auto&v:qs) for(int i=0;i<per;i++){ Q q; q.l=(int)r.below(nl); if(i&&r.below(4)==0){ q=v.back(); if(r.below(2)) q.l=(int)r.below(nl); } else { OneLight& L=ls[q.l]; const AABB* b=L.l->get_AABB(); double ext=std::max({b->bounds[1].x-b->bounds[0].x,b->bounds[1].y-b->bounds[0].y,b->bounds[1].z-b->bounds[0].z}); Vec3 dir(r.f(-1,1),r.f(-1,1),r.f(-1,1)); if(dir.length()<.1f) dir=Vec3(0,0,1); dir.normalize(); float far=(float)(ext*(r.below(4)?r.f(.4f,4):r.f(0,20))+(r.below(3)?0:r.f(0,3))); q.p=Point3((b->bounds[0].x+b->bounds[1].x)/2+dir.x*far,(b->bounds[0].y+b->bounds[1].y)/2+dir.y*far,(b->bounds[0].z+b->bounds[1].z)/2+dir.z*far); if(r.below(8)==0) q.p=Point3(r.f(-spread,spread),r.f(-spread,spread),r.f(-spread,spread)); }
    q.edge=r.below(12)==0; q.r0=r.f(0,1); q.r1=r.f(0,1); if(q.edge){ static const float E[]={0.f,1.f,.5f,1e-9f,.9999999f}; q.r0=E[r.below(5)]; if(r.below(2)) q.r1=E[r.below(5)]; } q.pdf=-1; q.d=-1; q.occ=false; v.push_back(q); }
  auto work=[&](int k){ OcclusionTester t(w.scene); for(auto&q:qs[k]){ Point3 p=q.p; q.c=ls[q.l].l->sample_visible_surface(q.r0,q.r1,&p,&q.wi,&q.pdf,&q.d); if(q.pdf>0){ Ray x(p,q.wi); q.occ=t.is_occluded(&x,q.d); } } };
  o=prog_run(hh,[&]{ if(nt<2) work(0); else { std::vector<std::thread> th; for(int k=0;k<nt;k++) th.emplace_back(work,k); for(auto&t:th) t.join(); } }); if(o.kind!=Outcome::RETURNED) violation("dies","sampling the lights %s",describe(o).c_str());
  int judged=0,shadow=0,lit=0,unsure=0; std::vector<int> tries(nl),none(nl);
  for(auto&v:qs) for(auto&q:v){ OneLight& L=ls[q.l]; char what[300]; snprintf(what,300,"light of scale %g (%s, %zu triangles%s) sampled from (%.7g,%.7g,%.7g) with (%.9g,%.9g)",L.scale,L.sphere?"sphere":"mesh",L.tris.size(),L.masked?", with a mask":"",q.p.x,q.p.y,q.p.z,q.r0,q.r1);
    if(!(q.pdf>=0)) violation("bad-pdf","%s: probability %g",what,q.pdf);
    bool black=q.c.is_black(); const AABB* b=L.l->get_AABB(); double gap=0; { double g[3]={std::max({(double)b->bounds[0].x-q.p.x,(double)q.p.x-b->bounds[1].x,0.}),std::max({(double)b->bounds[0].y-q.p.y,(double)q.p.y-b->bounds[1].y,0.}),std::max({(double)b->bounds[0].z-q.p.z,(double)q.p.z-b->bounds[1].z,0.})}; gap=sqrt(g[0]*g[0]+g[1]*g[1]+g[2]*g[2]); }
    bool clear=gap>.05*(1+L.scale)&&gap<40*L.scale&&len3(d3(q.p))<150; if(clear&&!q.edge){ tries[q.l]++; if(q.pdf==0) none[q.l]++; }
    if(q.pdf==0){ if(!black) violation("light-without-probability","%s: light arrives with probability 0",what); continue; }
    double n=len3({q.wi.x,q.wi.y,q.wi.z}); if(!(fabs(n-1)<1e-3)) violation("bad-direction","%s: direction (%g,%g,%g)",what,q.wi.x,q.wi.y,q.wi.z); if(!std::isfinite(q.pdf)||!std::isfinite(q.d)) violation("bad-pdf","%s: probability %g distance %g",what,q.pdf,q.d);
    if(!black) for(int k=0;k<SPN;k++) if(q.c.w[k]!=L.l->emissive_spectrum().w[k]) violation("wrong-light","%s: light (%g..) instead of (%g..)",what,q.c.w[k],L.l->emissive_spectrum().w[k]);
    if(!clear||q.edge||q.d>40||q.d>40*L.scale||len3(d3(q.p))>150) continue; Ray ray(q.p,q.wi); float e=FLT_MAX; HitPoint h; bool hit=false,sure=true; double cosn=0; float again=0; 
    prog_run(hh,[&]{ hit=L.l->intersect(&ray,&e,&h); if(hit) cosn=facing(h,ray); for(int k=0;k<16&&sure;k++){ Ray x=wiggle(ray,k,2e-5f); float e2=FLT_MAX; HitPoint h2; bool g=L.l->intersect(&x,&e2,&h2); if(g!=hit||(hit&&(fabsf(e2-e)>3e-4f*(1+e)||fabs(facing(h2,x)-cosn)>.02*fabs(cosn)))) sure=false; } Point3 p=q.p; Vec3 wi=q.wi; again=L.l->pdf(&p,&wi); });
    if(!sure||fabs(cosn)<.03){ unsure++; bool edgeon=false; for(auto&t:L.tris){ D3 g=cross3(t.b-t.a,t.c-t.a); if(fabs(dot3(g,{q.wi.x,q.wi.y,q.wi.z}))<.06*len3(g)) edgeon=true; } if(!hit&&sure&&!edgeon) violation("wrong-direction","%s: the light is not hit by the %s",what,show(ray).c_str()); continue; } judged++; if(L.masked) probe("samples of lights with holes judged");
    if(fabs(e-q.d)>1e-3*(1+e)) violation("wrong-distance","%s: distance %g, the %s hits the light at %g",what,q.d,show(ray).c_str(),e);
    if((cosn>0)==black) violation("wrong-side","%s: the face seen %s light, cosine %g",what,black?"gives no":"gives",cosn);
    double want=(double)e*e/(fabs(cosn)*L.area); if(fabs(q.pdf-want)>.02*want) violation("wrong-pdf","%s: probability %g instead of %g (distance %g, cosine %g, area %g)",what,q.pdf,want,e,cosn,L.area); if(fabs(again-q.pdf)>.02*want) violation("wrong-pdf","%s: the sampled direction has the probability %g when sampled and %g when asked for",what,q.pdf,again);
    // the way to the light
    float nd=0; const Asset* who=nullptr; bool firm=true; prog_run(hh,[&]{ who=nearest(in,ray,&nd); for(int k=0;k<16&&firm;k++){ float d2; const Asset* w2=nearest(in,wiggle(ray,k,2e-5f),&d2); if(w2!=who||fabsf(d2-nd)>3e-4f*(1+nd)) firm=false; } }); if(!firm||e>300) { unsure++; continue; }
    bool blocked=who!=L.l&&nd<e*.99-.01; bool open=who==L.l; if(blocked&&!q.occ) violation("leaking-shadow","%s: something is in the way at %g of %g, but the light is not occluded",what,nd,e); if(open&&q.occ) violation("hidden-light","%s: nothing is in front of the light at %g, but it is occluded",what,e); shadow+=blocked; lit+=open; }
  for(int i=0;i<nl;i++) if(!ls[i].masked&&none[i]>3+tries[i]/4) violation("unsampled-light","light %d of scale %g (%s): %d of %d samples found nothing",i,ls[i].scale,ls[i].sphere?"sphere":"mesh",none[i],tries[i]);
  if(judged) nontrivial(); probe("samples judged",judged); if(shadow) probe("in shadow",shadow); if(lit) probe("lit",lit); if(unsure) probe("grazing, not judged",unsure); if(nt>1) probe("threads",nt); sample("%d lights, %d objects, %d samples by %d threads",nl,no,per,std::max(1,nt)); prog_run(hh,[&]{ delete w.scene; w.scene=nullptr; });
}
// ---- C25: the points chosen cover the whole surface evenly
SCENARIO("C25",light_points,1){
  Harness hh; Rng r(content_seed()); sched.preempt=false; set_fill(1+(u32)r.below(1000)); std::unique_ptr<Shape> shape; std::vector<Tri> ts; int sz=(int)wl(8); int n=sz<1?0:sz<3?1+(int)wl(3):sz<6?1+(int)wl(12):1+(int)wl(150); bool sphere=n==0; int flat=0; Matrix4 t=place(r,any_scale(r),5,sphere||r.below(2)); std::unique_ptr<AreaLight> l; bool allflat=n&&wl(20)==19;
  Outcome o=prog_run(hh,[&]{ if(sphere) shape.reset(new Sphere()); else { Mesh* m=new Mesh(1+(unsigned)r.below(n)); shape.reset(m); int side=(int)ceil(cbrt((double)n)); for(int i=0;i<n;i++){ Point3 c((float)(i%side)*2,(float)(i/side%side)*2,(float)(i/side/side)*2); Point3 p[3]; float k=r.below(3)?1.f:r.f(.02f,.5f); if(allflat||r.below(12)==0){ Point3 q(c.x+r.f(-.7f,.7f),c.y,c.z); p[0]=p[1]=c; p[2]=r.below(2)?q:c; flat++; } else do for(auto&q:p) q=Point3(c.x+k*r.f(-.7f,.7f),c.y+k*r.f(-.7f,.7f),c.z+k*r.f(-.7f,.7f)); while((Tri{d3(p[0]),d3(p[1]),d3(p[2])}).area()<.02*k*k); add_tri(m,&ts,p[0],p[1],p[2]); } m->finalize(); } l.reset(new AreaLight(shape.get(),t,SPECTRUM_ONE)); }); if(o.kind!=Outcome::RETURNED) violation("dies","building the light %s",describe(o).c_str());
  double area=0; for(auto&x:ts){ auto mv=[&](D3 p){ return d3(t*Point3((float)p.x,(float)p.y,(float)p.z)); }; x={mv(x.a),mv(x.b),mv(x.c)}; area+=x.area(); } Vec3 sc=t.get_scale(); if(sphere) area=4*M_PI*sc.x*sc.x;
  int N=400+(int)wl(3000); double ext=0; for(auto&x:ts) ext=std::max(ext,len3(x.a-ts[0].a)); std::vector<Point3> pts(N); std::vector<Vec3> dirs(N); std::vector<float> pdfs(N); std::vector<float> r0(N),r1(N),r2(N),r3(N); for(int i=0;i<N;i++){ r0[i]=(float)((i+r.unit())/N); r1[i]=r.f(0,1); r2[i]=r.f(0,1); r3[i]=r.f(0,1); if(r0[i]>1) r0[i]=1; } r0[0]=0; r0[N-1]=1; for(int i=N-1;i>0;i--) std::swap(r0[i],r0[r.below(i+1)]);
  o=prog_run(hh,[&]{ for(int i=0;i<N;i++){ Ray out; l->sample_surface(r0[i],r1[i],r2[i],r3[i],&out,&pdfs[i]); pts[i]=out.origin; dirs[i]=out.direction; } }); if(o.kind!=Outcome::RETURNED) violation("dies","sampling the surface %s",describe(o).c_str()); nontrivial(); sample("%s of %zu triangles (%d without area), %d points",sphere?"sphere":"mesh",ts.size(),flat,N); probe("points",N);
  if(flat==(int)ts.size()&&!sphere){ probe("lights without area"); prog_run(hh,[&]{ l.reset(); shape.reset(); }); return; }
  for(int i=0;i<N;i++) if(!(fabs(pdfs[i]-1/(area*2*M_PI))<.01/(area*2*M_PI))) violation("wrong-pdf","probability %g of a point and direction on a surface of %g",pdfs[i],area);
  if(sphere){ D3 c=d3(t*Point3(0,0,0)); std::vector<int> oct(8); double in=0; for(auto&p:pts){ D3 v=d3(p)-c; double k=len3(v)/sc.x; if(!(fabs(k-1)<1e-3+1e-5*len3(c)/sc.x)) violation("off-surface","a point at %g radiuses from the centre",k); oct[(v.x>0)+2*(v.y>0)+4*(v.z>0)]++; in+=0; } for(int k=0;k<8;k++) if(fabs(oct[k]-N/8.)>8*sqrt(N*7/64.)) violation("uneven","%d of %d points in an eighth of the sphere",oct[k],N); }
  else { std::vector<int> cnt(ts.size()); std::vector<std::vector<int>> sub(ts.size(),std::vector<int>(4)); 
    for(int i=0;i<N;i++){ D3 p=d3(pts[i]); int best=-1; double bd=1e300; double bu=0,bv=0; for(size_t k=0;k<ts.size();k++){ const Tri& x=ts[k]; if(x.area()<=1e-9*area/ts.size()) continue; D3 e1=x.b-x.a,e2=x.c-x.a,nn=cross3(e1,e2); double a2=len3(nn); D3 d=p-x.a; double off=fabs(dot3(d,nn))/a2; double u=dot3(cross3(d,e2),nn)/(a2*a2),v=dot3(cross3(e1,d),nn)/(a2*a2); double out=std::max({0.,-u,-v,u+v-1})*sqrt(a2); double e=off+out; if(e<bd){ bd=e; best=(int)k; bu=u; bv=v; } }
      if(best<0||!(bd<1e-3*sqrt(ts[best].area())+1e-5*(1+len3(p)))) violation("off-surface","the point (%g,%g,%g) is %g away from every triangle with an area",pts[i].x,pts[i].y,pts[i].z,bd); cnt[best]++; int s=bu>.5?1:bv>.5?2:bu+bv<.5?0:3; sub[best][s]++; }
    for(size_t k=0;k<ts.size();k++){ double want=N*ts[k].area()/area; if(fabs(cnt[k]-want)>3+1e-4*N) violation("uneven","triangle %zu of %zu has %.4g %% of the area but %.4g %% of %d evenly spread points",k,ts.size(),100*want/N,100.*cnt[k]/N,N); for(int s=0;s<4;s++) if(fabs(sub[k][s]-cnt[k]/4.)>8*sqrt(cnt[k]*3/16.)+3) violation("uneven","%d of %d points in a quarter of triangle %zu",sub[k][s],cnt[k],k); } }
  prog_run(hh,[&]{ l.reset(); shape.reset(); });
}
// ---- C25: lights in opaque shells light the inside only
SCENARIO("C25",light_enclosed,2){
  Harness hh; Rng r(content_seed()); int nt=1+(int)wl(4); sched.preempt=nt>1; if(nt>1) random_sched(); sched.ncpu=4; set_fill(1+(u32)r.below(1000)); World w; struct Shell { Point3 c; float in,out; }; std::vector<Shell> sh; std::vector<Asset*> others; int ns=1+(int)wl(3),no=1+(int)wl(5); WorldOpt wo; wo.masks=false; wo.bumps=false;
  Outcome o=prog_run(hh,[&]{ w.scene=new Scene(); for(int i=0;i<ns;i++){ Shell s; s.c=Point3(-4.f+i*4,r.f(-1,1),r.f(-1,1)); s.out=r.f(.8f,1.8f); s.in=s.out*expf(r.f(logf(.02f),logf(.6f))); Shape* b=r.below(3)?(Shape*)new Sphere():nullptr; if(!b){ Mesh* m=new Mesh(2); add_tri(m,nullptr,Point3(-.7f,-.7f,0),Point3(.7f,-.7f,0),Point3(.7f,.7f,0)); add_tri(m,nullptr,Point3(-.7f,-.7f,0),Point3(.7f,.7f,0),Point3(-.7f,.7f,0)); m->finalize(); b=m; } Shape* c=new Sphere(); w.scene->inherit_shape(b); w.scene->inherit_shape(c); Matrix4 t,k,rot; t.set_translation(Vec3(s.c.x,s.c.y,s.c.z)); k.set_scale(s.in); rot.set_rotate_x(r.f(0,6)); AreaLight* l=new AreaLight(b,t*rot*k,Spectrum(r.f(.5f,4))); dress(l,b,matte(w,r.f(.2f,.9f))); k.set_scale(s.out); Asset* a=new Asset(c,t*k,1); dress(a,c,matte(w,r.f(.2f,.9f))); if(r.below(2)){ w.scene->inherit_light(l); w.scene->inherit_asset(a); } else { w.scene->inherit_asset(a); w.scene->inherit_light(l); } sh.push_back(s); }
    for(int i=0;i<no;i++){ Shape* s=make_shape(r); w.scene->inherit_shape(s); Matrix4 t,k,rot; t.set_translation(Vec3(r.f(-5,5),(r.below(2)?1:-1)*r.f(5.2f,6),r.f(-2,2))); k.set_scale(r.f(.4f,1.2f)); rot.set_rotate_y(r.f(0,6)); Asset* a=new Asset(s,t*rot*k,1); dress(a,s,make_bsdf(w,r,wo)); w.scene->inherit_asset(a); others.push_back(a); } w.scene->k.buildTree(); }); if(o.kind!=Outcome::RETURNED) violation("dies","building the scene %s",describe(o).c_str());
  struct Q { Ray ray; bool inside; unsigned seed[WELL_R]; int draws; bool hit; double mean; float worst; int shell; }; int per=6+(int)wl(20); std::vector<std::vector<Q>> qs(nt); 
  for(auto&v:qs) for(int i=0;i<per;i++){ Q q; q.inside=r.below(3)==0; q.shell=(int)r.below(ns); Shell& s=sh[q.shell]; Vec3 d(r.f(-1,1),r.f(-1,1),r.f(-1,1)); if(d.length()<.1f) d=Vec3(1,0,0); d.normalize(); if(q.inside){ float k=(s.in*1.45f+s.out)*.5f; if(k>s.out*.95f) k=s.out*.95f; Vec3 f(d.x+r.f(-.3f,.3f),d.y+r.f(-.3f,.3f),d.z+r.f(-.3f,.3f)); f.normalize(); q.ray=Ray(Point3(s.c.x+d.x*k,s.c.y+d.y*k,s.c.z+d.z*k),f); } else { Point3 c=s.c; float sp=s.out; if(r.below(2)){ const AABB* b=others[r.below(no)]->get_AABB(); c=Point3((b->bounds[0].x+b->bounds[1].x)/2,(b->bounds[0].y+b->bounds[1].y)/2,(b->bounds[0].z+b->bounds[1].z)/2); sp=.4f; } Point3 from(d.x*20,d.y*20,d.z*20); Vec3 f(c.x+r.f(-sp,sp)-from.x,c.y+r.f(-sp,sp)-from.y,c.z+r.f(-sp,sp)-from.z); f.normalize(); q.ray=Ray(from,f); }
    seed_well(r,q.seed,r.below(8)?4:(int)r.below(4)); q.draws=q.inside?24:4; if(q.inside) seed_well(r,q.seed,4); q.hit=false; q.mean=0; q.worst=0; v.push_back(q); }
  PathTracer pt; auto work=[&](int k){ OcclusionTester t(w.scene); for(auto&q:qs[k]){ HitPoint h; h.differentials=false; Ray ray=q.ray; if(!w.scene->k.intersect(&ray,&h)) continue; q.hit=true; SamplerRandom own(0,1,0,1,1,q.seed); for(int i=0;i<q.draws;i++){ Spectrum s=((const LightIntegrator*)&pt)->radiance(w.scene,&h,&ray,&own,&t); float x=0; for(int c=0;c<SPN;c++) x=std::max(x,std::isnan(s.w[c])?1e30f:s.w[c]); q.worst=std::max(q.worst,x); q.mean+=x/q.draws; } } };
  o=prog_run(hh,[&]{ if(nt<2) work(0); else { std::vector<std::thread> th; for(int k=0;k<nt;k++) th.emplace_back(work,k); for(auto&t:th) t.join(); } }); if(o.kind!=Outcome::RETURNED) violation("dies","tracing %s",describe(o).c_str());
  // the rounding of a point met at a grazing angle can put the path inside of a shell: light along a single ray counts only if it stays when the ray is moved slightly
  int leaks=0; for(auto&v:qs) for(auto&q:v) if(q.hit&&!q.inside&&q.worst>0) leaks++;
  int dark=0,bright=0; for(auto&v:qs) for(auto&q:v) if(q.hit){ if(!q.inside){ dark++; bool firm=leaks>2; if(q.worst>0&&!firm){ int again=0; prog_run(hh,[&]{ for(int k=0;k<16;k++){ OcclusionTester t(w.scene); Ray x=wiggle(q.ray,k,1e-5f); HitPoint h; h.differentials=false; if(!w.scene->k.intersect(&x,&h)) continue; SamplerRandom own(0,1,0,1,1,q.seed); bool lit=false; for(int i=0;i<q.draws;i++){ Spectrum s=((const LightIntegrator*)&pt)->radiance(w.scene,&h,&x,&own,&t); if(!s.is_black()) lit=true; } again+=lit; } }); firm=again>=5; probe(firm?"leak confirmed":"leak within rounding"); } if(q.worst>0&&firm) violation("leaking-light","light %g arrives along the %s although every light is inside of an opaque shell",q.worst,show(q.ray).c_str()); } else { bright++; if(!(q.mean>0)) violation("dark-inside","no light in %d computations along the %s inside of the shell %d (radius %g, light of %g)",q.draws,show(q.ray).c_str(),q.shell,sh[q.shell].out,sh[q.shell].in); } }
  if(dark&&bright) nontrivial(); probe("outside",dark); probe("inside",bright); if(nt>1) probe("threads",nt); sample("%d shells, %d other objects, %d rays by %d threads",ns,no,per,nt); prog_run(hh,[&]{ delete w.scene; w.scene=nullptr; });
}
// ---- C26: how much light arrives on average
namespace {
struct Walk { double sum[3]={0,0,0},sq[3]={0,0,0}; u64 n=0; void add(const Spectrum& s){ n++; for(int c=0;c<SPN;c++){ sum[c]+=s.w[c]; sq[c]+=(double)s.w[c]*s.w[c]; } } void join(const Walk& o){ n+=o.n; for(int c=0;c<3;c++){ sum[c]+=o.sum[c]; sq[c]+=o.sq[c]; } } double mean(int c) const { return sum[c]/n; } double err(int c) const { double m=mean(c),v=sq[c]/n-m*m; return sqrt(std::max(0.,v)/n); }
  // worth computing again, with more draws: only the second computation is judged
  bool suspect(const double* want) const { for(int c=0;c<SPN;c++) if(!(fabs(mean(c)-want[c])<=3.5*err(c)+.015*want[c])) return true; return false; } };
const Bsdf* matte3(World& w,const float* albedo){ Spectrum s(0.f); for(int c=0;c<SPN;c++) s.w[c]=albedo[c]; const Texture* t=new TextureUniform(s); w.texs.push_back(t); const Bsdf* b=new SingleBRDF(new Lambertian(),t); w.mats.push_back(b); return b; }
void add_quad(Mesh* m,const Point3& o,const Vec3& u,const Vec3& v){ auto P=[&](float a,float b){ return Point3(o.x+u.x*a+v.x*b,o.y+u.y*a+v.y*b,o.z+u.z*a+v.z*b); }; add_tri(m,nullptr,P(0,0),P(1,0),P(1,1)); add_tri(m,nullptr,P(0,0),P(1,1),P(0,1)); }
// the faces of a box; cross(u,v) points outwards, or inwards for a room
struct Face { Point3 o; Vec3 u,v; };
std::vector<Face> faces(Vec3 lo,Vec3 hi,bool room){ Vec3 X(hi.x-lo.x,0,0),Y(0,hi.y-lo.y,0),Z(0,0,hi.z-lo.z); Point3 a(lo.x,lo.y,lo.z); std::vector<Face> f={{a,Y,X},{Point3(lo.x,lo.y,hi.z),X,Y},{a,Z,Y},{Point3(hi.x,lo.y,lo.z),Y,Z},{a,X,Z},{Point3(lo.x,hi.y,lo.z),Z,X}}; if(room) for(auto&x:f) std::swap(x.u,x.v); return f; }
void run_threads(Harness& hh,int nt,const std::function<void(int)>& work,const char* what){ Outcome o=prog_run(hh,[&]{ if(nt<2) work(0); else { std::vector<std::thread> th; for(int k=0;k<nt;k++) th.emplace_back(work,k); for(auto&t:th) t.join(); } }); if(o.kind!=Outcome::RETURNED) violation("dies","%s %s",what,describe(o).c_str()); }
}
SCENARIO("C26",furnace,2){
  // (a colour without the second channel, Y, would not be a colour)
  // every surface gives and reflects the same light: the light is then the same everywhere, whatever the shape of the room and however its surface is divided into lights
  Harness hh; Rng r(content_seed()); int nt=wl(4)==3?2+(int)wl(2):1; sched.preempt=nt>1; if(nt>1) random_sched(); sched.ncpu=4; sched.step_budget=2000000000ull; set_fill(1+(u32)r.below(1000)); World w; float al[3],em[3]; bool black=r.below(10)==0; for(int c=0;c<3;c++){ al[c]=black||(c!=1&&r.below(5)==0)?0:r.f(.3f,.95f); em[c]=r.f(.3f,3); } int nl=1+(int)wl(wl(2)?2:8),nb=(int)wl(3); if(wl(3)==0) nb=0; Vec3 half(r.f(3,6),r.f(3,6),r.f(3,6)); std::vector<std::pair<Vec3,Vec3>> boxes; Matrix4 M=place(r,1,8,true); int per=300+(int)wl(500);
  Outcome o=prog_run(hh,[&]{ w.scene=new Scene(); const Bsdf* mt=matte3(w,al); Spectrum E(0.f); for(int c=0;c<SPN;c++) E.w[c]=em[c]; std::vector<Mesh*> ms; for(int i=0;i<nl;i++) ms.push_back(new Mesh(1+(unsigned)r.below(8)));
    int k=0; for(auto&f:faces(Vec3(-half.x,-half.y,-half.z),half,true)){ int g=1+(int)r.below(3); for(int i=0;i<g;i++) for(int j=0;j<g;j++){ Mesh* m=ms[k<nl?k:r.below(nl)]; k++; add_quad(m,Point3(f.o.x+f.u.x*i/g+f.v.x*j/g,f.o.y+f.u.y*i/g+f.v.y*j/g,f.o.z+f.u.z*i/g+f.v.z*j/g),f.u*(1.f/g),f.v*(1.f/g)); } }
    for(int b=0;b<nb;b++){ float x0=b?.3f:-half.x+.7f,x1=b?half.x-.7f:-.3f; float a=r.f(.5f,x1-x0); Vec3 lo(x0+r.f(0,x1-x0-a),r.f(-half.y+.7f,0),r.f(-half.z+.7f,0)),hi(0,r.f(.5f,half.y-.7f),r.f(.5f,half.z-.7f)); hi.x=lo.x+a; boxes.push_back({lo,hi}); for(auto&f:faces(lo,hi,false)){ Mesh* m=new Mesh(2); add_quad(m,f.o,f.u,f.v); ms.push_back(m); } }
    for(size_t i=ms.size()-1;i>0;i--) std::swap(ms[i],ms[r.below(i+1)]);
    for(auto m:ms){ m->finalize(); w.scene->inherit_shape(m); AreaLight* l=new AreaLight(m,M,E); dress(l,m,mt); w.scene->inherit_light(l); } w.scene->k.buildTree(); }); if(o.kind!=Outcome::RETURNED) violation("dies","building the room %s",describe(o).c_str());
  std::vector<std::vector<unsigned>> seeds(nt,std::vector<unsigned>(WELL_R)); double want[3]={0,0,0}; for(int c=0;c<SPN;c++) for(int k=0;k<=DEFAULT_BOUNCES+1;k++) want[c]+=em[c]*pow(al[c],k); Walk all; PathTracer pt;
  for(int round=0;round<2;round++){ if(round) per=std::max(6000/nt,per); std::vector<std::vector<Ray>> rays(nt); for(int k=0;k<nt;k++){ seed_well(r,seeds[k].data(),4); while((int)rays[k].size()<per){ Vec3 p(r.f(-half.x+.1f,half.x-.1f),r.f(-half.y+.1f,half.y-.1f),r.f(-half.z+.1f,half.z-.1f)); bool in=false; for(auto&b:boxes) if(p.x>b.first.x-.1f&&p.x<b.second.x+.1f&&p.y>b.first.y-.1f&&p.y<b.second.y+.1f&&p.z>b.first.z-.1f&&p.z<b.second.z+.1f) in=true; if(in) continue; Vec3 d(r.f(-1,1),r.f(-1,1),r.f(-1,1)); if(d.length()<.1f||d.length()>1) continue; d.normalize(); Vec3 dw=M*d; dw.normalize(); rays[k].push_back(Ray(M*Point3(p.x,p.y,p.z),dw)); } }
    std::vector<Walk> got(nt); std::vector<int> lost(nt); run_threads(hh,nt,[&](int k){ OcclusionTester t(w.scene); SamplerRandom own(0,1,0,1,1,seeds[k].data()); for(auto&x:rays[k]){ HitPoint h; h.differentials=false; Ray ray=x; if(!w.scene->k.intersect(&ray,&h)){ lost[k]++; continue; } got[k].add(((const LightIntegrator*)&pt)->radiance(w.scene,&h,&ray,&own,&t)); } },"tracing");
    all=Walk(); int out=0; for(auto&g:got) all.join(g); for(int x:lost) out+=x; if(out>3+per*nt/1000) violation("open-room","%d of %d rays leave the closed room",out,per*nt); probe("paths",all.n); hash_bytes(all.sum,sizeof all.sum); if(!all.suspect(want)) break; probe(round?"confirmed":"looked at again with more paths"); }
  nontrivial(); if(nt>1) probe("threads",nt); sample("room with %d lights, %d boxes, albedo (%.2f,%.2f,%.2f): %llu paths by %d threads",nl,nb,al[0],al[1],al[2],(unsigned long long)all.n,nt);
  for(int c=0;c<SPN;c++){ double m=all.mean(c),e=all.err(c); if(!(fabs(m-want[c])<8*e+.025*want[c])) violation("wrong-energy","room of %d lights and %d boxes, albedo %.3f, emission %.3f: the light is %.4f +- %.4f on average instead of %.4f (%llu paths)",nl,nb,al[c],em[c],m,e,want[c],(unsigned long long)all.n); if(4*e<.05*want[c]) probe("averages within 5 %"); }
  prog_run(hh,[&]{ delete w.scene; w.scene=nullptr; });
}
namespace {
D3 unit3(D3 a){ double l=len3(a); return {a.x/l,a.y/l,a.z/l}; }
// irradiance of a polygon above the horizon with radiance 1 (Lambert's formula)
double polygon(const std::vector<D3>& v,D3 x,D3 n){ double s=0; for(size_t i=0;i<v.size();i++){ D3 a=unit3(v[i]-x),b=unit3(v[(i+1)%v.size()]-x); D3 g=cross3(a,b); double l=len3(g); if(l<1e-12) continue; s+=atan2(l,dot3(a,b))*dot3(g,n)/l; } return fabs(s)/2; }
struct Cone { D3 d; double a; }; double angle(D3 a,D3 b){ return atan2(len3(cross3(a,b)),dot3(a,b)); }
Cone cone(const std::vector<D3>& v,D3 x){ D3 c={0,0,0}; for(auto&p:v){ D3 u=unit3(p-x); c={c.x+u.x,c.y+u.y,c.z+u.z}; } Cone k{unit3(c),0}; for(auto&p:v) k.a=std::max(k.a,angle(k.d,unit3(p-x))); return k; }
}
// what a surface turns towards the eye, when it is not matte
struct Gloss { const Bsdf* b=nullptr; const char* kind=""; float rough=0; bool known=false; };
Gloss gloss(World& w,Rng& r,int which,bool all){ Gloss g; auto col=[&]{ Spectrum s(0.f); for(int c=0;c<SPN;c++) s.w[c]=r.f(.2f,1); const Texture* t=new TextureUniform(s); w.texs.push_back(t); return t; }; g.rough=r.f(.15f,.9f); int d=all&&r.below(2)?(int)r.below(8):2+(int)r.below(6); auto dist=[&]()->MicrofacetDist*{ switch(d){ case 0: g.known=true; g.kind="Blinn"; return new Blinn(2.f/(g.rough*g.rough)-2); case 1: g.known=true; g.kind="Beckmann"; return new Beckmann(g.rough); case 2: case 3: case 4: return new GGXaniso(g.rough,r.f(.15f,.9f)); default: return new GGXiso(g.rough); } };
  if(which==1){ g.b=new SingleBRDF(new OrenNayar(r.f(0,100)),col()); g.kind="Oren-Nayar"; }
  else if(which==2){ g.kind="metal"; Spectrum n(1.f),k(1.f); for(int c=0;c<SPN;c++){ n.w[c]=r.f(.15f,2.5f); k.w[c]=r.f(1,5); } g.b=new SingleBRDF(new MicrofacetR(dist(),new Conductor(n,k)),col()); }
  else if(which==3){ g.kind="rough glass"; MultiBSDF* m=new MultiBSDF(); Spectrum one=cauchy(1.f,0.f),ior=cauchy(r.f(1.1f,2.2f),0.f); float ra=g.rough; (void)ra; Rng same=r; MicrofacetDist* a=dist(); r=same; MicrofacetDist* b=dist(); m->inherit_bdf(new MicrofacetT(b,one,ior),col()); m->inherit_bdf(new MicrofacetR(a,new Dielectric(one,ior)),col()); g.b=m; }
  else { g.kind="glossy"; MultiBSDF* m=new MultiBSDF(); m->inherit_bdf(new Lambertian(),col()); m->inherit_bdf(new MicrofacetR(dist(),new Dielectric(cauchy(1.f,0.f),cauchy(1.5f,0.f))),col()); g.b=m; }
  w.mats.push_back(g.b); return g; }
SCENARIO("C26",direct_light,3){
  // a matte floor under flat lights, some of them hidden completely
  Harness hh; Rng r(content_seed()); int nt=wl(4)==3?2+(int)wl(2):1; sched.preempt=nt>1; if(nt>1) random_sched(); sched.ncpu=4; sched.step_budget=2000000000ull; set_fill(1+(u32)r.below(1000)); World w; float al[3],none[3]={0,0,0}; for(int c=0;c<3;c++) al[c]=r.f(.2f,1); float g=expf(r.f(logf(.2f),logf(8.f))); Matrix4 M=place(r,g,8,true); bool closed=wl(16)==7; int want=closed?1:1+(int)wl(6); int per=400+(int)wl(600); D3 x{0,0,0},up{0,0,1};
  struct Li { std::vector<D3> v; double e[3]; bool hidden,away; Cone k; }; std::vector<Li> ls; int which=closed?0:(int)wl(7); Gloss gl; double irr[3]={0,0,0}; int hidden=0,away=0,behind=0; double ratio=0; std::vector<Cone> used; const Asset* floor=nullptr;
  Outcome o=prog_run(hh,[&]{ w.scene=new Scene(); const Bsdf* black=matte3(w,none); Mesh* fl=new Mesh(2); float s=30; add_quad(fl,Point3(-s,-s,0),Vec3(2*s,0,0),Vec3(0,2*s,0)); fl->finalize(); w.scene->inherit_shape(fl); Asset* a=new Asset(fl,M,1); if(which&&which<5){ gl=gloss(w,r,which,false); dress(a,fl,gl.b); } else dress(a,fl,matte3(w,al)); 
    std::vector<AreaLight*> lights; std::vector<Asset*> walls; 
    if(closed){ float k=r.f(.2f,1.5f); Vec3 d(r.f(-1,1),r.f(-1,1),r.f(.5f,1)); d.normalize(); float far=k/std::min(.8f,d.z*.9f)*r.f(1.3f,4)+.3f; Matrix4 t,sc; t.set_translation(Vec3(d.x*far,d.y*far,d.z*far)); sc.set_scale(k); Shape* sp=new Sphere(); w.scene->inherit_shape(sp); float e=r.f(.5f,4); AreaLight* l=new AreaLight(sp,M*t*sc,Spectrum(e)); dress(l,sp,black); lights.push_back(l); for(int c=0;c<3;c++) irr[c]+=M_PI*e*(k/far)*(k/far)*d.z; ratio=k/far; }
    else for(int i=0;i<want*3&&(int)ls.size()<want;i++){ // a triangle or a quadrilateral above the horizon
      Vec3 d(r.f(-1,1),r.f(-1,1),r.f(.25f,1)); d.normalize(); float far=r.f(1,8); Point3 c(d.x*far,d.y*far,d.z*far); bool partly=(!which||which>4)&&r.below(2)==0; float k=far*(partly?expf(r.f(-1.5f,.9f)):r.f(.05f,.4f)); Vec3 u(r.f(-1,1),r.f(-1,1),r.f(-1,1)),v(r.f(-1,1),r.f(-1,1),r.f(-1,1)); bool roof=partly&&used.empty()&&r.below(3); if(roof){ c=Point3(r.f(-.3f,.3f)*far,r.f(-.3f,.3f)*far,far); k=far*expf(r.f(.7f,2.2f)); u=Vec3(1,r.f(-.3f,.3f),r.f(-.6f,.6f)*far/k); v=Vec3(r.f(-.3f,.3f),1,r.f(-.6f,.6f)*far/k); } if(u.length()<.2f||v.length()<.2f||cross(u,v).length()<.2f) continue; u*=k; v*=k; Vec3 nn=cross(u,v); nn.normalize(); D3 pl{c.x,c.y,c.z}; double side=-(nn.x*(double)c.x+nn.y*(double)c.y+nn.z*(double)c.z); if(fabs(side)<.15*far) continue; Li l; l.away=!partly&&r.below(8)==0; if((side>0)==l.away) std::swap(u,v); bool tri=!partly&&r.below(3)==0; std::vector<Point3> p={Point3(c.x-u.x/2-v.x/2,c.y-u.y/2-v.y/2,c.z-u.z/2-v.z/2),Point3(c.x+u.x/2-v.x/2,c.y+u.y/2-v.y/2,c.z+u.z/2-v.z/2),Point3(c.x+u.x/2+v.x/2,c.y+u.y/2+v.y/2,c.z+u.z/2+v.z/2),Point3(c.x-u.x/2+v.x/2,c.y-u.y/2+v.y/2,c.z-u.z/2+v.z/2)}; if(tri) p.pop_back(); bool low=false; for(auto&q:p) if(q.z<.2f) low=true; if(low) continue;
      for(auto&q:p) l.v.push_back(d3(q)); l.k=cone(l.v,x); l.hidden=!partly&&r.below(4)==0; double reach=l.k.a*(l.hidden?2.2:1)+(l.hidden?.12:0); bool clash=!roof&&reach>(partly?1.3:.7); for(auto&q:used) if(angle(q.d,l.k.d)<q.a+reach+.03) clash=true; if(clash) continue; used.push_back({l.k.d,reach});
      // expressed through a transformation of its own; divided into triangles at will
      float os=expf(r.f(logf(.05f),logf(10.f))); Matrix4 t,sc; t.set_translation(Vec3(c.x,c.y,c.z)); sc.set_scale(os); auto loc=[&](const Point3& q){ return Point3((q.x-c.x)/os,(q.y-c.y)/os,(q.z-c.z)/os); }; Mesh* m=new Mesh(2); std::vector<std::vector<Point3>> parts; for(size_t q=2;q<p.size();q++) parts.push_back({p[0],p[q-1],p[q]}); int cut=(int)r.below(4); for(int q=0;q<cut;q++){ size_t z=r.below(parts.size()); auto T=parts[z]; float f=r.f(.2f,.8f); Point3 mid(T[1].x+(T[2].x-T[1].x)*f,T[1].y+(T[2].y-T[1].y)*f,T[1].z+(T[2].z-T[1].z)*f); parts[z]={T[0],T[1],mid}; parts.push_back({mid,T[2],T[0]}); } for(auto&T:parts) add_tri(m,nullptr,loc(T[0]),loc(T[1]),loc(T[2])); m->finalize(); w.scene->inherit_shape(m);
      Spectrum E(0.f); for(int q=0;q<3;q++){ l.e[q]=r.f(.3f,4); if(q<SPN) E.w[q]=(float)l.e[q]; } AreaLight* L=new AreaLight(m,M*t*sc,E); dress(L,m,black); lights.push_back(L);
      if(l.hidden){ double fr=r.f(.3f,.6f),dist0=1e300; for(auto&q:l.v) dist0=std::min(dist0,len3(q-x)); double at=fr*dist0,hw=at*tan(std::min(.6,l.k.a*1.3+.05)); D3 dd=l.k.d,e1=unit3(cross3(dd,fabs(dd.x)<.7?D3{1,0,0}:D3{0,1,0})),e2=cross3(dd,e1); Mesh* ob=new Mesh(2); add_quad(ob,Point3((float)(dd.x*at-(e1.x+e2.x)*hw),(float)(dd.y*at-(e1.y+e2.y)*hw),(float)(dd.z*at-(e1.z+e2.z)*hw)),Vec3((float)(e1.x*2*hw),(float)(e1.y*2*hw),(float)(e1.z*2*hw)),Vec3((float)(e2.x*2*hw),(float)(e2.y*2*hw),(float)(e2.z*2*hw))); ob->finalize(); w.scene->inherit_shape(ob); Asset* wa=new Asset(ob,M,1); dress(wa,ob,black); walls.push_back(wa); hidden++; }
      else if(partly){ // another light in front of a part of this one
        double a0=r.f(.02f,.5f),a1=a0+r.f(.3f,.48f),b0=r.f(.02f,.5f),b1=b0+r.f(.3f,.48f),f=r.f(.3f,.8f); auto in=[&](double a,double b){ return D3{(p[0].x+u.x*a+v.x*b)*f,(p[0].y+u.y*a+v.y*b)*f,(p[0].z+u.z*a+v.z*b)*f}; }; std::vector<D3> q={in(a0,b0),in(a1,b0),in(a1,b1),in(a0,b1)}; bool turned=r.below(4)==0; Mesh* ob=new Mesh(2); Point3 o0((float)q[0].x,(float)q[0].y,(float)q[0].z); Vec3 ou((float)(u.x*f*(a1-a0)),(float)(u.y*f*(a1-a0)),(float)(u.z*f*(a1-a0))),ov((float)(v.x*f*(b1-b0)),(float)(v.y*f*(b1-b0)),(float)(v.z*f*(b1-b0))); if(turned) std::swap(ou,ov); add_quad(ob,o0,ou,ov); ob->finalize(); w.scene->inherit_shape(ob); Spectrum E2(0.f); double pb=polygon(q,x,up),pa=polygon(l.v,x,up)-pb; for(int c2=0;c2<3;c2++){ double e2=r.f(.3f,4); if(c2<SPN) E2.w[c2]=(float)e2; irr[c2]+=pa*l.e[c2]+(turned?0:pb*e2); } AreaLight* L2=new AreaLight(ob,M,E2); dress(L2,ob,black); lights.push_back(L2); behind++; }
      else if(l.away) away++; else { double f=polygon(l.v,x,up); for(int q=0;q<3;q++) irr[q]+=f*l.e[q]; }
      ls.push_back(l); }
    bool first=r.below(2); if(first) w.scene->inherit_asset(a); for(auto q:walls) w.scene->inherit_asset(q); for(auto q:lights) w.scene->inherit_light(q); if(!first) w.scene->inherit_asset(a); floor=a; w.scene->k.buildTree(); }); if(o.kind!=Outcome::RETURNED) violation("dies","building the scene %s",describe(o).c_str());
  // a camera ray reaching the floor at the point judged
  Ray eye; bool seen=false; Point3 at=M*Point3(0,0,0); prog_run(hh,[&]{ for(int k=0;k<60&&!seen;k++){ Vec3 d(r.f(-1,1),r.f(-1,1),r.f(.3f,1)); d.normalize(); float far=r.f(.1f,12); Point3 from=M*Point3(d.x*far,d.y*far,d.z*far); Vec3 to(at.x-from.x,at.y-from.y,at.z-from.z); to.normalize(); eye=Ray(from,to); HitPoint h; h.differentials=false; Ray q=eye; seen=w.scene->k.intersect(&q,&h)&&h.asset_h==floor&&len3(d3(h.point_h)-d3(at))<1e-3*(1+g); } });
  if(!seen){ probe("floor not visible"); prog_run(hh,[&]{ delete w.scene; w.scene=nullptr; }); return; }
  std::vector<std::vector<unsigned>> seeds(nt,std::vector<unsigned>(WELL_R)); PathTracer pt; Walk all; int L=std::max<int>(1,(int)ls.size()); double expected[3]; for(int c=0;c<3;c++) expected[c]=al[c]/M_PI*irr[c];
  if(gl.b){ double got[2][3]={{0,0,0},{0,0,0}}; prog_run(hh,[&]{ HitPoint h; h.differentials=false; Ray q=eye; w.scene->k.intersect(&q,&h); ShadingSpace S; Normal n; gl.b->gen_shading_matrix(&h,&S,&n); Vec3 wo(-q.direction.x,-q.direction.y,-q.direction.z); wo.normalize(); for(int fine=0;fine<2;fine++){ int N=fine?90:60; for(auto&l:ls){ if(l.hidden||l.away) continue; for(size_t k=2;k<l.v.size();k++){ D3 A=l.v[0],u=l.v[k-1]-A,v=l.v[k]-A,nn=cross3(u,v); double area=len3(nn)/2/N/N; nn=unit3(nn); for(int i=0;i<N;i++) for(int j=0;j<N-i;j++) for(int t=0;t<2;t++){ if(t&&i+j+1>=N) continue; double a=(i+(t?2/3.:1/3.))/N,b=(j+(t?2/3.:1/3.))/N; D3 p{A.x+u.x*a+v.x*b,A.y+u.y*a+v.y*b,A.z+u.z*a+v.z*b}; double d2=dot3(p,p); D3 dir=unit3(p); double om=fabs(dot3(dir,nn))*area/d2; Vec3 wi=M*Vec3((float)dir.x,(float)dir.y,(float)dir.z); wi.normalize(); Spectrum f=gl.b->value(&wo,&h,&wi,&S,false); for(int c=0;c<SPN;c++) got[fine][c]+=f.w[c]*fabs(dir.z)*om*l.e[c]; } } } } });
    bool rough=false; for(int c=0;c<SPN;c++){ expected[c]=got[1][c]; if(fabs(got[0][c]-got[1][c])>.004*fabs(got[1][c])) rough=true; } if(rough){ probe("too sharp to integrate"); prog_run(hh,[&]{ delete w.scene; w.scene=nullptr; }); return; } probe(which==1?"light on Oren-Nayar":which==2?"light on metal":which==3?"light on rough glass":"light on glossy"); }
  for(int round=0;round<2;round++){ if(round) per=std::max(8000*(1+L/3)/nt,per); std::vector<Walk> got(nt); std::vector<int> lost(nt); for(auto&q:seeds) seed_well(r,q.data(),4);
    run_threads(hh,nt,[&](int k){ OcclusionTester t(w.scene); SamplerRandom own(0,1,0,1,1,seeds[k].data()); HitPoint h; h.differentials=false; Ray q=eye; if(!w.scene->k.intersect(&q,&h)){ lost[k]++; return; } for(int i=0;i<per;i++) got[k].add(((const LightIntegrator*)&pt)->radiance(w.scene,&h,&q,&own,&t)); },"lighting");
    all=Walk(); for(auto&q:got) all.join(q); for(int q:lost) if(q) violation("lost-floor","the %s hits the floor for one thread and not for another",show(eye).c_str()); probe("draws",all.n); hash_bytes(all.sum,sizeof all.sum); if(!all.suspect(expected)) break; if(round) note("bias %g +- %g",all.mean(1)/expected[1],all.err(1)/expected[1]); probe(round?"confirmed":"looked at again with more draws"); }
  if(hidden) probe("hidden lights",hidden); if(away) probe("lights turned away",away); if(behind) probe("lights in front of lights",behind); if(closed) probe("round lights"); if(nt>1) probe("threads",nt); sample("floor under %zu lights (%d hidden, %d turned away%s), scale %.3g: %llu draws by %d threads",closed?(size_t)1:ls.size(),hidden,away,closed?", round":"",g,(unsigned long long)all.n,nt);
  bool some=false; for(int c=0;c<SPN;c++){ double expect=expected[c],m=all.mean(c),e=all.err(c); if(expect>0) some=true; double most=1+(1+ratio)*(1+ratio)/((1-ratio)*(1-ratio)); const char* cls=closed&&m>expect*1.05&&m-8*e<expect*most?"round-light-too-bright":"wrong-energy"; double tol=8*e+.02*expect+(expect>0?(gl.b?2e-4:0):1e-9); if(!(fabs(m-expect)<tol)) violation(cls,"floor of %s albedo %.3f under %zu lights (%d hidden, %d turned away%s, scale %.3g): the light is %.5f +- %.5f on average instead of %.5f (%llu draws)%s",gl.kind,gl.b?0:al[c],closed?(size_t)1:ls.size(),hidden,away,closed?", round":"",g,m,e,expect,(unsigned long long)all.n,closed?(" seen under "+std::to_string(ratio)).c_str():""); if(expect>0&&4*e<.05*expect) probe("averages within 5 %"); }
  if(some) nontrivial(); prog_run(hh,[&]{ delete w.scene; w.scene=nullptr; });
}
// ---- C23: the light of chosen rays with chosen random numbers
namespace {
// seeds of the generator whose first numbers are chosen: its outputs are linear in its 1024 bits of state
struct WellSolver { typedef std::vector<u64> Row; std::vector<Row> inv; bool ok=false;
  static void run(const u32* seed,u32* out,int n){ u32 s[32]; memcpy(s,seed,sizeof s); u32 i=0; for(int k=0;k<n;k++){ u32 z0=s[(i+31)&31],z1=s[i]^(s[(i+3)&31]^(s[(i+3)&31]>>8)),z2=(s[(i+24)&31]^(s[(i+24)&31]<<19))^(s[(i+10)&31]^(s[(i+10)&31]<<14)); s[i]=z1^z2; s[(i+31)&31]=(z0^(z0<<11))^(z1^(z1<<7))^(z2^(z2<<13)); i=(i+31)&31; out[k]=s[i]; } }
  WellSolver(){ const int N=1024; std::vector<Row> m(N,Row(32,0)); for(int b=0;b<N;b++){ u32 seed[32]={0},out[32]; seed[b/32]=1u<<(b%32); run(seed,out,32); for(int k=0;k<32;k++) for(int j=0;j<32;j++) if(out[k]>>j&1) m[k*32+j][b/64]|=1ull<<(b%64); } for(int i=0;i<N;i++) m[i][16+i/64]|=1ull<<(i%64);
    int row=0; for(int c=0;c<N;c++){ int p=-1; for(int i=row;i<N;i++) if(m[i][c/64]>>(c%64)&1){ p=i; break; } if(p<0) return; std::swap(m[p],m[row]); for(int i=0;i<N;i++) if(i!=row&&(m[i][c/64]>>(c%64)&1)) for(int j=0;j<32;j++) m[i][j]^=m[row][j]; row++; } inv=m; ok=true; }
  // the seed giving these 32 numbers first
  void seed(const u32* want,u32* s) const { u64 w[16]={0}; for(int i=0;i<1024;i++) if(want[i/32]>>(i%32)&1) w[i/64]|=1ull<<(i%64); memset(s,0,128); for(int i=0;i<1024;i++){ u64 x=0; for(int j=0;j<16;j++) x^=inv[i][16+j]&w[j]; if(__builtin_parityll(x)) s[i/32]|=1u<<(i%32); } } };
const WellSolver& solver(){ static WellSolver s; return s; }
u32 extreme(Rng& r){ static const u32 E[]={0,0,0xffffffffu,0xffffffffu,1,0x80000000u,0x7fffffffu,0x40000000u,0xc0000000u,0xffffff00u,256,0xfffffe00u}; return E[r.below(12)]; }
Mesh* odd_mesh(Rng& r){ int k=1+(int)r.below(6); Mesh* m=new Mesh(k); for(int i=0;i<k;i++){ Vertex v[3]; Point3 c(r.f(-.7f,.7f),r.f(-.7f,.7f),r.f(-.7f,.7f)); do for(int j=0;j<3;j++) v[j].p=Point3(c.x+r.f(-.8f,.8f),c.y+r.f(-.8f,.8f),c.z+r.f(-.8f,.8f)); while((Tri{d3(v[0].p),d3(v[1].p),d3(v[2].p)}).area()<.03); int uv=(int)r.below(5); for(int j=0;j<3;j++) v[j].t=uv==0?Point2(.5f,.5f):uv==1?Point2((float)j,(float)j):uv==2?Point2((float)(j&1),0):uv==3?Point2(r.f(-5,5),r.f(-5,5)):Point2(r.f(0,1)*1e-6f,r.f(0,1)*1e-6f); Vec3 n=cross(v[1].p-v[0].p,v[2].p-v[0].p); n.normalize(); int sm=(int)r.below(3); for(int j=0;j<3;j++){ Vec3 q=n; if(sm==0){ q=Vec3(n.x+r.f(-.9f,.9f),n.y+r.f(-.9f,.9f),n.z+r.f(-.9f,.9f)); if(q.length()<.2f) q=n; q.normalize(); } v[j].n=Normal(q.x,q.y,q.z); } m->add_triangle(v,v+1,v+2); } m->finalize(); return m; }
MicrofacetDist* any_dist(Rng& r){ auto ro=[&]{ return r.below(4)==0?(r.below(2)?.001f:1.f):expf(r.f(logf(.001f),0)); }; float a=ro(); switch(r.below(4)){ case 0: return new Blinn(2.f/(a*a)-2); case 1: return new Beckmann(a); case 2: return new GGXiso(a); default: return new GGXaniso(a,ro()); } }
const Bsdf* any_bsdf(World& w,Rng& r){ auto tex=[&]{ const Texture* t=new TextureUniform(r.below(5)?rnd_spectrum(r,.05f,1):Spectrum(r.below(2)?0.f:1.f)); w.texs.push_back(t); return t; }; auto met=[&]()->const Metal&{ static const int M[]={METAL_GOLD,METAL_SILVER,METAL_COPPER}; return METALS[M[r.below(3)]]; }; Spectrum e1=cauchy(1.f,0),e2=r.below(4)?cauchy(r.f(1.05f,2.4f),r.f(0,.01f)):r.below(2)?cauchy(1.f,0):cauchy(r.f(.6f,.95f),0); const Bsdf* b;
  switch(r.below(8)){ case 0: { MultiBSDF* m=new MultiBSDF(); m->inherit_bdf(new Refraction(e1,e2),tex()); m->inherit_bdf(new DielectricReflection(e1,e2),tex()); b=m; break; } case 1: { MultiBSDF* m=new MultiBSDF(); m->inherit_bdf(new MicrofacetT(any_dist(r),e1,e2),tex()); m->inherit_bdf(new MicrofacetR(any_dist(r),new Dielectric(e1,e2)),tex()); b=m; break; } case 2: { MultiBSDF* m=new MultiBSDF(); m->inherit_bdf(new Lambertian(),tex()); m->inherit_bdf(new MicrofacetR(any_dist(r),new Dielectric(e1,cauchy(1.5f,0))),tex()); b=m; break; } case 3: b=new SingleBRDF(new ConductorReflection(met().n,met().k),tex()); break; case 4: b=new SingleBRDF(new MicrofacetR(any_dist(r),new Conductor(met().n,met().k)),tex()); break; case 5: b=new SingleBRDF(new OrenNayar(r.below(3)?r.f(0,100):100.f),tex()); break; case 6: { WorldOpt o; return make_bsdf(w,r,o); } default: b=new SingleBRDF(new Lambertian(),tex()); } w.mats.push_back(b); return b; }
}
SCENARIO("C26",shiny_furnace,2){
  // a small shiny thing in a room where the same light comes from everywhere, directly and after bounces
  Harness hh; Rng r(content_seed()); int nt=wl(4)==3?2+(int)wl(2):1; sched.preempt=nt>1; if(nt>1) random_sched(); sched.ncpu=4; sched.step_budget=2000000000ull; set_fill(1+(u32)r.below(1000)); World w; float al[3],em[3]; float a0=r.f(.3f,.9f); bool black=r.below(8)==0; for(int c=0;c<3;c++){ al[c]=black?0:std::min(.95f,a0*r.f(.8f,1.2f)); em[c]=r.f(.3f,3); } Matrix4 M=place(r,1,8,true); int which=1+(int)wl(4),per=400+(int)wl(400); if(which==3&&wl(5)) which=4-2*(int)wl(2); Gloss gl; const Asset* thing=nullptr; bool bent=r.below(2);
  Outcome o=prog_run(hh,[&]{ w.scene=new Scene(); const Bsdf* mt=matte3(w,al); Spectrum E(0.f); for(int c=0;c<SPN;c++) E.w[c]=em[c]; gl=gloss(w,r,which,true); Mesh* q=new Mesh(2); if(bent) any_uv=&r; add_quad(q,Point3(-.2f,-.2f,0),Vec3(.4f,0,0),Vec3(0,.4f,0)); any_uv=nullptr; q->finalize(); w.scene->inherit_shape(q); Matrix4 ra,rb; ra.set_rotate_x(r.f(0,6)); rb.set_rotate_y(r.f(0,6)); Asset* a=new Asset(q,M*ra*rb,1); dress(a,q,gl.b); thing=a; w.scene->inherit_asset(a);
    for(auto&f:faces(Vec3(-4,-4,-4),Vec3(4,4,4),true)){ Mesh* m=new Mesh(2); add_quad(m,f.o,f.u,f.v); m->finalize(); w.scene->inherit_shape(m); AreaLight* l=new AreaLight(m,M,E); dress(l,m,mt); w.scene->inherit_light(l); } w.scene->k.buildTree(); }); if(o.kind!=Outcome::RETURNED) violation("dies","building the room %s",describe(o).c_str());
  Ray eye; bool seen=false; Point3 at=M*Point3(r.f(-.05f,.05f),r.f(-.05f,.05f),r.f(-.05f,.05f)); double A[2][3]={{0,0,0},{0,0,0}}; double cosine=0;
  prog_run(hh,[&]{ HitPoint h; for(int k=0;k<80&&!seen;k++){ Vec3 d(r.f(-1,1),r.f(-1,1),r.f(-1,1)); if(d.length()<.1f||d.length()>1) continue; d.normalize(); Point3 from(at.x-d.x*2,at.y-d.y*2,at.z-d.z*2); eye=Ray(from,d); h.differentials=false; Ray q=eye; if(!w.scene->k.intersect(&q,&h)||h.asset_h!=thing) continue; cosine=facing(h,eye); seen=cosine>.25; }
    if(!seen) return; ShadingSpace S; Normal n; gl.b->gen_shading_matrix(&h,&S,&n); Vec3 wo(-eye.direction.x,-eye.direction.y,-eye.direction.z); wo.normalize(); for(int fine=0;fine<2;fine++){ int Z=fine?200:120,P=2*Z; for(int i=0;i<Z;i++) for(int j=0;j<P;j++){ double u=(i+.5)/Z*2-1,z=u,ph=2*M_PI*(j+.5)/P,sn=sqrt(1-z*z); Vec3 l((float)(sn*cos(ph)),(float)(sn*sin(ph)),(float)z); Vec3 wi=S.to_world(l); Spectrum f=gl.b->value(&wo,&h,&wi,&S,false); for(int c=0;c<SPN;c++) A[fine][c]+=f.w[c]*fabs(z)*4*M_PI/Z/P; } } });
  bool rough=!seen; for(int c=0;c<SPN;c++) if(fabs(A[0][c]-A[1][c])>.004*fabs(A[1][c])) rough=true; if(rough){ probe("too sharp to integrate"); prog_run(hh,[&]{ delete w.scene; w.scene=nullptr; }); return; }
  double want[3]={0,0,0}; for(int c=0;c<SPN;c++) for(int k=0;k<=DEFAULT_BOUNCES;k++) want[c]+=A[1][c]*em[c]*pow(al[c],k); std::vector<std::vector<unsigned>> seeds(nt,std::vector<unsigned>(WELL_R)); Walk all; PathTracer pt;
  for(int round=0;round<2;round++){ if(round) per=std::max(16000/nt,per); std::vector<Walk> got(nt); std::vector<int> lost(nt); for(auto&q:seeds) seed_well(r,q.data(),4);
    run_threads(hh,nt,[&](int k){ OcclusionTester t(w.scene); SamplerRandom own(0,1,0,1,1,seeds[k].data()); HitPoint h; h.differentials=false; Ray q=eye; if(!w.scene->k.intersect(&q,&h)){ lost[k]++; return; } for(int i=0;i<per;i++) got[k].add(((const LightIntegrator*)&pt)->radiance(w.scene,&h,&q,&own,&t)); },"tracing");
    all=Walk(); for(auto&q:got) all.join(q); for(int q:lost) if(q) violation("lost-thing","the %s hits the thing for one thread and not for another",show(eye).c_str()); probe("paths",all.n); hash_bytes(all.sum,sizeof all.sum); if(!all.suspect(want)) break; probe(round?"confirmed":"looked at again with more paths"); }
  nontrivial(); if(nt>1) probe("threads",nt); probe(gl.known?"Blinn and Beckmann":which==1?"Oren-Nayar":which==2?"metal":which==3?"rough glass":"glossy"); sample("%s, rough %.2f, seen under cosine %.2f, albedo of the room %.2f: %llu paths by %d threads",gl.kind,gl.rough,cosine,a0,(unsigned long long)all.n,nt);
  for(int c=0;c<SPN;c++){ double m=all.mean(c),e=all.err(c); if(!(fabs(m-want[c])<8*e+.025*want[c])){ bool known=which==3||(gl.known&&m>want[c]*.4&&m<want[c]*2.5); violation(!known?"wrong-energy":which==3?"rough-glass":gl.kind[1]=='l'?"blinn":"beckmann","%s%s, rough %.2f, seen under cosine %.2f in a room of albedo %.2f: the light is %.5f +- %.5f on average instead of %.5f (%llu paths)",gl.kind,which==2?" metal":which==4?" glossy":"",gl.rough,cosine,al[c],m,e,want[c],(unsigned long long)all.n); } if(4*e<.05*want[c]) probe("averages within 5 %"); }
  prog_run(hh,[&]{ delete w.scene; w.scene=nullptr; });
}
SCENARIO("C23",c23_paths,3){
  Harness hh; Rng r(content_seed()); int nt=wl(4)==3?2+(int)wl(2):1; sched.preempt=nt>1; if(nt>1) random_sched(); sched.ncpu=4; set_fill(1+(u32)r.below(1000)); World w; std::vector<const Asset*> in; int no=1+(int)wl(6),nl=(int)wl(4); float spread=r.f(.2f,3);
  Outcome o=prog_run(hh,[&]{ w.scene=new Scene(); auto shape=[&]{ Shape* s=r.below(3)==0?(Shape*)odd_mesh(r):make_shape(r); w.scene->inherit_shape(s); return s; };
    for(int i=0;i<no;i++){ Shape* s=shape(); Matrix4 t=r.below(4)?make_transform(r,spread):place(r,any_scale(r),spread,r.below(2)); int nm=1+(int)r.below(3); std::vector<const Bsdf*> m; for(int k=0;k<nm;k++) m.push_back(any_bsdf(w,r)); std::vector<u8> idx(s->get_faces_number()); for(auto&x:idx) x=(u8)r.below(nm); Asset* a=new Asset(s,t,nm); a->set_materials(m.data(),nm,idx.data()); if(r.below(6)==0) a->set_mask(make_mask(w,r)); w.scene->inherit_asset(a); in.push_back(a); }
    for(int i=0;i<nl;i++){ Shape* s=shape(); AreaLight* l=new AreaLight(s,r.below(3)?make_transform(r,spread*2):place(r,any_scale(r),spread*2,true),Spectrum(r.f(.2f,5))); dress(l,s,any_bsdf(w,r)); w.scene->inherit_light(l); in.push_back(l); }
    w.scene->k.buildTree(); }); if(o.kind!=Outcome::RETURNED) violation("dies","building the scene %s",describe(o).c_str());
  struct Q { Ray ray; unsigned seed[WELL_R]; int kind,sk; bool diff; }; static const char* KIND[]={"random","head-on","head-on from inside","grazing","through the centre","along an axis"}; int per=20+(int)wl(60); std::vector<std::vector<Q>> qs(nt); int kinds[6]={0};
  prog_run(hh,[&]{ for(auto&v:qs) for(int i=0;i<per;i++){ Q q; q.kind=(int)r.below(6); const Asset* a=in[r.below(in.size())]; const AABB* b=a->get_AABB(); Point3 c((b->bounds[0].x+b->bounds[1].x)/2,(b->bounds[0].y+b->bounds[1].y)/2,(b->bounds[0].z+b->bounds[1].z)/2); Vec3 ex(b->bounds[1].x-b->bounds[0].x,b->bounds[1].y-b->bounds[0].y,b->bounds[1].z-b->bounds[0].z); Point3 to(c.x+ex.x*r.f(-.5f,.5f),c.y+ex.y*r.f(-.5f,.5f),c.z+ex.z*r.f(-.5f,.5f)); if(q.kind==4) to=c; Vec3 d(r.f(-1,1),r.f(-1,1),r.f(-1,1)); if(d.length()<.1f) d=Vec3(0,1,0); if(q.kind==5){ float g[3]={0,0,0}; g[r.below(3)]=r.below(2)?1.f:-1.f; d=Vec3(g[0],g[1],g[2]); } d.normalize(); float far=ex.length()*r.f(.2f,3)+r.f(0,2); q.ray=Ray(Point3(to.x-d.x*far,to.y-d.y*far,to.z-d.z*far),d);
      if(q.kind>=1&&q.kind<=3){ HitPoint h; h.differentials=false; Ray x=q.ray; if(w.scene->k.intersect(&x,&h)){ Vec3 n(h.normal_h.x,h.normal_h.y,h.normal_h.z); float s=q.kind==2?-1.f:1.f; Vec3 from(n.x*s,n.y*s,n.z*s); if(q.kind==3){ Vec3 t=cross(n,d); if(t.length()<1e-3f) t=Vec3(1,0,0); t.normalize(); float k=r.below(3)?r.f(0,.05f):r.f(0,1e-4f); if(r.below(2)) k=-k; from=Vec3(t.x+n.x*k,t.y+n.y*k,t.z+n.z*k); from.normalize(); } float e=r.below(4)?r.f(.02f,2):r.f(.005f,.05f); Vec3 dir(-from.x,-from.y,-from.z); if(r.below(3)==0){ int ax=(int)r.below(3); float* p=ax==0?&dir.x:ax==1?&dir.y:&dir.z; *p=nextafterf(*p,r.below(2)?2.f:-2.f); } q.ray=Ray(Point3(h.point_h.x+from.x*e,h.point_h.y+from.y*e,h.point_h.z+from.z*e),dir); } else q.kind=0; }
      kinds[q.kind]++; q.diff=false; q.sk=(int)r.below(5); if(q.sk>=1&&solver().ok){ u32 want[32]; for(auto&x:want) x=q.sk==1||r.below(6)?(u32)r.next():extreme(r); if(q.sk==4) for(int k=0;k<8;k++) want[r.below(32)]=extreme(r); solver().seed(want,q.seed); } else seed_well(r,q.seed,(int)r.below(4)); v.push_back(q); } });
  PathTracer pt; std::vector<std::string> bad(nt); std::vector<int> hits(nt); Outcome o2=prog_run(hh,[&]{ auto work=[&](int k){ OcclusionTester t(w.scene); for(auto&q:qs[k]){ HitPoint h; h.differentials=false; Ray ray=q.ray; if(!w.scene->k.intersect(&ray,&h)) continue; hits[k]++; SamplerRandom own(0,1,0,1,1,q.seed); Spectrum s=((const LightIntegrator*)&pt)->radiance(w.scene,&h,&ray,&own,&t); bool ok=true; for(int c=0;c<SPN;c++) if(!(s.w[c]>=0&&std::isfinite(s.w[c]))) ok=false; if(!ok&&bad[k].empty()){ char m[400]; u32 out[6]; WellSolver::run(q.seed,out,6); snprintf(m,400,"light (%g,%g,%g) along the %s ray %s (first numbers %.6g %.6g %.6g %.6g %.6g %.6g)",s.w[0],s.w[1],s.w[2],KIND[q.kind],show(q.ray).c_str(),out[0]/4294967296.,out[1]/4294967296.,out[2]/4294967296.,out[3]/4294967296.,out[4]/4294967296.,out[5]/4294967296.); bad[k]=m; } } }; if(nt<2) work(0); else { std::vector<std::thread> th; for(int k=0;k<nt;k++) th.emplace_back(work,k); for(auto&t:th) t.join(); } }); if(o2.kind!=Outcome::RETURNED) violation("dies","tracing %s",describe(o2).c_str());
  int all=0; for(int x:hits) all+=x; if(all) nontrivial(); probe("rays hitting something",all); for(int k=0;k<6;k++) if(kinds[k]) probe(KIND[k],kinds[k]); if(nt>1) probe("threads",nt); sample("%d objects, %d lights, %d rays by %d threads",no,nl,per,nt);
  for(auto&b:bad) if(!b.empty()) violation("bad-light","%s",b.c_str()); prog_run(hh,[&]{ delete w.scene; w.scene=nullptr; });
}
// ---- C27: mirrors and glass show what the laws of reflection and refraction say
namespace {
struct Face27 { D3 o,u,v,n; int mat; double e[3]; bool tri=false,smooth=false; D3 sn[3]; }; // n: outward
struct Ball { D3 c; double r; int mat; };
struct Mat27 { bool glass; double eta,n[3],k[3],s[3],d[3]; };
D3 operator+(D3 a,D3 b){ return {a.x+b.x,a.y+b.y,a.z+b.z}; } D3 operator*(D3 a,double k){ return {a.x*k,a.y*k,a.z*k}; }
D3 unit27(D3 a){ double l=len3(a); return a*(1/l); }
double dielectric(double ei,double et,double c){ double st=ei/et*sqrt(std::max(0.,1-c*c)); if(st>=1) return 1; double ct=sqrt(1-st*st),a=(ei*c-et*ct)/(ei*c+et*ct),b=(et*c-ei*ct)/(et*c+ei*ct); return (a*a+b*b)/2; }
double conductor(double n,double k,double c){ double t=n*n+k*k,e=2*n*c,a=(t-e+c*c)/(t+e+c*c),b=(t*c*c-e+1)/(t*c*c+e+1); return (a+b)/2; }
struct Hall { std::vector<Face27> f; std::vector<Ball> b; std::vector<Mat27> m; double tiny=.02;
  // nearest thing hit; false: too close to an edge to say
  bool hit(D3 o,D3 d,double from,double& t,D3& n,D3& sn,int& mat,const double*& e) const { t=1e300; double second=1e300; bool near=false; double neart=1e300;
    for(auto&q:f){ double c=dot3(d,q.n); if(fabs(c)<1e-9) continue; double s=dot3(q.o-o,q.n)/c; if(s<from*.5) continue; D3 p=o+d*s-q.o; double m=tiny/std::max(.05,fabs(c)),uu=dot3(q.u,q.u),vv=dot3(q.v,q.v),uv=dot3(q.u,q.v),det=uu*vv-uv*uv,pu=dot3(p,q.u),pv=dot3(p,q.v),a=(pu*vv-pv*uv)/det,b=(pv*uu-pu*uv)/det,hu=sqrt(det/vv),hv=sqrt(det/uu),ma=m/hu,mb=m/hv; 
      bool edge=s<from*2||fabs(c)<.05; if(q.tri){ double mc=m*len3(q.u-q.v)/sqrt(det); if(a<-ma||b<-mb||a+b>1+mc) continue; edge=edge||a<ma||b<mb||a+b>1-mc; } else { if(a<-ma||a>1+ma||b<-mb||b>1+mb) continue; edge=edge||a<ma||a>1-ma||b<mb||b>1-mb||fabs(a-b)<1e-3; } if(edge){ if(s<neart) neart=s; continue; } if(s<t){ second=t; t=s; sn=n=q.n; if(q.smooth) sn=unit27(q.sn[0]*(1-a-b)+q.sn[1]*a+q.sn[2]*b); mat=q.mat; e=q.e; } else second=std::min(second,s); }
    for(auto&q:b){ D3 oc=q.c-o; double along=dot3(oc,d),h=sqrt(std::max(0.,dot3(oc,oc)-along*along)); if(h>q.r+tiny) continue; if(h>q.r*.97-tiny){ double s=std::max(0.,along-q.r); if(along>-q.r&&s<neart) neart=s; continue; } double w=sqrt(q.r*q.r-h*h); for(double s:{along-w,along+w}){ if(fabs(s)<from*.5) continue; if(s<0) continue; if(s<from*2){ neart=std::min(neart,s); continue; } if(s<t){ second=t; t=s; sn=n=unit27(o+d*s-q.c); mat=q.mat; e=nullptr; } } }
    near=neart<t+.02; if(second<t+.01) near=true; return !near; }
  bool see(D3 o,D3 d,int depth,double from,double* out) const { double t; D3 n,sn; int mat=-1; const double* e=nullptr; for(int c=0;c<6;c++) out[c]=0; // out[3..5]: with the metals as they are known to be from behind
    if(!hit(o,d,from,t,n,sn,mat,e)) return false; if(t>1e299) return true; double c=-dot3(d,sn); if(c*-dot3(d,n)<=0) return false;
    if(mat<0){ if(c>0) for(int k=0;k<6;k++) out[k]=e[k%3]; return true; } if(depth==DEFAULT_BOUNCES) return true; const Mat27& m=this->m[mat]; D3 p=o+d*t,in=c>0?sn:sn*-1.,gin=c>0?n:n*-1.; double ac=fabs(c); if(ac<.05) return false; D3 r=unit27(d+in*(2*ac)); double sub[6]; if(dot3(r,gin)<.03) return false; // the surface and its normal disagree about the side
   
    if(!see(p,r,depth+1,from,sub)) return false; if(!m.glass){ for(int k=0;k<6;k++){ double R=conductor(m.n[k%3],m.k[k%3],ac); if(k>2&&c<0) R=conductor(m.n[k%3],m.k[k%3],c); out[k]=R*m.s[k%3]*sub[k]; } return true; }
    double ei=c>0?1:m.eta,et=c>0?m.eta:1,F=dielectric(ei,et,ac),st=ei/et*sqrt(std::max(0.,1-ac*ac)); if(fabs(st-1)<.03) return false; for(int k=0;k<6;k++) out[k]=F*m.s[k%3]*sub[k]; if(st>=1) return true;
    double ct=sqrt(1-st*st),g=ei/et; D3 tr=unit27(d*g+in*(g*ac-ct)); if(dot3(tr,gin)>-.03) return false; if(!see(p,tr,depth+1,from,sub)) return false; for(int k=0;k<6;k++) out[k]+=(1-F)*g*g*m.d[k%3]*sub[k]; return true; }
};
}
SCENARIO("C27",mirrors,1){
  Harness hh; Rng r(content_seed()); int nt=wl(4)==3?2+(int)wl(2):1; sched.preempt=nt>1; if(nt>1) random_sched(); sched.ncpu=4; sched.step_budget=2000000000ull; set_fill(1+(u32)r.below(1000)); World w; float g=r.below(3)?1.f:expf(r.f(logf(.5f),logf(4.f))); Matrix4 M=place(r,g,8,true); Hall hall; int no=1+(int)wl(wl(2)?2:4),missing=wl(4)==0?(int)wl(6):-1; int per=1500+(int)wl(1500); bool plain=wl(3)==0,flat=wl(3)==2; if(flat) missing=-1; int inside=-1; // flat: bump maps that leave the surface as it is (nearly, 128 is not quite 0)
  struct Obj { int kind; D3 c; double s; D3 lo,hi; int mat; }; std::vector<Obj> objs;
  Outcome o=prog_run(hh,[&]{ w.scene=new Scene(); const float none[3]={0,0,0}; const Bsdf* black=matte3(w,none); std::vector<const Bsdf*> bs;
    for(int i=0;i<no;i++){ Mat27 m; m.glass=r.below(3)!=0; m.eta=r.below(6)==0?r.f(.65f,.95f):r.f(1.1f,2.4f); Spectrum sn(1.f),sk(1.f),ss(1.f),sd(1.f); for(int c=0;c<3;c++){ m.n[c]=r.f(.15f,2.5f); m.k[c]=r.f(1.f,5); m.s[c]=plain?1:r.f(.3f,1); m.d[c]=plain?1:r.f(.3f,1); if(c<SPN){ sn.w[c]=m.n[c]; sk.w[c]=m.k[c]; ss.w[c]=m.s[c]; sd.w[c]=m.d[c]; } }
      auto tex=[&](Spectrum s){ const Texture* t=new TextureUniform(s); w.texs.push_back(t); return t; }; const Bsdf* b; if(m.glass){ MultiBSDF* q=new MultiBSDF(); Spectrum one=cauchy(1.f,0.f),ior=cauchy((float)m.eta,0.f); m.eta=ior.w[0]; q->inherit_bdf(new Refraction(one,ior),tex(sd)); q->inherit_bdf(new DielectricReflection(one,ior),tex(ss)); b=q; } else b=new SingleBRDF(new ConductorReflection(sn,sk),tex(ss)); if(flat){ int how=(int)r.below(4); static const ImageChannel ch[]={RED,GREEN,BLUE,ALPHA}; if(how){ std::vector<pixBGRA> px(16,how==1?0xff8080ffu:(u32)r.next()); const ImageMap* im; int kind=(int)r.below(3); if(kind==0) im=new ImageMapUnfiltered(px.data(),4); else if(kind==1) im=new ImageMapTrilinear(px.data(),4); else im=new ImageMapEWA(px.data(),4); w.maps.push_back(im); Vec2 sh(r.f(0,1),r.f(0,1)),sc(r.f(.2f,3),r.f(.2f,3)); const TextureImage* t=new TextureImage(im,sh,sc,kind==0); w.texs.push_back(t); if(how==1) const_cast<Bsdf*>(b)->inherit_bump(new TextureNormal(t)); else const_cast<Bsdf*>(b)->inherit_bump(new TextureHeight(t,ch[r.below(4)])); probe(how==1?"flat normal maps":"flat height maps"); } }
      w.mats.push_back(b); bs.push_back(b); hall.m.push_back(m); }
    if(r.below(2)) any_uv=&r; double same[3]; for(auto&x:same) x=r.f(.3f,3);
    // a hall whose walls shine, each in a colour of its own
    double H=6; int k=0; std::vector<AreaLight*> lights; for(auto&f:faces(Vec3(-H,-H,-H),Vec3(H,H,H),true)){ if(k++==missing) continue; Mesh* m=new Mesh(2); add_quad(m,f.o,f.u,f.v); m->finalize(); w.scene->inherit_shape(m); Spectrum E(0.f); Face27 q; q.o=d3(f.o); q.u={f.u.x,f.u.y,f.u.z}; q.v={f.v.x,f.v.y,f.v.z}; q.n=unit27(cross3(q.u,q.v)); q.mat=-1; for(int c=0;c<3;c++){ q.e[c]=flat?same[c]:r.f(.3f,3); if(c<SPN) E.w[c]=q.e[c]; } AreaLight* l=new AreaLight(m,M,E); dress(l,m,black); lights.push_back(l); hall.f.push_back(q); }
    for(int i=0;i<no;i++){ D3 c{(i&1?1.6:-1.6)+r.f(-.3f,.3f),(i&2?1.6:-1.6)+r.f(-.3f,.3f),(i&4?1.6:-1.6)+r.f(-.3f,.3f)}; if(no==1) c={r.f(-1,1),r.f(-1,1),r.f(-1,1)}; Asset* a; int kind=(int)r.below(5); Obj ob; ob.c=c; ob.mat=i; ob.kind=kind;
      if(kind<2){ double rad=r.f(.5f,1.1f); Shape* s=new Sphere(); w.scene->inherit_shape(s); Matrix4 t,sc,ro; t.set_translation(Vec3(c.x,c.y,c.z)); sc.set_scale((float)rad); ro.set_rotate_x(r.f(0,6)); a=new Asset(s,M*t*ro*sc,1); dress(a,s,bs[i]); hall.b.push_back({c,rad,i}); ob.s=rad; }
      else if(kind==4){ Matrix4 t,ra,rb,rc,sc; t.set_translation(Vec3(c.x,c.y,c.z)); ra.set_rotate_x(r.f(0,6)); rb.set_rotate_y(r.f(0,6)); rc.set_rotate_z(r.f(0,6)); sc.set_scale(Vec3(r.f(.3f,.9f),r.f(.3f,.9f),r.f(.3f,.9f))); Matrix4 T=t*ra*rb*sc*rc; Mesh* m=new Mesh(4); Point3 v[6]; int nv; std::vector<std::array<int,3>> fs; if(r.below(2)){ Point3 q[4]={Point3(1,1,1),Point3(-1,-1,1),Point3(-1,1,-1),Point3(1,-1,-1)}; nv=4; for(int k=0;k<4;k++) v[k]=q[k]; fs={{0,1,2},{0,1,3},{0,2,3},{1,2,3}}; } else { Point3 q[6]={Point3(1,0,0),Point3(-1,0,0),Point3(0,1,0),Point3(0,-1,0),Point3(0,0,1),Point3(0,0,-1)}; nv=6; for(int k=0;k<6;k++) v[k]=q[k]; for(int a=0;a<2;a++) for(int b=2;b<4;b++) for(int d=4;d<6;d++) fs.push_back({a,b,d}); }
        (void)nv; float bend=!flat&&r.below(2)?r.f(.1f,.7f):0; for(auto&f:fs){ Point3 A=v[f[0]],B=v[f[1]],C=v[f[2]]; Vec3 n=cross(B-A,C-A); if(n.x*A.x+n.y*A.y+n.z*A.z<0) std::swap(B,C); std::vector<Vec3> ns; if(bend>0){ Vec3 fn=cross(B-A,C-A); fn.normalize(); Vertex vs[3]; int z=0; for(auto&P:{A,B,C}){ Vec3 d(P.x,P.y,P.z); d.normalize(); Vec3 q(fn.x+d.x*bend,fn.y+d.y*bend,fn.z+d.z*bend); q.normalize(); ns.push_back(q); vs[z]=vert(P,q,r.f(0,1),r.f(0,1)); z++; } m->add_triangle(vs,vs+1,vs+2); } else add_tri(m,nullptr,A,B,C); Point3 wa=T*A,wb=T*B,wc=T*C; Face27 q; q.tri=true; q.o=d3(wa); q.u=d3(wb)-d3(wa); q.v=d3(wc)-d3(wa); q.n=unit27(cross3(q.u,q.v)); q.mat=i; if(bend>0){ q.smooth=true; Vec3 X=T*Vec3(1,0,0),Y=T*Vec3(0,1,0),Z=T*Vec3(0,0,1); D3 x{X.x,X.y,X.z},y{Y.x,Y.y,Y.z},zz{Z.x,Z.y,Z.z}; D3 cx=cross3(y,zz),cy=cross3(zz,x),cz=cross3(x,y); if(dot3(cx,x)<0){ cx=cx*-1.; cy=cy*-1.; cz=cz*-1.; } for(int z=0;z<3;z++) q.sn[z]=cx*ns[z].x+cy*ns[z].y+cz*ns[z].z; probe("smooth surfaces"); } hall.f.push_back(q); }
        m->finalize(); w.scene->inherit_shape(m); a=new Asset(m,M*T,1); dress(a,m,bs[i]); ob.s=.25; ob.kind=2; }
      else { D3 h{r.f(.3f,1),r.f(.3f,1),r.f(.3f,1)}; if(kind==3) h.x=r.f(.05f,.15f); double rot=r.f(0,6.2f); int ax=(int)r.below(3); Matrix4 t,ro; t.set_translation(Vec3(c.x,c.y,c.z)); if(ax==0) ro.set_rotate_x(rot); else if(ax==1) ro.set_rotate_y(rot); else ro.set_rotate_z(rot); bool flat=kind==3&&r.below(2)&&!hall.m[i].glass; Mesh* m=new Mesh(2); Matrix4 T=t*ro; int fi=0; for(auto&f:faces(Vec3(-h.x,-h.y,-h.z),Vec3(h.x,h.y,h.z),false)){ if(flat&&fi++!=2) continue; add_quad(m,f.o,f.u,f.v); Face27 q; Point3 wo=T*f.o; Vec3 u=T*f.u,v=T*f.v; q.o=d3(wo); q.u={u.x,u.y,u.z}; q.v={v.x,v.y,v.z}; q.n=unit27(cross3(q.u,q.v)); q.mat=i; hall.f.push_back(q); } m->finalize(); w.scene->inherit_shape(m); a=new Asset(m,M*T,1); dress(a,m,bs[i]); ob.s=std::min(h.x,std::min(h.y,h.z)); if(flat) ob.kind=4; }
      objs.push_back(ob); w.scene->inherit_asset(a); }
    for(auto q:lights) w.scene->inherit_light(q); w.scene->k.buildTree(); }); any_uv=nullptr; if(o.kind!=Outcome::RETURNED) violation("dies","building the hall %s",describe(o).c_str());
  double from=.01/g; PathTracer pt; int judged=0;
  for(int ray=0;ray<3;ray++){ D3 p,d; double want[6]; bool ok=false; int in=-1; for(int tries=0;tries<60&&!ok;tries++){ const Obj& a=objs[r.below(objs.size())]; in=-1; bool start=hall.m[a.mat].glass&&a.kind<4&&r.below(4)==0; D3 to{r.f(-1,1),r.f(-1,1),r.f(-1,1)}; if(len3(to)<.1||len3(to)>1) continue; if(start){ p=a.c+to*(a.s*.8); d=D3{r.f(-1,1),r.f(-1,1),r.f(-1,1)}; if(len3(d)<.1) continue; d=unit27(d); in=a.mat; } else { p=D3{r.f(-5,5),r.f(-5,5),r.f(-5,5)}; bool bad=false; for(auto&q:objs) if(len3(p-q.c)<2) bad=true; if(bad) continue; d=unit27(a.c+to*a.s-p); } ok=hall.see(p,d,0,from,want); }
    if(!ok){ probe("no ray clear of edges"); continue; } Vec3 dw=M*Vec3(d.x,d.y,d.z); dw.normalize(); Ray eye(M*Point3(p.x,p.y,p.z),dw); if(in>=0) inside=in; std::vector<std::vector<unsigned>> seeds(nt,std::vector<unsigned>(WELL_R)); Walk all; int n=per;
    for(int round=0;round<2;round++){ if(round) n=60000/nt; std::vector<Walk> got(nt); std::vector<int> lost(nt); for(auto&q:seeds) seed_well(r,q.data(),4);
      run_threads(hh,nt,[&](int k){ OcclusionTester t(w.scene); SamplerRandom own(0,1,0,1,1,seeds[k].data()); HitPoint h; h.differentials=false; Ray q=eye; if(!w.scene->k.intersect(&q,&h)){ lost[k]++; return; } for(int i=0;i<n;i++) got[k].add(((const LightIntegrator*)&pt)->radiance(w.scene,&h,&q,&own,&t)); },"tracing");
      all=Walk(); for(auto&q:got) all.join(q); if(!all.n){ if(want[0]+want[1]+want[2]>0) violation("lost-light","the %s meets nothing, but there is light",show(eye).c_str()); break; } probe("paths",all.n); hash_bytes(all.sum,sizeof all.sum); if(!all.suspect(want)) break; probe(round?"confirmed":"looked at again with more paths"); }
    if(!all.n) continue; judged++; if(in>=0) probe("from inside glass"); for(int c=0;c<SPN;c++){ double m=all.mean(c),e=all.err(c); double tol=8*e+(flat?.05:.01)*want[c]+1e-4; if(!(fabs(m-want[c])<tol)) violation(fabs(want[c+3]-want[c])>tol&&fabs(m-want[c+3])<8*e+(flat?.05:.01)*want[c+3]+1e-4?"metal-from-behind-too-bright":"wrong-energy","%s into a hall with %d objects%s%s (scale %.3g): the light seen is %.5f +- %.5f on average instead of %.5f (%llu paths)",show(eye).c_str(),no,in>=0?", from inside glass":"",flat?", flat bump maps":"",g,m,e,want[c],(unsigned long long)all.n); if(4*e<.05*want[c]) probe("averages within 5 %"); } }
  (void)inside; if(judged) nontrivial(); if(nt>1) probe("threads",nt); sample("hall with %d objects, %d rays judged, %d threads",no,judged,nt); prog_run(hh,[&]{ delete w.scene; w.scene=nullptr; });
}
SCENARIO("C27",matte_hall,1){
  // matte walls that all give and reflect the same light: seen through mirrors and glass, a wall is at least as bright as after one reflection of the light and at most as bright as after all of them
  Harness hh; Rng r(content_seed()); int nt=wl(4)==3?2+(int)wl(2):1; sched.preempt=nt>1; if(nt>1) random_sched(); sched.ncpu=4; sched.step_budget=2000000000ull; set_fill(1+(u32)r.below(1000)); World w; float g=r.below(3)?1.f:expf(r.f(logf(.5f),logf(4.f))); Matrix4 M=place(r,g,8,true); Hall hall; int no=1+(int)wl(3),nl=1+(int)wl(6); int per=800+(int)wl(800); bool solid=wl(3)==0; float al[3],em[3]; for(int c=0;c<3;c++){ al[c]=r.f(.15f,.45f); em[c]=r.f(.3f,3); } double hidden=0; std::vector<D3> at;
  Outcome o=prog_run(hh,[&]{ w.scene=new Scene(); const Bsdf* mt=matte3(w,al); Spectrum E(0.f); for(int c=0;c<SPN;c++) E.w[c]=em[c]; if(r.below(2)) any_uv=&r; auto tex=[&](Spectrum s){ const Texture* t=new TextureUniform(s); w.texs.push_back(t); return t; };
    double H=6; std::vector<Mesh*> ms; for(int i=0;i<nl;i++) ms.push_back(new Mesh(2)); int k=0; for(auto&f:faces(Vec3(-H,-H,-H),Vec3(H,H,H),true)){ add_quad(ms[k<nl?k:(int)r.below(nl)],f.o,f.u,f.v); k++; Face27 q; q.o=d3(f.o); q.u={f.u.x,f.u.y,f.u.z}; q.v={f.v.x,f.v.y,f.v.z}; q.n=unit27(cross3(q.u,q.v)); q.mat=-1; for(int c=0;c<3;c++) q.e[c]=em[c]; hall.f.push_back(q); }
    for(auto m:ms){ m->finalize(); w.scene->inherit_shape(m); AreaLight* l=new AreaLight(m,M,E); dress(l,m,mt); w.scene->inherit_light(l); }
    for(int i=0;i<no;i++){ Mat27 m; m.glass=r.below(2)&&!solid; m.eta=r.f(1.1f,2.f); Spectrum sn(1.f),sk(1.f),ss(1.f),sd(1.f); for(int c=0;c<3;c++){ m.n[c]=r.f(.15f,2.5f); m.k[c]=r.f(1.f,5); m.s[c]=r.f(.5f,1); m.d[c]=r.f(.5f,1); if(c<SPN){ sn.w[c]=m.n[c]; sk.w[c]=m.k[c]; ss.w[c]=m.s[c]; sd.w[c]=m.d[c]; } } const Bsdf* b; if(m.glass){ MultiBSDF* q=new MultiBSDF(); Spectrum one=cauchy(1.f,0.f),ior=cauchy((float)m.eta,0.f); m.eta=ior.w[0]; q->inherit_bdf(new Refraction(one,ior),tex(sd)); q->inherit_bdf(new DielectricReflection(one,ior),tex(ss)); b=q; } else b=new SingleBRDF(new ConductorReflection(sn,sk),tex(ss)); w.mats.push_back(b); hall.m.push_back(m);
      D3 c{(i&1?1.5:-1.5)+r.f(-.3f,.3f),(i&2?1.5:-1.5)+r.f(-.3f,.3f),r.f(-1.5f,1.5f)}; double rad=r.f(.5f,1.1f); Shape* s=new Sphere(); w.scene->inherit_shape(s); Matrix4 t,sc,ro; t.set_translation(Vec3(c.x,c.y,c.z)); sc.set_scale((float)rad); ro.set_rotate_x(r.f(0,6)); Asset* a=new Asset(s,M*t*ro*sc,1); dress(a,s,b); hall.b.push_back({c,rad,i}); double near=6-std::max(fabs(c.x),std::max(fabs(c.y),fabs(c.z))); hidden+=rad*rad/near/near; at.push_back(c); w.scene->inherit_asset(a); }
    w.scene->k.buildTree(); }); any_uv=nullptr; if(o.kind!=Outcome::RETURNED) violation("dies","building the hall %s",describe(o).c_str());
  double from=.01/g; PathTracer pt; int judged=0; hidden=std::min(1.,hidden);
  for(int ray=0;ray<3;ray++){ D3 p,d; double want[6]; bool ok=false; for(int tries=0;tries<60&&!ok;tries++){ int k=(int)r.below(no); D3 to{r.f(-1,1),r.f(-1,1),r.f(-1,1)}; if(len3(to)<.1||len3(to)>1) continue; p=D3{r.f(-5,5),r.f(-5,5),r.f(-5,5)}; bool bad=false; for(auto&q:at) if(len3(p-q)<2) bad=true; if(bad) continue; d=unit27(at[k]+to*(hall.b[k].r*.9)-p); ok=hall.see(p,d,0,from,want); }
    if(!ok){ probe("no ray clear of edges"); continue; } Vec3 dw=M*Vec3(d.x,d.y,d.z); dw.normalize(); Ray eye(M*Point3(p.x,p.y,p.z),dw); std::vector<std::vector<unsigned>> seeds(nt,std::vector<unsigned>(WELL_R)); Walk all; int n=per; double lo[3],hi[3]; for(int c=0;c<3;c++){ lo[c]=want[c]*(1+al[c]*(1-hidden)); hi[c]=want[c]/(1-al[c]); }
    for(int round=0;round<2;round++){ if(round) n=20000/nt; std::vector<Walk> got(nt); std::vector<int> lost(nt); for(auto&q:seeds) seed_well(r,q.data(),4);
      run_threads(hh,nt,[&](int k){ OcclusionTester t(w.scene); SamplerRandom own(0,1,0,1,1,seeds[k].data()); HitPoint h; h.differentials=false; Ray q=eye; if(!w.scene->k.intersect(&q,&h)){ lost[k]++; return; } for(int i=0;i<n;i++) got[k].add(((const LightIntegrator*)&pt)->radiance(w.scene,&h,&q,&own,&t)); },"tracing");
      all=Walk(); for(auto&q:got) all.join(q); for(int q:lost) if(q) violation("lost-light","the %s leaves the closed hall",show(eye).c_str()); probe("paths",all.n); hash_bytes(all.sum,sizeof all.sum); bool odd=false; for(int c=0;c<SPN;c++) if(all.mean(c)<lo[c]-3*all.err(c)||all.mean(c)>hi[c]+3*all.err(c)) odd=true; if(!odd) break; probe(round?"confirmed":"looked at again with more paths"); }
    judged++; for(int c=0;c<SPN;c++){ double m=all.mean(c),e=all.err(c); if(m<lo[c]*.99-8*e||m>hi[c]*1.01+8*e) violation("wrong-energy","%s into a hall of matte walls (albedo %.3f, %d lights) with %d balls (scale %.3g): the light seen is %.5f +- %.5f on average instead of %.5f to %.5f (%llu paths)",show(eye).c_str(),al[c],nl,no,g,m,e,lo[c],hi[c],(unsigned long long)all.n); if(4*e<.05*lo[c]) probe("averages within 5 %"); } }
  if(judged) nontrivial(); if(nt>1) probe("threads",nt); sample("hall of matte walls with %d balls, %d rays judged, %d threads",no,judged,nt); prog_run(hh,[&]{ delete w.scene; w.scene=nullptr; });
}
