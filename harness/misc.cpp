// Scene index, mesh index, shadow tests, libraries, folders.
#include "common.hpp"
#include "images.hpp"
#include "faulty.hpp"
#include "accelerators/kdtree.hpp"
#include "utility/occlusion_tester.hpp"
#include "utility/file.hpp"
#include "lights/area_light.hpp"
#include <thread>
#include <set>
using namespace hx;
namespace {
// ---------------------------------------------------------------- worlds made for the index
struct IndexWorld { Scene* scene=nullptr; std::vector<const Asset*> in; float span=1; int objects=0,lights=0; World w; std::vector<Shape*> shapes; std::vector<const Asset*> owned; };
Mesh* quad(Rng& r,int axis){ Mesh* m=new Mesh(1+(unsigned)r.below(3)); float s=r.f(.3f,1.5f); auto P=[&](float a,float b){ return axis==0?Point3(0,a,b):axis==1?Point3(a,0,b):Point3(a,b,0); }; Normal n(axis==0,axis==1,axis==2); 
  Vertex v[4]; v[0].p=P(-s,-s); v[1].p=P(s,-s); v[2].p=P(s,s); v[3].p=P(-s,s); for(auto&x:v) x.n=n; v[0].t=Point2(0,0); v[1].t=Point2(1,0); v[2].t=Point2(1,1); v[3].t=Point2(0,1); m->add_triangle(v,v+1,v+2); m->add_triangle(v,v+2,v+3); m->finalize(); return m; }
struct Layout { int mode; float span; Vec3 step; int n=0; };
Matrix4 placement(Rng& r,Layout& l){
  Matrix4 t,s; int k=l.n++; Vec3 p; float sc=1;
  switch(l.mode){
    case 0: { Matrix4 m=make_transform(r,l.span); return m; }                                         // anywhere
    case 1: p=Vec3((float)(r.below(8)*2),(float)(r.below(8)*2),(float)(r.below(8)*2)); break;           // touching cells
    case 2: p=Vec3(0,0,0); sc=r.below(3)?1.f:1.f+0.1f*(float)r.below(30); break;                        // nested or identical
    case 3: p=Vec3(l.step.x*k,l.step.y*k,l.step.z*k); break;                                           // a line
    case 4: p=Vec3(0,0,(float)r.below(4)); break;                                                      // few planes
    case 5: p=Vec3(r.f(-l.span,l.span),r.f(-l.span,l.span),0); sc=r.f(.05f,.3f); break;                 // a thin layer
    default: p=Vec3(powf(1.3f,(float)(k%20)),0,0); sc=powf(1.3f,(float)(k%20))*.2f; break; }             // growing
  t.set_translation(p); s.set_scale(sc); return t*s;
}
void add_object(IndexWorld& w,Rng& r,Layout& l,bool light,bool masks){
  Shape* s; if(w.shapes.empty()||r.below(6)==0){ int k=(int)r.below(8); s=k<3?new Sphere():k<6?(Shape*)quad(r,(int)r.below(3)):make_shape(r); w.scene->inherit_shape(s); w.shapes.push_back(s); } else s=w.shapes[r.below(w.shapes.size())];
  Matrix4 t=placement(r,l); if(light){ AreaLight* a=new AreaLight(s,t,SPECTRUM_ONE); w.scene->inherit_light(a); w.in.push_back(a); w.lights++; } else { Asset* a=new Asset(s,t,1); if(masks&&r.below(4)==0) a->set_mask(make_mask(w.w,r)); w.scene->inherit_asset(a); w.in.push_back(a); w.objects++; }
}
Ray make_ray(Rng& r,const IndexWorld& w){
  Vec3 tgt(0,0,0); if(!w.in.empty()&&r.below(5)){ const AABB* b=w.in[r.below(w.in.size())]->get_AABB(); tgt=Vec3(b->bounds[0].x+(b->bounds[1].x-b->bounds[0].x)*r.f(0,1),b->bounds[0].y+(b->bounds[1].y-b->bounds[0].y)*r.f(0,1),b->bounds[0].z+(b->bounds[1].z-b->bounds[0].z)*r.f(0,1)); } else tgt=Vec3(r.f(-w.span,w.span),r.f(-w.span,w.span),r.f(-w.span,w.span));
  Vec3 d; Point3 o; int mode=(int)r.below(6);
  if(mode==0){ int ax=(int)r.below(3); float sg=r.below(2)?1.f:-1.f; float z1=r.below(2)?0.f:-0.f,z2=r.below(2)?0.f:-0.f; d=Vec3(ax==0?sg:z1,ax==1?sg:ax==0?z1:z2,ax==2?sg:z2); float far=r.below(2)?r.f(1,5):w.span*3; o=Point3(tgt.x-d.x*far,tgt.y-d.y*far,tgt.z-d.z*far); if(r.below(2)) o=Point3(floorf(o.x),floorf(o.y),floorf(o.z)); }   // along an axis, maybe on the planes of a grid
  else if(mode==1&&!w.in.empty()){ const AABB* b=w.in[r.below(w.in.size())]->get_AABB(); o=Point3(b->bounds[r.below(2)].x,b->bounds[r.below(2)].y,b->bounds[r.below(2)].z); d=Vec3(r.f(-1,1),r.f(-1,1),r.f(-1,1)); if(r.below(4)==0) d=Vec3(tgt.x-o.x,tgt.y-o.y,tgt.z-o.z); }   // from a corner of a box
  else { float far=r.below(3)?w.span*2+3:r.f(.1f,2); d=Vec3(r.f(-1,1),r.f(-1,1),r.f(-1,1)); if(r.below(5)==0){ float z=r.below(2)?0.f:-0.f; switch(r.below(3)){ case 0: d.x=z; break; case 1: d.y=z; break; default: d.z=z; } } if(d.length()<.1f) d=Vec3(0,0,1); d.normalize(); o=Point3(tgt.x-d.x*far,tgt.y-d.y*far,tgt.z-d.z*far); }
  if(d.length()<1e-3f) d=Vec3(0,1,0); d.normalize(); return Ray(o,d);
}
struct Near { const Asset* a=nullptr; float d=FLT_MAX; HitPoint h; };
Near brute(const std::vector<const Asset*>& v,const Ray& r){ Near n; for(auto a:v){ float d=FLT_MAX; HitPoint h; if(a->intersect(&r,&d,&h)&&(!n.a||d<n.d)){ n.a=a; n.d=d; n.h=h; } } return n; }
Ray wiggle(const Ray& r,int k,float eps){ Ray x(r); eps*=1+std::max({fabsf(r.origin.x),fabsf(r.origin.y),fabsf(r.origin.z)})*.1f; Vec3 e(k&1?eps:-eps,k&2?eps:-eps,k&4?eps:-eps); if(k<8) x.origin=Point3(r.origin.x+e.x,r.origin.y+e.y,r.origin.z+e.z); else { x.direction=Vec3(r.direction.x+e.x,r.direction.y+e.y,r.direction.z+e.z); x.direction.normalize(); } return x; }
// the nearest hit does not hang on the last bits of the numbers: slightly different rays find an object at about the same distance
bool robust(const std::vector<const Asset*>& v,const Ray& r,const Near& n){ for(int k=0;k<16;k++){ Near m=brute(v,wiggle(r,k,2e-4f)); if(!m.a||fabsf(m.d-n.d)>1e-2f*(1+n.d)) return false; } return true; }
double dist(const Point3& a,const Point3& b){ double x=(double)a.x-b.x,y=(double)a.y-b.y,z=(double)a.z-b.z; return sqrt(x*x+y*y+z*z); }
std::string show(const Ray& r){ char b[200]; snprintf(b,200,"ray (%.9g,%.9g,%.9g)->(%.9g,%.9g,%.9g)",r.origin.x,r.origin.y,r.origin.z,r.direction.x,r.direction.y,r.direction.z); return b; }
void query(Harness& hh,IndexWorld& w,const std::vector<const Asset*>& in,const Ray& ray,const char* when){
  bool got=false; HitPoint h; Near n; h.asset_h=nullptr; Outcome o=prog_run(hh,[&]{ got=w.scene->k.intersect(&ray,&h); n=brute(in,ray); }); if(o.kind!=Outcome::RETURNED) violation("dies","a query %s",describe(o).c_str());
  hash_mix(got); if(n.a) hash_bytes(&n.d,4); if(!got&&!n.a) return;
  if(got&&!n.a){ violation("phantom-hit","%s: the index reports a hit of an object which is not hit (%s)",show(ray).c_str(),when); }
  double tol=2e-3*(1+n.d);
  if(got){ size_t at=std::find(in.begin(),in.end(),h.asset_h)-in.begin(); if(at==in.size()) violation("phantom-hit","%s: the object that was hit is not in the scene (%s)",show(ray).c_str(),when); 
    float d2=FLT_MAX; HitPoint h2; bool again=false; prog_run(hh,[&]{ again=h.asset_h->intersect(&ray,&d2,&h2); }); if(!again||dist(h2.point_h,h.point_h)>tol) violation("mixed-hit","%s: the reported point (%g,%g,%g) is not where the reported object is hit (%s)",show(ray).c_str(),h.point_h.x,h.point_h.y,h.point_h.z,when);
    double d=d2;   // not from the point: spheres move the points at their poles sideways
    if(fabs(d-n.d)<=tol){ probe("hits compared"); bool tie=false; for(auto a:in) if(a!=h.asset_h){ float e=FLT_MAX; HitPoint x; prog_run(hh,[&]{ if(a->intersect(&ray,&e,&x)&&fabsf(e-n.d)<=tol) tie=true; }); } if(!tie&&h.asset_h==n.a&&h.index==n.h.index&&(fabsf(h.normal_h.x-n.h.normal_h.x)+fabsf(h.normal_h.y-n.h.normal_h.y)+fabsf(h.normal_h.z-n.h.normal_h.z)>1e-3f||fabsf(h.uv.x-n.h.uv.x)+fabsf(h.uv.y-n.h.uv.y)>1e-3f)) violation("mixed-hit","%s: normal or surface coordinates are not those of the hit point (%s)",show(ray).c_str(),when); return; }
    bool sure=false; prog_run(hh,[&]{ sure=robust(in,ray,n); }); if(sure) violation("wrong-hit","%s: the index reports a hit at %.7g, the nearest object is at %.7g (object %zu of %zu, %s)",show(ray).c_str(),d,n.d,(size_t)(std::find(in.begin(),in.end(),n.a)-in.begin()),in.size(),when); return; }
  bool sure=false; prog_run(hh,[&]{ sure=robust(in,ray,n); }); if(sure) violation("missed-hit","%s: the index misses object %zu of %zu at %.7g (%s)",show(ray).c_str(),(size_t)(std::find(in.begin(),in.end(),n.a)-in.begin()),in.size(),n.d,when);
}
}
// ---- C20: any history of additions, builds and queries
SCENARIO("C20",index_history,3){
  Harness hh; Rng r(content_seed()); sched.preempt=false; IndexWorld w; set_fill(1+(u32)r.below(1000)); Layout l; l.mode=(int)wl(7); l.span=r.f(1,12); l.step=Vec3(r.f(0,3),r.below(2)?0.f:r.f(0,3),r.below(2)?0.f:r.f(0,3)); w.span=l.mode==6?50.f:l.mode==3?30.f:l.mode==1?16.f:l.span;
  int big=(int)wl(40); bool masks=wl(3)==2; int total=0; std::string hist; prog_run(hh,[&]{ w.scene=new Scene(); });
  auto add=[&](int k,bool lights){ Outcome o=prog_run(hh,[&]{ for(int i=0;i<k;i++) add_object(w,r,l,lights&&w.lights<_MAX_LIGHTS_,masks); }); if(o.kind!=Outcome::RETURNED) violation("dies","adding objects %s",describe(o).c_str()); total+=k; hist+=(lights?" +L":" +")+std::to_string(k); };
  std::vector<const Asset*> built; auto build=[&]{ Outcome o=prog_run(hh,[&]{ w.scene->k.buildTree(); }); if(o.kind!=Outcome::RETURNED) violation("dies","building the index %s",describe(o).c_str()); built=w.in; if(built.size()>_MAX_ASSETS_) built.resize(_MAX_ASSETS_); hist+=" b"; };
  auto ask=[&](int k){ if(built.empty()) return; for(int i=0;i<k;i++) query(hh,w,built,make_ray(r,w),hist.c_str()); hist+=" q"; };
  int limit=l.mode==2||l.mode==4?24:big==39&&l.mode==3?1500:big>=34?(l.mode==3?300:120):60; if(l.mode==3&&l.step.x<.5f) l.step.x+=.5f;
  if(big==38&&l.mode!=2&&l.mode!=4&&l.mode!=0&&l.mode!=5&&l.mode!=6){ add(_MAX_ASSETS_-1+(int)wl(4),false); if(wl(2)) add(1+(int)wl(5),false); if(w.in.size()>_MAX_ASSETS_) probe("more objects than the index takes"); }
  int steps=1+(int)wl(6); for(int i=0;i<steps;i++){ int room=limit-total; if(room>0) switch(wl(3)){ case 0: add(1+(int)wl(std::min(room,8)),false); break; case 1: add(1+(int)wl(room),false); break; default: add(1+(int)wl(std::min(room,4)),true); } int nb=total>60?(int)wl(2):(int)wl(3); for(int k=0;k<nb;k++) build(); if(nb>1) probe("index rebuilt unchanged"); if(nb) ask(6); }
  build(); ask(30); nontrivial(); sample("layout %d:%s",l.mode,hist.c_str()); probe("objects",total); Outcome o=prog_run(hh,[&]{ delete w.scene; }); if(o.kind!=Outcome::RETURNED) violation("dies","removing the scene %s",describe(o).c_str());
}
// ---- C20: the triangles inside of a mesh
namespace {
std::vector<Triangle> soup(Rng& r,int n,int mode,int uvmode){
  std::vector<Triangle> t; float grow=r.f(1.01f,1.12f),base=r.f(.01f,.5f); Point3 g(r.f(-3,3),r.f(-3,3),r.f(-3,3)); int side=(int)ceilf(sqrtf(n/2.f)); Triangle same;
  for(int i=0;i<n;i++){ Vertex v[3]; Point3 p[3]; 
    switch(mode){
      case 0: { Point3 c(r.f(-3,3),r.f(-3,3),r.f(-3,3)); for(auto&q:p) q=Point3(c.x+r.f(-1,1),c.y+r.f(-1,1),c.z+r.f(-1,1)); break; }
      case 1: { int q=i/2,x=q%side,y=q/side; float z0=sinf(x*.7f)+cosf(y*.5f),z1=sinf((x+1)*.7f)+cosf(y*.5f),z2=sinf(x*.7f)+cosf((y+1)*.5f),z3=sinf((x+1)*.7f)+cosf((y+1)*.5f); Point3 a((float)x,(float)y,z0),b((float)x+1,(float)y,z1),c((float)x,(float)y+1,z2),d((float)x+1,(float)y+1,z3); if(i&1){ p[0]=b; p[1]=d; p[2]=c; } else { p[0]=a; p[1]=b; p[2]=c; } break; }   // a landscape
      case 2: { float k=base*powf(grow,(float)(i%120)); Point3 c(k,(float)(i%3)*.1f*k,0); p[0]=Point3(c.x,c.y,-k*.2f); p[1]=Point3(c.x+k*.2f,c.y,k*.2f); p[2]=Point3(c.x,c.y+k*.2f,k*.1f); break; }   // growing chain
      case 3: p[0]=Point3(-1,-1,0); p[1]=Point3(1,-1,0); p[2]=Point3(0,1,0); break;                                           // all the same
      case 4: { float z=(float)r.below(3); Point3 c((float)r.below(6),(float)r.below(6),z); p[0]=c; p[1]=Point3(c.x+1,c.y,z); p[2]=Point3(c.x,c.y+1,z); break; } // few planes
      case 5: { Point3 c(r.f(-3,3),r.f(-3,3),r.f(-3,3)); if(r.below(3)==0) for(auto&q:p) q=c; else if(r.below(2)){ p[0]=c; p[1]=g; p[2]=Point3((c.x+g.x)/2,(c.y+g.y)/2,(c.z+g.z)/2); } else for(auto&q:p) q=Point3(c.x+r.f(-1,1),c.y+r.f(-1,1),c.z+r.f(-1,1)); break; }   // with degenerate ones
      default: { float k=(float)i*.8f; p[0]=Point3(k,0,0); p[1]=Point3(k+.7f,0,r.f(-.2f,.2f)); p[2]=Point3(k+.2f,1,0); break; } }     // a fence
    Vec3 n0=cross(p[1]-p[0],p[2]-p[0]); if(n0.length()>1e-12f) n0.normalize(); else n0=Vec3(0,0,1);
    static const float U[3][2]={{0,0},{1,0},{1,1}}; for(int k=0;k<3;k++){ v[k].p=p[k]; v[k].n=Normal(n0.x,n0.y,n0.z); v[k].t=uvmode==0?Point2(U[k][0],U[k][1]):Point2(r.f(0,1),r.f(0,1)); } t.push_back(Triangle(v[0],v[1],v[2])); }
  return t;
}
// all its corners are nearly on a line: whether a ray hits it hangs on rounding
bool sliver(const Triangle& t){ Vec3 a=t.b.p-t.a.p,b=t.c.p-t.a.p,c=t.c.p-t.b.p; float e=std::max({a.length(),b.length(),c.length()}); return cross(a,b).length()<1e-3f*e*e; }
}
SCENARIO("C20",mesh_index,2){
  Harness hh; Rng r(content_seed()); sched.preempt=false; set_fill(1+(u32)r.below(1000)); World w; int mode=(int)wl(7); int sz=(int)wl(12); int n=sz<3?1+(int)wl(8):sz<8?1+(int)wl(60):sz<11?1+(int)wl(400):1+(int)wl(3000); std::vector<Triangle> ts=soup(r,n,mode,(int)wl(2));
  std::unique_ptr<Mesh> m; MaskBoolean mask; bool masked=wl(4)==3; int declared=(int)wl(3)==0?n:1+(int)wl(2*n); Outcome o=prog_run(hh,[&]{ if(masked) mask=make_mask(w,r); m.reset(new Mesh(declared)); for(auto&t:ts) m->add_triangle(&t.a,&t.b,&t.c); m->finalize(); }); if(o.kind!=Outcome::RETURNED) violation("dies","building the mesh %s",describe(o).c_str());
  if(m->get_faces_number()!=n) violation("lost-triangle","%d triangles instead of %d",m->get_faces_number(),n); AABB box; prog_run(hh,[&]{ box=m->compute_AABB(); }); nontrivial(); sample("layout %d: %d triangles, %d declared%s",mode,n,declared,masked?", masked":""); if(n>400) probe("meshes of more than 400 triangles");
  for(int q=0;q<40;q++){ const Triangle& tg=ts[r.below(n)]; float a=r.f(0,1),b=r.f(0,1-a); Vec3 p(tg.a.p.x+a*(tg.b.p.x-tg.a.p.x)+b*(tg.c.p.x-tg.a.p.x),tg.a.p.y+a*(tg.b.p.y-tg.a.p.y)+b*(tg.c.p.y-tg.a.p.y),tg.a.p.z+a*(tg.b.p.z-tg.a.p.z)+b*(tg.c.p.z-tg.a.p.z)); Vec3 d; if(r.below(3)==0){ int ax=(int)r.below(3); float sg=r.below(2)?1.f:-1.f; float z1=r.below(2)?0.f:-0.f,z2=r.below(2)?0.f:-0.f; d=Vec3(ax==0?sg:z1,ax==1?sg:ax==0?z1:z2,ax==2?sg:z2); } else d=Vec3(r.f(-1,1),r.f(-1,1),r.f(-1,1)); if(mode==2&&r.below(2)) d=Vec3(r.below(2)?1.f:-1.f,r.f(-.05f,.05f),r.f(-.05f,.05f)); if(d.length()<1e-3f) d=Vec3(0,0,1); d.normalize(); float far=r.below(4)?r.f(.05f,20):r.f(.02f,1); Ray ray(Point3(p.x-d.x*far,p.y-d.y*far,p.z-d.z*far),d);
    bool got=false; float gd=FLT_MAX; HitPoint gh; gh.index=0xffffffffu; o=prog_run(hh,[&]{ got=m->intersect(&ray,&gd,&gh,&mask); }); if(o.kind!=Outcome::RETURNED) violation("dies","a query %s",describe(o).c_str());
    auto all=[&](const Ray& x,int* who){ float best=FLT_MAX; *who=-1; for(int i=0;i<n;i++){ float e=FLT_MAX; HitPoint h; if(ts[i].intersect(&x,&e,&h,&mask)&&e<best){ best=e; *who=i; } } return best; };
    int who; float bd=0; prog_run(hh,[&]{ bd=all(ray,&who); }); hash_mix(who); hash_bytes(&bd,4); if(!got&&who<0) continue; float tol=1e-4f*(1+fabsf(bd)); if(got&&who<0) violation("phantom-hit","%s hits the mesh at %g but none of its %d triangles",show(ray).c_str(),gd,n);
    if(got){ if(gh.index>=(unsigned)n) violation("wrong-face","face %u of %d",gh.index,n); float e=FLT_MAX; HitPoint h; bool again=false; prog_run(hh,[&]{ again=ts[gh.index].intersect(&ray,&e,&h,&mask); }); if(!again||fabsf(e-gd)>tol) violation("wrong-face","%s hits at %.7g the face %u, which is %s",show(ray).c_str(),gd,gh.index,again?"elsewhere":"not hit"); if(dist(h.point_h,gh.point_h)>tol*10||fabsf(h.uv.x-gh.uv.x)+fabsf(h.uv.y-gh.uv.y)>1e-3f) violation("mixed-hit","%s: point or surface coordinates are not those of face %u",show(ray).c_str(),gh.index);
      if(fabsf(gd-bd)<=tol){ probe("hits compared"); continue; } }
    bool sure=who<0||!sliver(ts[who]); prog_run(hh,[&]{ for(int k=0;k<16&&sure;k++){ int x; float e=all(wiggle(ray,k,1e-4f),&x); if(x!=who&&(x<0||fabsf(e-bd)>tol*100)) sure=false; } }); if(sure) violation(got?"wrong-hit":"missed-hit","%s: triangle %d of %d at %.7g is %s",show(ray).c_str(),who,n,bd,got?"hidden by a farther one":"missed");
  }
  prog_run(hh,[&]{ m.reset(); });
}
// ---- C22: shadow tests
SCENARIO("C22",shadow_history,1){
  Harness hh; Rng r(content_seed()); int nt=(int)wl(5); sched.preempt=nt>1; if(nt>1) random_sched(); sched.ncpu=4; IndexWorld w; Layout l; l.mode=(int)wl(7); l.span=r.f(1,8); l.step=Vec3(r.f(0.5f,3),0,0); w.span=l.mode==6?50.f:l.mode==3?30.f:l.mode==1?16.f:l.span; int n=1+(int)wl(wl(2)?6:40); if(l.mode==2||l.mode==4) n=std::min(n,16); bool masks=wl(2); set_fill(1+(u32)r.below(1000));
  Outcome o=prog_run(hh,[&]{ w.scene=new Scene(); for(int i=0;i<n;i++) add_object(w,r,l,r.below(4)==0,masks); w.scene->k.buildTree(); }); if(o.kind!=Outcome::RETURNED) violation("dies","building the scene %s",describe(o).c_str());
  struct Q { Ray ray; float d; bool ans; }; int per=20+(int)wl(40); std::vector<std::vector<Q>> qs(std::max(1,nt)); 
  for(auto&v:qs){ Ray last(Point3(0,0,0),Vec3(0,0,1)); for(int i=0;i<per;i++){ Q q; q.ray=i&&r.below(3)==0?wiggle(last,(int)r.below(16),r.f(0,.3f)):make_ray(r,w); last=q.ray; q.ray.ricochet=(unsigned char)r.below(r.below(2)?1:5); Near nr; prog_run(hh,[&]{ nr=brute(w.in,q.ray); }); 
      // around the objects: just before, just behind, far behind the nearest hit
      switch(nr.a?r.below(7):r.below(2)){ case 0: q.d=r.f(.05f,60); break; case 1: q.d=FLT_MAX; break; case 2: q.d=nr.d*r.f(.3f,.99f); break; case 3: q.d=nr.d*1.02f+.02f; break; case 4: case 5: q.d=nr.d; break; /* as for a light: up to the surface itself */ default: q.d=nr.d*r.f(1.01f,4)+.01f; } q.ans=false; v.push_back(q); } }
  auto work=[&](int k){ OcclusionTester t(w.scene); for(auto&q:qs[k]) q.ans=t.is_occluded(&q.ray,q.d); };
  o=prog_run(hh,[&]{ if(nt<2) work(0); else { std::vector<std::thread> th; for(int k=0;k<nt;k++) th.emplace_back(work,k); for(auto&t:th) t.join(); } }); if(o.kind!=Outcome::RETURNED) violation("dies","shadow tests %s",describe(o).c_str());
  bool oneobject=false; int yes=0,unsure=0; for(size_t k=0;k<qs.size();k++) for(size_t i=0;i<qs[k].size();i++){ Q& q=qs[k][i]; bool fresh=false,any=false,close=false; prog_run(hh,[&]{ OcclusionTester t(w.scene); fresh=t.is_occluded(&q.ray,q.d); });
    auto test=[&](const Ray& x,bool& near){ bool y=false; for(auto a:w.in){ float e=FLT_MAX; HitPoint h; if(a->intersect(&x,&e,&h)){ double pd=dist(h.point_h,x.origin); if(fabs(e+OCCLUSION_INTERSECT_ERROR-q.d)<1e-4*(1+e)+2*fabs(pd-e)) near=true; if(e+OCCLUSION_INTERSECT_ERROR<q.d) y=true; } } return y; };
    prog_run(hh,[&]{ any=test(q.ray,close); for(int j=0;j<16&&!close;j++) if(test(wiggle(q.ray,j,1e-4f),close)!=any) close=true; }); yes+=any; if(q.ans==any&&fresh==any) continue; if(close){ unsure++; continue; }
    if(q.ans!=any) violation("wrong-shadow","%s up to %.7g after %zu shadow tests of thread %zu: %s, testing every object says the contrary (a new tester says %s)",show(q.ray).c_str(),q.d,i,k,q.ans?"occluded":"free",fresh?"occluded":"free"); violation("wrong-shadow","%s up to %.7g: a new tester says %s, testing every object says the contrary",show(q.ray).c_str(),q.d,fresh?"occluded":"free"); }
  (void)oneobject; if(yes) nontrivial(); probe("shadow tests",per*qs.size()); probe("occluded",yes); if(unsure) probe("grazing, not judged",unsure); if(nt>1) probe("threads",nt); sample("layout %d: %d objects, %d lights, %d tests by %d threads",l.mode,w.objects,w.lights,per,std::max(1,nt)); prog_run(hh,[&]{ delete w.scene; });
}
// ---- C21: the libraries
namespace {
struct Life { int born=0,dead=0; }; std::map<const void*,Life*> g_life;
struct CTexture: public Texture { Life* l; CTexture(Life* l):l(l){ l->born++; } ~CTexture(){ l->dead++; } Spectrum map(const HitPoint*) const override { return SPECTRUM_ONE; } };
struct CTexImage: public TextureImage { Life* l; CTexImage(Life* l,const ImageMap* m,Vec2& a,Vec2& b):TextureImage(m,a,b,true),l(l){ l->born++; } ~CTexImage(){ l->dead++; } };
struct CMap: public ImageMapUnfiltered { Life* l; CMap(Life* l,const pixBGRA* v,uint16_t side):ImageMapUnfiltered(v,side),l(l){ l->born++; } ~CMap(){ l->dead++; } };
struct CMat: public SingleBRDF { Life* l; CMat(Life* l):SingleBRDF(new Lambertian()),l(l){ l->born++; } ~CMat(){ l->dead++; } };
}
SCENARIO("C21",library_history,1){
  Harness hh; Rng r(content_seed()); sched.preempt=false; set_fill(1+(u32)r.below(1000)); random_bufsize(); std::vector<std::unique_ptr<Life>> lives; auto life=[&]{ lives.emplace_back(new Life()); return lives.back().get(); };
  // image files
  struct F { std::string path,ext; Pic pix; bool good; }; std::vector<F> files; static const char* FN[]={"/t/a","/t/b","/u/a","/t/sub/c"}; for(int i=0;i<4;i++){ F f; f.ext=EXTS[r.below(EXTS.size())]; if(f.ext.compare(0,3,"tif")==0) f.ext="bmp"; f.path=std::string(FN[i])+"."+f.ext; int side=1<<r.below(4); File8 e=encode_any(f.ext,r,side,side,(int)r.below(3)); f.pix=e.pix; f.good=r.below(4)!=0; if(!f.good) e.data=e.data.substr(0,r.below(8)); fs::mkdirs(path_dir(f.path)); fs::put(f.path,e.data); files.push_back(f); }
  prog_run(hh,[&]{ for(auto&f:files) if(f.good){ std::vector<u32> b(f.pix.w*f.pix.h); int w=0,h=0; if(img_dimensions(f.path.c_str(),f.ext.c_str(),&w,&h)&&w==f.pix.w&&h==f.pix.h&&img_read8(f.path.c_str(),f.ext.c_str(),b.data())) f.pix.v=b; else f.good=false; } });
  struct T { const TextureImage* p; Life* l; const ImageMap* map; int file; }; struct M { const ImageMap* p; Life* l; int file; }; struct B { const Bsdf* p; Life* l; };
  std::map<std::string,T> tex; std::map<std::string,M> maps; std::map<std::string,B> mats; std::vector<Life*> unnamed; std::set<Life*> mine; std::vector<std::function<void()>> cleanup; 
  static const char* N[]={"one","two","three","/t/a.png","Default",""}; auto name=[&]{ return std::string(N[r.below(6)]); }; std::string hist; Vec2 sh(0.f),sc(1.f); const ImageMap* dmap=nullptr; const TextureImage* dteximg=nullptr; const Texture* dtex=nullptr; const Bsdf* dmat=nullptr; prog_run(hh,[&]{ dmap=TexLib.get_dflt_map(); dteximg=TexLib.get_dflt_teximage(); dtex=TexLib.get_dflt_texture(); dmat=MtlLib.get_default(); });
  auto bad=[&](const char* c,const std::string& what){ violation(c,"%s after:%s",what.c_str(),hist.c_str()); };
  auto used=[&](const ImageMap* m){ for(auto&t:tex) if(t.second.map==m) return true; return false; };
  auto shows=[&](const TextureImage* t,const F* f){ bool ok=true; prog_run(hh,[&]{ HitPoint h; h.differentials=false; int w=f?f->pix.w:2,hh2=f?f->pix.h:2; for(int k=0;k<4&&ok;k++){ int x=(int)r.below(w),y=(int)r.below(hh2); h.uv=Point2((x+.5f)/w,(y+.5f)/hh2); u32 got=t->map_value(&h).bgra_value,want=f?f->pix.v[(size_t)y*w+x]:0xFFFFFFFFu; for(int c=0;c<4;c++) if(abs(chan(got,c)-chan(want,c))>1) ok=false; } }); return ok; };
  int steps=8+(int)wl(40); for(int st=0;st<steps;st++){
    int op=(int)wl(14); std::string n=name(); Outcome o; u64 mark=err_mark(); (void)mark;
    switch(op){
      case 0: case 1: case 2: { // a texture from a file
        int k=(int)r.below(4); F& f=files[k]; bool known=maps.count(f.path)>0; fs::clear_log(); bool faulty=wl(3)==2; std::string fm; u64 f0=faults_fired(); if(faulty) fm=pick_faults(false).name; TextureImage* t=nullptr; o=prog_run(hh,[&]{ t=new TextureImage(File(f.path.c_str()),sh,sc,UNFILTERED); }); heal(); bool fired=faults_fired()>f0; hist+=" load("+f.path+(faulty?","+fm:"")+")"; if(o.kind!=Outcome::RETURNED) bad("dies","loading "+describe(o));
        int opens=0; for(auto&e:fs::log()) if(e.op==OP_OPEN&&e.path==f.path) opens++; bool loaded=false; const ImageMap* m=nullptr; prog_run(hh,[&]{ loaded=t->is_loaded(); m=TexLib.get_map(f.path); });
        if(known&&opens) bad("decoded-again",f.path+" was opened although it is registered"); if(known&&m!=maps[f.path].p) bad("replaced","the image registered for "+f.path+" changed"); 
        if(!known){ if(loaded&&!m) bad("not-registered",f.path+" was loaded but is not registered"); if(!loaded&&m) bad("registered","the failed image "+f.path+" is registered"); if(!fired&&loaded!=f.good) bad("wrong-load",f.path+(f.good?" is healthy but was not loaded":" is damaged but was loaded")); if(m) maps[f.path]=M{m,nullptr,k}; if(!loaded) probe("failed loads"); }
        else if(maps[f.path].file>=0&&!loaded) bad("wrong-load",f.path+" is registered but was not used"); 
        if(maps.count(f.path)&&maps[f.path].file<0){ } else if(!shows(t,loaded?&f:nullptr)) bad("wrong-texture",f.path+" does not show "+(loaded?"its pixels":"the default"));
        bool has=tex.count(n)>0; if(n=="Default"||has||r.below(3)==0){ if(has&&r.below(2)){ /* the name is taken: the one registered first stays */ prog_run(hh,[&]{ TexLib.inherit_texture(n,t); }); hist+=" again("+n+")"; probe("names registered twice"); } cleanup.push_back([t]{ delete t; }); if(m){ tex["\1"+std::to_string(st)]=T{t,nullptr,m,maps[f.path].file<0?-1:k}; } }
        else { prog_run(hh,[&]{ TexLib.inherit_texture(n,t); }); tex[n]=T{t,nullptr,loaded?(m?m:maps[f.path].p):dmap,maps.count(f.path)&&maps[f.path].file<0?-1:k}; hist+=" as("+n+")"; } break; }
      case 3: { if(tex.count(n)) break; Life* l=life(); const ImageMap* base=nullptr; int file=-1; if(!maps.empty()&&r.below(2)){ auto it=maps.begin(); std::advance(it,r.below(maps.size())); base=it->second.p; file=it->second.file; } else base=dmap; CTexImage* t=nullptr; prog_run(hh,[&]{ t=new CTexImage(l,base,sh,sc); TexLib.inherit_texture(n,t); }); tex[n]=T{t,l,base,file}; hist+=" texture("+n+")"; break; }
      case 4: { Life* l=life(); prog_run(hh,[&]{ TexLib.inherit_texture(new CTexture(l)); }); unnamed.push_back(l); hist+=" unnamed"; break; }
      case 5: { std::string p=r.below(2)?files[r.below(4)].path:n; if(maps.count(p)) break; Life* l=life(); u32 px=(u32)r.next(); CMap* m=nullptr; prog_run(hh,[&]{ m=new CMap(l,&px,1); TexLib.inherit_map(p,m); }); maps[p]=M{m,l,-1}; hist+=" map("+p+")"; break; }
      case 6: { auto it=tex.find(n); Life* l=it==tex.end()?nullptr:it->second.l; prog_run(hh,[&]{ TexLib.erase_texture(n); }); hist+=" -texture("+n+")"; if(it!=tex.end()) tex.erase(it); if(l&&l->dead!=1) bad("not-freed","the erased texture "+n+" was destroyed "+std::to_string(l->dead)+" times"); break; }
      case 7: { std::string p=r.below(2)?files[r.below(4)].path:n; auto it=maps.find(p); if(it!=maps.end()&&used(it->second.p)) break; Life* l=it==maps.end()?nullptr:it->second.l; prog_run(hh,[&]{ TexLib.erase_map(p); }); hist+=" -map("+p+")"; if(it!=maps.end()) maps.erase(it); if(l&&l->dead!=1) bad("not-freed","the erased image "+p+" was destroyed "+std::to_string(l->dead)+" times"); break; }
      case 8: case 9: { bool again=mats.count(n)||n=="Default"; Life* l=life(); CMat* m=nullptr; prog_run(hh,[&]{ m=new CMat(l); MtlLib.add_inherit(n,m); }); hist+=" material("+n+")"; if(again){ mine.insert(l); cleanup.push_back([m]{ delete m; }); probe("names registered twice"); } else mats[n]=B{m,l}; break; }
      case 10: { auto it=mats.find(n); Life* l=it==mats.end()?nullptr:it->second.l; prog_run(hh,[&]{ MtlLib.erase(n); }); hist+=" -material("+n+")"; if(it!=mats.end()) mats.erase(it); if(l&&l->dead!=1) bad("not-freed","the erased material "+n+" was destroyed "+std::to_string(l->dead)+" times"); break; }
      case 11: if(wl(3)==2){ std::vector<Life*> l; for(auto&x:mats) l.push_back(x.second.l); prog_run(hh,[&]{ MtlLib.clear(); }); hist+=" clear-materials"; mats.clear(); for(auto x:l) if(x->dead!=1) bad("not-freed","a material was destroyed "+std::to_string(x->dead)+" times"); } break;
      case 12: if(wl(3)==2){ // textures still held by the harness go first
          prog_run(hh,[&]{ for(auto&c:cleanup) c(); }); cleanup.clear(); for(auto x:mine) if(x->dead!=1) bad("double-free","an object that never belonged to a library was destroyed"); mine.clear(); std::vector<Life*> l(unnamed); for(auto&x:tex) if(x.second.l) l.push_back(x.second.l); for(auto&x:maps) if(x.second.l) l.push_back(x.second.l); prog_run(hh,[&]{ TexLib.clear(); }); hist+=" clear-textures"; tex.clear(); maps.clear(); unnamed.clear(); for(auto x:l) if(x->dead!=1) bad("not-freed","something was destroyed "+std::to_string(x->dead)+" times"); } break;
      default: break; }
    // everything agrees with the model
    std::vector<const char*> NN(N,N+6); for(int i=5;i>0;i--) std::swap(NN[i],NN[r.below(i+1)]); if(r.below(2)) NN.resize(1+r.below(6)); if(st==steps-1) NN.assign(N,N+6);
    for(auto x:NN){ std::string q=x; const TextureImage* t=nullptr; const Bsdf* b=nullptr; bool ct=false,cb=false; prog_run(hh,[&]{ t=TexLib.get_texture(q); ct=TexLib.contains_texture(q); b=MtlLib.get(q); cb=MtlLib.contains(q); }); auto it=tex.find(q); if(t!=(it==tex.end()?nullptr:it->second.p)||ct!=(it!=tex.end())) bad("wrong-lookup","texture \""+q+"\" is not the one registered"); auto ib=mats.find(q); const Bsdf* wb=q=="Default"?dmat:ib==mats.end()?nullptr:ib->second.p; if(b!=wb||cb!=(wb!=nullptr)) bad("wrong-lookup","material \""+q+"\" is not the one registered"); }
    std::set<std::string> ps; for(auto&f:files) ps.insert(f.path); for(auto x:N) ps.insert(x); for(auto&q:ps){ const ImageMap* m=nullptr; bool c=false; prog_run(hh,[&]{ m=TexLib.get_map(q); c=TexLib.contains_map(q); }); auto it=maps.find(q); if(m!=(it==maps.end()?nullptr:it->second.p)||c!=(it!=maps.end())) bad("wrong-lookup","image \""+q+"\" is not the one registered"); }
    const ImageMap* a=nullptr; const TextureImage* b=nullptr; const Texture* c=nullptr; const Bsdf* d=nullptr; prog_run(hh,[&]{ a=TexLib.get_dflt_map(); b=TexLib.get_dflt_teximage(); c=TexLib.get_dflt_texture(); d=MtlLib.get_default(); }); if(a!=dmap||b!=dteximg||c!=dtex||d!=dmat) bad("wrong-default","a default object changed"); if(!shows(dteximg,nullptr)) bad("wrong-default","the default texture is not white");
    for(auto&t:tex){ if(t.second.l&&t.second.l->dead) bad("use-after-free","texture \""+t.first+"\" was destroyed while registered"); if(t.second.file>=0&&t.second.map!=dmap&&!shows(t.second.p,&files[t.second.file])) bad("wrong-texture","texture \""+t.first+"\" does not show the pixels of "+files[t.second.file].path); } for(auto&x:maps) if(x.second.l&&x.second.l->dead) bad("use-after-free","image \""+x.first+"\" was destroyed while registered"); for(auto&x:mats) if(x.second.l->dead) bad("use-after-free","material \""+x.first+"\" was destroyed while registered"); for(auto x:unnamed) if(x->dead) bad("use-after-free","an unnamed texture was destroyed while registered");
    for(auto x:mine) if(x->dead) bad("double-free","a rejected material was destroyed by the library");
  }
  int h=fs::open_handles(); if(h) bad("handle-leak","files left open"); nontrivial(); sample("%d operations:%.300s",steps,hist.c_str()); probe("operations",steps); Outcome o=prog_run(hh,[&]{ for(auto&c:cleanup) c(); TexLib.clear(); MtlLib.clear(); }); if(o.kind!=Outcome::RETURNED) bad("dies","clearing the libraries "+describe(o));
}
// ---- C19: folders
namespace { std::string up(const std::string& p){ std::string d=path_dir(p); return d.empty()?"/":d; } bool under_file(std::string p){ while((p=up(p))!="/") if(fs::exists(p)&&!fs::is_dir(p)) return true; return false; } }
SCENARIO("C19",folder_creation,2){
  Harness hh; Rng r(content_seed()); sched.preempt=false; static const char* NM[]={"a","b","folder","with space","x.y","..hidden","a.b.c"}; auto nm=[&]{ return std::string(NM[r.below(7)])+(r.below(3)?"":std::to_string(r.below(3))); };
  fs::mkdirs("/w"); int depth=1+(int)r.below(6); std::vector<std::string> comp; for(int i=0;i<depth;i++) comp.push_back(nm()); int have=(int)wl(depth+2); std::string base="/w"; std::vector<std::string> chain; { std::string p=base; for(auto&c:comp){ p+="/"+c; chain.push_back(p); } }
  for(int i=0;i<have&&i<depth;i++) fs::mkdirs(chain[i]); int spoil=(int)wl(6); if(spoil==4&&have<depth){ fs::put(chain[have],"file"); } else if(spoil==5&&have>0) fs::chmod(have<=depth?chain[std::min(have,depth)-1]:"/w",r.below(2)?0555:0); fs::put("/w/other","x"); fs::mkdirs("/w/otherdir/in"); fs::set_cwd("/w");
  std::string target=chain.back(),given=target; switch(wl(4)){ case 1: given=target.substr(3); break; case 2: given="./"+target.substr(3); break; case 3: { size_t k=3; given="/w//"+target.substr(k)+"/"; break; } default: break; } if(wl(20)==19){ given="/"; target="/"; }
  // others change the tree meanwhile
  struct Ch { u64 at; int kind; std::string path; }; auto plan=std::make_shared<std::vector<Ch>>(); int nch=wl(3)==2?1+(int)wl(3):0; for(int i=0;i<nch;i++){ Ch c; c.at=1+wl(2*depth+3); c.kind=(int)wl(4); c.path=chain[r.below(depth)]; plan->push_back(c); } auto base_ops=std::make_shared<u64>(0); auto made=std::make_shared<std::vector<std::string>>(); auto locked=std::make_shared<bool>(false); auto rough=std::make_shared<bool>(false); auto others=std::make_shared<std::set<std::string>>();
  random_bufsize(); bool faulty=wl(3)==2; std::string fm="healthy"; bool one=wl(3)==2; std::string what=one?"mkdir":"mkdirs"; 
  bool res=false; auto snap=snapshot(); std::string absb,absa; bool isf=false; u64 fired0=faults_fired(); u64 err0=fs::log().size(); Outcome o;
  std::unique_ptr<File> f; o=prog_run(hh,[&]{ f.reset(new File(given.c_str())); }); if(o.kind!=Outcome::RETURNED) violation("dies","File(\"%s\") %s",given.c_str(),describe(o).c_str()); absb=f->absolute_path(); if(absb!=target) violation("wrong-path","\"%s\" in /w became \"%s\"",given.c_str(),absb.c_str());
  if(faulty) fm=pick_faults(false).name, faults.permille[OP_REALPATH]=0; *base_ops=fs::ops(); size_t logat=fs::log().size(); int changes=0; int* chp=&changes; if(nch) fs::on_op([plan,base_ops,others,chp,locked,rough](Op,const std::string&){ for(auto&c:*plan) if(c.at&&fs::ops()>=*base_ops+c.at){ c.at=0; (*chp)++; bool f=faults.on; faults.on=false; if(c.kind) *rough=true; switch(c.kind){ case 0: if(!fs::exists(c.path)&&!under_file(c.path)){ fs::mkdirs(c.path); others->insert(c.path); } break; case 1: fs::remove(c.path); others->insert(c.path); break; case 2: if(!fs::exists(c.path)&&fs::is_dir(path_dir(c.path))){ fs::put(c.path,"late"); others->insert(c.path); } break; default: fs::chmod(c.path,0); *locked=true; break; } faults.on=f; } });
  o=prog_run(hh,[&]{ res=one?f->mkdir():f->mkdirs(); }); fs::on_op(nullptr); bool fired=faults_fired()>fired0; heal(); if(o.kind!=Outcome::RETURNED) violation("dies","%s(\"%s\") %s",what.c_str(),given.c_str(),describe(o).c_str());
  absa=f->absolute_path(); prog_run(hh,[&]{ isf=f->is_folder(); }); if(absa!=absb) violation("wrong-path","the path changed from %s to %s by creating it",absb.c_str(),absa.c_str());
  std::set<std::string> created; for(size_t i=logat;i<fs::log().size();i++){ auto&e=fs::log()[i]; if(e.op==OP_MKDIR&&e.err==0) created.insert(e.path); } bool there=fs::is_dir(target);
  // nothing but folders on the path
  std::set<std::string> onpath(chain.begin(),chain.end()); for(auto&c:created) if(!onpath.count(c)) violation("stray-folder","%s(\"%s\") created %s",what.c_str(),given.c_str(),c.c_str()); if(one) for(auto&c:created) if(c!=target) violation("stray-folder","mkdir(\"%s\") created %s",given.c_str(),c.c_str());
  if(!nch){ auto b=snapshot(); for(auto&x:snap) if(!b.count(x.first)||b[x.first]!=x.second) violation("other-file","%s changed or vanished",x.first.c_str()); for(auto&x:b) if(!snap.count(x.first)){ std::string p=x.first; if(!p.empty()&&p.back()=='/') p.pop_back(); if(!created.count(p)) violation("other-file","%s appeared",p.c_str()); } }
  char ctx[500]; snprintf(ctx,500,"%s(\"%s\"), %d of %d present, spoil %d, %d changes by others, %s",what.c_str(),given.c_str(),std::min(have,depth),depth,spoil,changes,fm.c_str()); sample("%s -> %d",ctx,res); if(fired||changes||spoil>=4) nontrivial(); probe(res?"reported created":"reported not created");
  bool truth=!created.empty()&&there; if(*rough) return;   // whatever was answered could have been made wrong right afterwards
  if(res&&created.empty()) violation("false-success","%s: reports creation but nothing was created",ctx); if(res&&!there) violation("false-success","%s: reports success but %s is not a folder",ctx,target.c_str()); 
  if(!res&&truth&&!fired&&changes<2) violation("false-failure","%s: %zu folders were created and the path exists, but failure is reported",ctx,created.size());
  if(!fired&&!changes&&!one&&!there){ /* the whole path could be made? */ int k=0; while(k<depth&&fs::is_dir(chain[k])) k++; std::string last=k?chain[k-1]:"/w"; bool blocked=fs::exists(chain[k]); if(!blocked&&spoil!=5) violation("gave-up","%s: %s was not created although nothing prevents it",ctx,chain[k].c_str()); }
  if(!fired&&spoil!=5&&!*locked&&isf!=there) violation("stale-answer","%s: is_folder() says %d afterwards",ctx,isf);
  if(fs::open_handles()) violation("handle-leak","%s: %d handles left open",ctx,fs::open_handles());
  // again on healthy storage
  bool res2=false; size_t l2=fs::log().size(); o=prog_run(hh,[&]{ res2=f->mkdirs(); }); std::set<std::string> c2; for(size_t i=l2;i<fs::log().size();i++){ auto&e=fs::log()[i]; if(e.op==OP_MKDIR&&e.err==0) c2.insert(e.path); } bool t2=fs::is_dir(target); if(o.kind!=Outcome::RETURNED||res2!=(!c2.empty()&&t2)) violation("false-report","%s, then mkdirs again: reports %d, %zu folders created, folder: %d",ctx,res2,c2.size(),t2);
  prog_run(hh,[&]{ f.reset(); });
}
SCENARIO("C19",folder_listing,1){
  Harness hh; Rng r(content_seed()); sched.preempt=false; static const char* D[]={"/","/w","/w/deep/er","/w/a b","/w/long"}; std::string dir=D[r.below(5)]; if(dir=="/w/long"){ while(dir.size()<200+r.below(600)) dir+="/"+std::string(20+r.below(200),'d'); } if(dir!="/") fs::mkdirs(dir); fs::mkdirs("/w"); fs::set_cwd("/w"); auto join=[&](const std::string& n){ return dir=="/"?"/"+n:dir+"/"+n; };
  std::set<std::string> names; int n=(int)wl(wl(3)?12:80); for(int i=0;i<n;i++){ std::string s; switch(r.below(7)){ case 0: s="."+std::string(1+r.below(3),'h')+std::to_string(i); break; case 1: s="...";  break; case 2: s=std::string(1+r.below(255),'n'); break; case 3: s="file "+std::to_string(i)+".txt"; break; case 4: s=std::string(200+r.below(56),(char)('a'+i%26)); break; case 5: s="..x"+std::to_string(i); break; default: s="f"+std::to_string(i); } names.insert(s); if(r.below(3)==0) fs::mkdirs(join(s)); else fs::put(join(s),"x"); }
  int special=(int)wl(8); std::string path=dir; bool listable=true; if(special==5&&dir!="/"){ fs::chmod(dir,0); listable=false; } else if(special==6){ path=join("missing"); listable=names.count("missing")>0; } else if(special==7&&n){ for(auto&s:names) if(!fs::is_dir(join(s))){ path=join(s); listable=false; break; } }
  std::set<std::string> at_start; { for(auto&p:fs::list_all()){ std::string q=p; if(q.size()>1&&q.back()=='/') q.pop_back(); if(q!="/"&&up(q)==path) at_start.insert(q); } }
  auto changed=std::make_shared<std::set<std::string>>(); auto at=std::make_shared<u64>(0); int nch=wl(4)==3?1+(int)wl(3):0; std::vector<std::pair<u64,std::string>> pl; for(int i=0;i<nch;i++) pl.push_back({1+wl(n+2),r.below(2)&&!at_start.empty()?*std::next(at_start.begin(),r.below(at_start.size())):path+(path=="/"?"":"/")+"new"+std::to_string(i)}); auto plan=std::make_shared<std::vector<std::pair<u64,std::string>>>(pl); 
  std::vector<File> v; bool before=r.below(4)==0; if(before) prog_run(hh,[&]{ v.emplace_back("/w/kept"); }); std::unique_ptr<File> f; prog_run(hh,[&]{ f.reset(new File(path.c_str())); }); auto snap=snapshot(); bool faulty=wl(3)==2; std::string fm="healthy"; u64 f0=faults_fired(); if(faulty) fm=pick_faults(false).name, faults.permille[OP_REALPATH]=0; if(faulty&&wl(2)) faults.permille[wl(2)?OP_READDIR:OP_OPENDIR]=(int)wl(1000); *at=fs::ops();
  if(nch) fs::on_op([plan,at,changed](Op,const std::string&){ for(auto&c:*plan) if(c.first&&fs::ops()>=*at+c.first){ c.first=0; bool f=faults.on; faults.on=false; if(fs::exists(c.second)) fs::remove(c.second); else if(fs::is_dir(up(c.second))) fs::put(c.second,"late"); changed->insert(c.second); faults.on=f; } });
  size_t logat=fs::log().size(); bool res=false; Outcome o=prog_run(hh,[&]{ res=f->ls(&v); }); fs::on_op(nullptr); heal(); bool fired=faults_fired()>f0; if(o.kind!=Outcome::RETURNED) violation("dies","ls(%s) %s",path.c_str(),describe(o).c_str()); bool dirfault=false; for(size_t i=logat;i<fs::log().size();i++){ auto&e=fs::log()[i]; if((e.op==OP_OPENDIR||e.op==OP_READDIR)&&e.err) dirfault=true; }
  if(fs::open_handles()) violation("handle-leak","ls(%.200s) leaves %d handles open",path.c_str(),fs::open_handles()); if(before&&(v.empty()||strcmp(v[0].absolute_path(),"/w/kept"))) violation("lost-entry","what was in the vector before is gone"); 
  std::set<std::string> seen; for(size_t i=before;i<v.size();i++){ std::string p=v[i].absolute_path(); if(!seen.insert(p).second) violation("listed-twice","%s is listed twice in %.200s",p.c_str(),path.c_str()); if(!at_start.count(p)&&!changed->count(p)) violation("phantom-entry","%s is listed but is not in %.200s",p.c_str(),path.c_str()); std::string fn=v[i].filename(); if(up(p)!=path||(path=="/"?"/"+fn:path+"/"+fn)!=p) violation("wrong-name","%s has the name %s",p.c_str(),fn.c_str()); bool d=false,g=false; prog_run(hh,[&]{ d=v[i].is_folder(); g=v[i].is_file(); }); if(!fired&&!changed->count(p)&&(special!=5)&&(d!=fs::is_dir(p)||g==d)) violation("wrong-kind","%s: is_folder() says %d",p.c_str(),d); }
  if(res){ if(dirfault) violation("hidden-failure","ls(%.200s) reports success although the folder could not be read",path.c_str()); if(!listable) violation("hidden-failure","ls(%.200s) reports success",path.c_str()); for(auto&p:at_start) if(!seen.count(p)&&!changed->count(p)) violation("lost-entry","%s is not listed",p.c_str()); probe("complete listings"); } else { if(!dirfault&&listable&&!fired&&changed->empty()) violation("false-failure","ls(%.200s) fails on healthy storage",path.c_str()); probe("failed listings"); }
  if(changed->empty()) only_changed(snap,"","by listing"); nontrivial(); sample("ls(%.100s): %zu entries, special %d, %zu changes by others, %s -> %d",path.c_str(),at_start.size(),special,changed->size(),fm.c_str(),res); prog_run(hh,[&]{ f.reset(); v.clear(); });
}
SCENARIO("C19",folder_queries,1){ // what a File answers through copies, assignments, parents and appends follows the disk
  Harness hh; Rng r(content_seed()); sched.preempt=false; fs::mkdirs("/w/d/e/f"); fs::put("/w/d/x.txt","1"); fs::put("/w/d/e/.hid","1"); fs::put("/w/y","1"); fs::put("/top.png","1"); fs::mkdirs("/w/dir.ext"); fs::put("/w/d/e/noread","1",0222); fs::put("/w/d/e/nowrite","1",0444); fs::set_cwd(r.below(2)?"/w/d":"/");
  static const char* P[]={"/","/w","/w/d","/w/d/e/f","/w/d/x.txt","/w/y","/top.png","/w/dir.ext","/w/d/missing","/w/d/e/.hid","/gone/a.b/c","/w/d/e/noread","/w/d/e/nowrite"}; static const char* A[]={"x.txt","../y","./e/f/..","f","missing/..","../../..","e//./f","d/e/.hid",".."};
  auto norm=[](const std::string& p){ std::vector<std::string> v; std::string c; for(char ch:p+"/"){ if(ch=='/'){ if(c==".."){ if(!v.empty()) v.pop_back(); } else if(!c.empty()&&c!=".") v.push_back(c); c.clear(); } else c+=ch; } std::string q; for(auto&x:v) q+="/"+x; return q.empty()?std::string("/"):q; };
  struct E { std::unique_ptr<File> f; std::string p; bool parent=false; bool dir=false,reg=false; }; std::vector<E> es; std::string hist; auto refresh=[&](E& e){ e.dir=fs::is_dir(e.p); std::string d; e.reg=!e.dir&&fs::exists(e.p); };
  auto fresh=[&](const std::string& p){ E e; e.p=p; prog_run(hh,[&]{ e.f.reset(new File(p.c_str())); }); refresh(e); es.push_back(std::move(e)); hist+=" new("+p+")"; }; fresh(P[r.below(13)]); int steps=5+(int)wl(25);
  for(int s=0;s<steps;s++){ size_t k=r.below(es.size()),j=r.below(es.size()); Outcome o; switch(wl(8)){
      case 0: fresh(P[r.below(13)]); break;
      case 1: { E e; prog_run(hh,[&]{ e.f.reset(new File(*es[k].f)); }); e.p=es[k].p; e.parent=es[k].parent; e.dir=es[k].dir; e.reg=es[k].reg; es.push_back(std::move(e)); hist+=" copy"; break; }
      case 2: prog_run(hh,[&]{ *es[k].f=*es[j].f; }); es[k].p=es[j].p; es[k].parent=es[j].parent; es[k].dir=es[j].dir; es[k].reg=es[j].reg; hist+=" assign"; break;
      case 3: { E e; prog_run(hh,[&]{ e.f.reset(new File(es[k].f->get_parent())); }); e.p=es[k].p=="/"?"/":up(es[k].p); e.parent=true; if(es[k].p=="/"){ e.dir=es[k].dir; e.reg=es[k].reg; } else refresh(e); es.push_back(std::move(e)); hist+=" parent("+es[k].p+")"; break; }
      case 4: { std::string a=A[r.below(9)]; prog_run(hh,[&]{ es[k].f->append(a.c_str()); }); hist+=" append("+es[k].p+","+a+")"; es[k].p=norm(es[k].p+"/"+a); es[k].parent=false; refresh(es[k]); break; }
      case 5: { bool d=false; size_t la=fs::log().size(); prog_run(hh,[&]{ d=es[k].f->mkdir(); }); bool did=false; for(size_t i=la;i<fs::log().size();i++) if(fs::log()[i].op==OP_MKDIR&&!fs::log()[i].err) did=true; if(d!=did) violation("false-report","mkdir(%s) reports %d",es[k].p.c_str(),d); refresh(es[k]); hist+=" mkdir("+es[k].p+")"; break; }
      case 6: { std::string p=P[1+r.below(10)]; if(fs::exists(p)&&!fs::is_dir(p)) fs::remove(p); else if(!fs::exists(p)&&fs::is_dir(up(p))) fs::put(p,"1"); hist+=" other("+p+")"; break; }
      default: if(es.size()>1){ prog_run(hh,[&]{ es[k].f.reset(); }); es.erase(es.begin()+k); hist+=" drop"; } break; }
    for(auto&e:es){ std::string p=e.f->absolute_path(),fn=e.f->filename(),ex=e.f->extension(); std::string wf=e.p=="/"?"/":e.p.substr(e.p.rfind('/')+1); size_t dot=wf.rfind('.'); std::string we=dot==std::string::npos||dot==0?"":wf.substr(dot+1); if(p!=e.p) violation("wrong-path","\"%s\" instead of \"%s\" after%s",p.c_str(),e.p.c_str(),hist.c_str()); if(fn!=wf) violation("wrong-name","\"%s\" is the name of %s after%s",fn.c_str(),p.c_str(),hist.c_str()); if(ex!=we&&!(e.parent&&ex.empty())) violation("wrong-name","\"%s\" is the extension of %s after%s",ex.c_str(),p.c_str(),hist.c_str());
      bool d=false,g=false,x=false; prog_run(hh,[&]{ d=e.f->is_folder(); g=e.f->is_file(); x=e.f->exists(); }); if(x!=fs::exists(e.p)) violation("wrong-answer","exists() of %s says %d after%s",p.c_str(),x,hist.c_str()); bool nd=fs::is_dir(e.p),ng=!nd&&fs::exists(e.p); if((d!=e.dir&&d!=nd)||(g!=e.reg&&g!=ng)) violation("wrong-answer","%s: folder %d, file %d after%s",p.c_str(),d,g,hist.c_str()); } }
  nontrivial(); sample("%.300s",hist.c_str()); probe("operations",steps); prog_run(hh,[&]{ es.clear(); });
}
