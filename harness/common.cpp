#include "common.hpp"
namespace hx {
Img decode_ppm(const std::string& d){
  Img im; size_t i=0; auto tok=[&]()->std::string{ for(;;){ while(i<d.size()&&isspace((u8)d[i])) i++; if(i<d.size()&&d[i]=='#'){ while(i<d.size()&&d[i]!='\n') i++; } else break; } std::string t; while(i<d.size()&&!isspace((u8)d[i])) t+=d[i++]; return t; };
  std::string m=tok(); if(m!="P6"){ im.why="bad magic"; return im; } im.w=atoi(tok().c_str()); im.h=atoi(tok().c_str()); if(tok()!="255"){ im.why="bad max value"; return im; } i++;
  if(im.w<0||im.h<0||d.size()<i+(size_t)im.w*im.h*3){ im.why="short file"; return im; } if(d.size()!=i+(size_t)im.w*im.h*3){ im.why="trailing data"; return im; }
  im.rgb.assign(d.begin()+i,d.end()); im.ok=true; return im;
}
std::string path_dir(const std::string& p){ size_t k=p.rfind('/'); return k==std::string::npos?"":p.substr(0,k); }
std::vector<std::string> lines(const std::string& s,const char* seps){ std::vector<std::string> v; std::string c; for(char ch:s){ if(strchr(seps,ch)){ v.push_back(c); c.clear(); } else c+=ch; } if(!c.empty()) v.push_back(c); return v; }
std::string describe(const Outcome& o){ char b[256]; static const char* k[]={"returned","exited","aborted","threw"}; snprintf(b,256,"%s (code %d%s%s)",k[o.kind],o.code,o.what.empty()?"":", ",o.what.c_str()); return b; }

World::~World(){ }
Spectrum rnd_spectrum(Rng& r,float lo,float hi){ return Spectrum(ColorRGB(r.f(lo,hi),r.f(lo,hi),r.f(lo,hi)),false); }
Matrix4 make_transform(Rng& r,float spread){
  Matrix4 t,s,a,b,c; t.set_translation(Vec3(r.f(-spread,spread),r.f(-spread,spread),r.f(-spread,spread)));
  if(r.below(2)) s.set_scale(r.f(0.3f,1.5f)); else s.set_scale(Vec3(r.f(0.3f,1.5f),r.f(0.3f,1.5f),r.f(0.3f,1.5f)));
  a.set_rotate_x(r.f(0,6.28f)); b.set_rotate_y(r.f(0,6.28f)); c.set_rotate_z(r.f(0,6.28f));
  if(r.below(4)==0) return t*s; return t*(a*(b*(c*s)));
}
Shape* make_shape(Rng& r){
  switch(r.below(5)){
    case 0: case 1: return new Sphere();
    case 2: { Vertex v[3]; for(int i=0;i<3;i++){ v[i].p=Point3(r.f(-1,1),r.f(-1,1),r.f(-1,1)); v[i].n=Normal(0,0,1); v[i].t=Point2(r.f(0,1),r.f(0,1)); }
      Vec3 e1=v[1].p-v[0].p,e2=v[2].p-v[0].p; Vec3 n=cross(e1,e2); if(n.length()<0.05f){ v[0].p=Point3(-1,-1,0); v[1].p=Point3(1,-1,0); v[2].p=Point3(0,1,0.2f); n=cross(v[1].p-v[0].p,v[2].p-v[0].p); } n.normalize(); for(int i=0;i<3;i++) v[i].n=Normal(n.x,n.y,n.z); return new Triangle(v[0],v[1],v[2]); }
    default: { int k=1+(int)r.below(12); Mesh* m=new Mesh(k); for(int i=0;i<k;i++){ Vertex v[3]; Point3 c(r.f(-.7f,.7f),r.f(-.7f,.7f),r.f(-.7f,.7f)); for(int j=0;j<3;j++){ v[j].p=Point3(c.x+r.f(-.4f,.4f),c.y+r.f(-.4f,.4f),c.z+r.f(-.4f,.4f)); v[j].t=Point2(r.f(0,1),r.f(0,1)); }
        Vec3 n=cross(v[1].p-v[0].p,v[2].p-v[0].p); if(n.length()<1e-3f){ v[0].p=Point3(-.5f,-.5f,0); v[1].p=Point3(.5f,-.5f,0); v[2].p=Point3(0,.5f,.1f); n=cross(v[1].p-v[0].p,v[2].p-v[0].p); } n.normalize(); for(int j=0;j<3;j++) v[j].n=Normal(n.x,n.y,n.z); m->add_triangle(v,v+1,v+2); } m->finalize(); return m; }
  }
}
const ImageMap* make_map(World& w,Rng& r,int kind){
  int side=1<<r.below(6); std::vector<pixBGRA> px(side*side); int style=(int)r.below(3); for(auto&p:px){ u32 v=(u32)r.next(); if(style==1) v=(v&1)?0xffffffffu:0x000000ffu; p=v; }
  const ImageMap* m; switch(kind<0?r.below(3):kind){ case 0: m=new ImageMapUnfiltered(px.data(),side); break; case 1: m=new ImageMapTrilinear(px.data(),side); break; default: m=new ImageMapEWA(px.data(),side); } w.maps.push_back(m); return m;
}
static const TextureImage* make_teximage(World& w,Rng& r){ int k=(int)r.below(3); const ImageMap* m=make_map(w,r,k); Vec2 sh(r.f(0,1),r.f(0,1)),sc(r.f(0.2f,3),r.f(0.2f,3)); const TextureImage* t=new TextureImage(m,sh,sc,k==0); w.texs.push_back(t); return t; }
MaskBoolean make_mask(World& w,Rng& r){ static const ImageChannel ch[]={RED,GREEN,BLUE,ALPHA}; return MaskBoolean(make_teximage(w,r),ch[r.below(4)],r.below(2)); }
static const Texture* make_tex(World& w,Rng& r,const WorldOpt& o){ if(o.textures&&r.below(2)) return make_teximage(w,r); const Texture* t=new TextureUniform(rnd_spectrum(r,0.05f,1)); w.texs.push_back(t); return t; }
static MicrofacetDist* make_dist(Rng& r){ switch(r.below(4)){ case 0: return new Blinn(r.f(1,200)); case 1: return new Beckmann(r.f(0.05f,0.9f)); case 2: return new GGXiso(r.f(0.05f,0.9f)); default: return new GGXaniso(r.f(0.05f,0.9f),r.f(0.05f,0.9f)); } }
static Spectrum eta(Rng& r){ return r.below(2)?cauchy(r.f(1.2f,1.8f),r.f(0,0.01f)):sellmeier(1.03f,0.23f,1.01f,0.006f,0.02f,103.f); }
const Bsdf* make_bsdf(World& w,Rng& r,const WorldOpt& o,int depth){
  Bsdf* b; const Metal* metals[]={&METALS[METAL_GOLD],&METALS[METAL_SILVER],&METALS[METAL_COPPER]};
  auto refl=[&]()->Bdf*{ switch(r.below(6)){ case 0: return new OrenNayar(r.f(0,60)); case 1: { const Metal* m=metals[r.below(3)]; return new ConductorReflection(m->n,m->k); } case 2: return new DielectricReflection(SPECTRUM_ONE,eta(r)); case 3: { const Metal* m=metals[r.below(3)]; return new MicrofacetR(make_dist(r),new Conductor(m->n,m->k)); } case 4: return new MicrofacetR(make_dist(r),new Dielectric(cauchy(1,0),eta(r))); default: return new Lambertian(); } };
  int k=(int)r.below(o.simple_mats?2:6); if(depth==0&&!o.simple_mats&&o.masks&&r.below(8)==0) { const Bsdf* x=make_bsdf(w,r,o,1); const Bsdf* y=make_bsdf(w,r,o,1); const Bsdf* d=new DualBsdf(x,y,make_mask(w,r)); w.mats.push_back(d); return d; }
  if(k<=1) b=new SingleBRDF(new Lambertian(),make_tex(w,r,o));
  else if(k==2){ b=new SingleBRDF(refl(),make_tex(w,r,o)); }
  else if(k==3){ MultiBSDF* m=new MultiBSDF(); m->inherit_bdf(new DielectricReflection(cauchy(1,0),eta(r)),make_tex(w,r,o)); m->inherit_bdf(new Refraction(cauchy(1,0),eta(r)),make_tex(w,r,o)); b=m; }
  else if(k==4){ MultiBSDF* m=new MultiBSDF(); m->inherit_bdf(new Lambertian(),make_tex(w,r,o)); m->inherit_bdf(refl(),make_tex(w,r,o)); b=m; }
  else { MultiBSDF* m=new MultiBSDF(); m->inherit_bdf(new MicrofacetR(make_dist(r),new Dielectric(cauchy(1,0),eta(r))),make_tex(w,r,o)); m->inherit_bdf(new MicrofacetT(make_dist(r),cauchy(1,0),eta(r)),make_tex(w,r,o)); b=m; }
  if(o.bumps&&r.below(4)==0){ const TextureImage* t=make_teximage(w,r); static const ImageChannel ch[]={RED,GREEN,BLUE,ALPHA}; if(r.below(2)) b->inherit_bump(new TextureHeight(t,ch[r.below(4)])); else b->inherit_bump(new TextureNormal(t)); }
  w.mats.push_back(b); return b;
}
void build_world(World& w,Rng& r,const WorldOpt& o){
  w.scene=new Scene(); int ns=1+(int)r.below(o.max_shapes), nl=(int)r.below(o.max_lights+1); float spread=r.f(0.5f,2.5f);
  std::vector<Shape*> shapes; for(int i=0;i<ns;i++){ Shape* s=make_shape(r); w.scene->inherit_shape(s); shapes.push_back(s); }
  int na=ns+(int)r.below(ns+1);
  for(int i=0;i<na;i++){ Shape* s=shapes[i<ns?i:r.below(ns)]; int nm=1+(int)r.below(3); std::vector<const Bsdf*> m; for(int k=0;k<nm;k++) m.push_back(make_bsdf(w,r,o)); std::vector<u8> idx(s->get_faces_number()); for(auto&x:idx) x=(u8)r.below(nm);
    Asset* a=new Asset(s,make_transform(r,spread),nm); a->set_materials(m.data(),nm,idx.data()); if(o.masks&&r.below(4)==0) a->set_mask(make_mask(w,r)); w.scene->inherit_asset(a); w.items.push_back(Item{s,a,false}); }
  for(int i=0;i<nl;i++){ Shape* s=r.below(2)?new Sphere():make_shape(r); w.scene->inherit_shape(s); Matrix4 t=make_transform(r,spread*2); if(o.unit_lights){ t.set_translation(Vec3(r.f(-spread*2,spread*2),r.f(-spread*2,spread*2),r.f(-spread*2,spread*2))); }
    AreaLight* l=new AreaLight(s,t,Spectrum(ColorRGB(r.f(0.2f,4),r.f(0.2f,4),r.f(0.2f,4)),true)); int nm=1; const Bsdf* m[1]={make_bsdf(w,r,o)}; std::vector<u8> idx(s->get_faces_number(),0); l->set_materials(m,nm,idx.data()); w.scene->inherit_light(l); w.items.push_back(Item{s,l,true}); }
  char b[128]; snprintf(b,128,"shapes=%d assets=%d lights=%d mats=%zu textures=%zu",ns,na,nl,w.mats.size(),w.texs.size()); w.desc=b;
}
Camera* make_camera(Rng& r,int w,int h,int kind){
  Point3 pos(r.f(-2,2),r.f(-2,2),r.f(-9,-3)),tgt(r.f(-.5f,.5f),r.f(-.5f,.5f),0); Vec3 up(0,1,0);
  switch(kind<0?r.below(3):kind){ case 0: return new CameraPerspective(&pos,&tgt,&up,w,h,r.f(0.4f,1.4f)); case 1: return new CameraOrthographic(&pos,&tgt,&up,w,h); default: return new Camera360(&pos,&tgt,&up,w,h); }
}
const char* filter_name(int k){ static const char* n[]={"box","tent","gauss","mitchell","lanczos"}; return n[k]; }
std::unique_ptr<Filter> make_filter(int kind,Rng& r,Filter** twin){
  float a=r.f(0.3f,3),b=r.f(0,1),c=r.f(0,1); auto mk=[&]()->Filter*{ switch(kind){ case 0: return new FilterBox(); case 1: return new FilterTent(); case 2: return new FilterGaussian(a); case 3: return new FilterMitchell(b,c); default: return new FilterLanczos(1+a); } };
  std::unique_ptr<Filter> f(mk()); if(twin) *twin=mk(); return f;
}
// ---------------------------------------------------------------- recording
static const Point3 CP(0,0,-10),CT(0,0,0); static const Vec3 CU(0,1,0);
RecCamera::RecCamera(Trace* t,int w,int h):Camera(&CP,&CT,&CU,w,h),tr(t){}
void RecCamera::create_single_ray(const Sample* s,Point3* o,Vec3* d) const { *o=Point3(s->posx,s->posy,-10); *d=Vec3(0,0,1); }
void RecCamera::create_ray(const Sample* s,Ray* r,Ray* rx,Ray* ry) const {
  if(tr->stall_permille && (int)draw(K_CLOCK,1000)>=1000-tr->stall_permille) op_point(tr->stall_ns);
  { Harness h; u64 n=now_ns(); if(tr->s.empty()) tr->first_ns=n; tr->last_ns=n; tr->s.push_back(Rec{s->posx,s->posy,steps(),self_tid(),n}); }
  create_single_ray(s,&r->origin,&r->direction); r->ricochet=0; Sample a=*s; a.posx++; create_single_ray(&a,&rx->origin,&rx->direction); a=*s; a.posy++; create_single_ray(&a,&ry->origin,&ry->direction);
}
u64 Lit::k(float x,float y){ u32 a,b; memcpy(&a,&x,4); memcpy(&b,&y,4); return (u64)a<<32|b; }
Spectrum Lit::color(float x,float y) const {
  Rng r(k(x,y)*0x9e3779b97f4a7c15ull+key); r.next(); Spectrum s; float v[3];
  for(int i=0;i<3;i++) v[i]=mode==1?(r.below(8)==0?1.f:0.f):mode==2?(r.below(2)?0.9f:0.02f):r.f(0,1);
  if(mode==3&&r.below(30)==0) v[1]=-v[1];
  s.w[0]=v[0]; s.w[1]=v[1]; s.w[2]=v[2]; return s;
}
Spectrum RecIntegrator::radiance(const Scene*,const HitPoint*,const Ray* r,Sampler* sam,OcclusionTester*) const {
  float rn[3]; if(draw_numbers) { sam->get_random_numbers(rn,3); for(float v:rn) if(!(v>=0&&v<=1)) violation("random-range","random number %.9g outside [0,1]",v); }
  Harness h; lit->hits[Lit::k(r->origin.x,r->origin.y)]++; return lit->color(r->origin.x,r->origin.y);
}
FilmModel::FilmModel(int w,int h):w(w),h(h),X((size_t)w*h),Y((size_t)w*h),Z((size_t)w*h),W((size_t)w*h),A((size_t)w*h){}
void FilmModel::add(const Filter& f,float px,float py,const Spectrum& s){
  ColorXYZ c=s.to_xyz(); double r=c.r<0?0:c.r,g=c.g<0?0:c.g,b=c.b<0?0:c.b; float cx=px-0.5f,cy=py-0.5f;
  int x0=std::max(0,(int)ceilf(cx-f.range_x)),x1=std::min(w-1,(int)floorf(cx+f.range_x)),y0=std::max(0,(int)ceilf(cy-f.range_y)),y1=std::min(h-1,(int)floorf(cy+f.range_y));
  for(int y=y0;y<=y1;y++) for(int x=x0;x<=x1;x++){ double q=f.weight(x-cx,y-cy); size_t i=(size_t)y*w+x; X[i]+=r*q; Y[i]+=g*q; Z[i]+=b*q; W[i]+=q; A[i]+=fabs(q); }
}
std::string FilmModel::compare(const Img& im,int* checked) const {
  char b[400]; if(im.w!=w||im.h!=h){ snprintf(b,400,"image is %dx%d instead of %dx%d",im.w,im.h,w,h); return b; }
  int n=0; for(int y=0;y<h;y++) for(int x=0;x<w;x++){ size_t i=(size_t)y*w+x; double q=W[i]; ColorRGB lo(0.f,0.f,0.f); int e[3]={0,0,0};
    if(A[i]>0 && (fabs(q)<1e-5*A[i]*50 || fabs(q)*50<A[i])) continue;   // ill-conditioned weight sum
    if(A[i]>0 && A[i]<1e-6) continue;
    if(q>0){ ColorRGB c=ColorXYZ((float)(X[i]/q),(float)(Y[i]/q),(float)(Z[i]/q)).to_sRGB(); float v[3]={c.r,c.g,c.b}; for(int k=0;k<3;k++) e[k]=(int)std::min(std::max(0.f,v[k])*255,255.f); }
    n++; for(int k=0;k<3;k++){ int d=(int)im.rgb[i*3+k]-e[k]; if(d<-1||d>1){ snprintf(b,400,"pixel (%d,%d) is (%d,%d,%d) instead of (%d,%d,%d); filter weight sum %.6g",x,y,im.rgb[i*3],im.rgb[i*3+1],im.rgb[i*3+2],e[0],e[1],e[2],q); return b; } } }
  if(checked) *checked+=n; return "";
}
std::string check_counts(const std::vector<Rec>& s,int w,int h,int spp,int strata){
  char b[400]; std::vector<int> sure((size_t)w*h); struct Amb{ float x,y; }; std::vector<Amb> amb; std::unordered_map<u64,int> seen; int dup=0; float dx=0,dy=0;
  for(auto&r:s){ if(!(r.x>=0&&r.x<=w&&r.y>=0&&r.y<=h)){ snprintf(b,400,"sample (%.9g,%.9g) is outside the %dx%d image",r.x,r.y,w,h); return b; }
    if(seen[Lit::k(r.x,r.y)]++){ dup++; dx=r.x; dy=r.y; }
    if(r.x==floorf(r.x)||r.y==floorf(r.y)) amb.push_back(Amb{r.x,r.y}); else sure[(size_t)(int)r.y*w+(int)r.x]++; }
  if((long long)s.size()!=(long long)w*h*spp){ snprintf(b,400,"%zu samples were traced instead of %lld",s.size(),(long long)w*h*spp); return b; }
  if(dup>=3&&dup*2000>(int)s.size()/1000){ snprintf(b,400,"%d samples were traced twice, for example (%.9g,%.9g)",dup,dx,dy); return b; }
  // boundary samples fill up any adjacent pixel with room
  std::vector<int> room((size_t)w*h); for(size_t i=0;i<room.size();i++){ room[i]=spp-sure[i]; if(room[i]<0){ snprintf(b,400,"pixel (%zu,%zu) received %d samples instead of %d",i%w,i/w,sure[i],spp); return b; } }
  std::vector<int> near_amb((size_t)w*h); for(auto&a:amb) for(int oy=-1;oy<=0;oy++) for(int ox=-1;ox<=0;ox++){ int x=(int)floorf(a.x)+ox,y=(int)floorf(a.y)+oy; if(a.x!=floorf(a.x)&&ox) continue; if(a.y!=floorf(a.y)&&oy) continue; if(x>=0&&y>=0&&x<w&&y<h) near_amb[(size_t)y*w+x]++; }
  for(size_t i=0;i<room.size();i++) if(room[i]>near_amb[i]){ snprintf(b,400,"pixel (%zu,%zu) received at most %d samples instead of %d",i%w,i/w,spp-room[i]+near_amb[i],spp); return b; }
  if(strata>0){ // every cell of every pixel exactly once, up to samples that lie on a cell border
    int n=strata; std::vector<u8> c((size_t)w*n*h*n); std::vector<u8> near_((size_t)w*n*h*n); const float E=2e-4f;
    for(auto&r:s){ double fx=(double)r.x*n,fy=(double)r.y*n; long ix=(long)floor(fx),iy=(long)floor(fy); double ex=fabs(fx-nearbyint(fx))/n,ey=fabs(fy-nearbyint(fy))/n; double tol=std::max<double>(E,(double)std::max(w,h)*2.5e-7);
      if(ex>tol&&ey>tol){ if(++c[(size_t)iy*w*n+ix]>1){ snprintf(b,400,"two samples fall in cell (%ld,%ld) of pixel (%ld,%ld), e.g. (%.9g,%.9g)",ix%n,iy%n,ix/n,iy/n,r.x,r.y); return b; } }
      else for(long jy=iy-1;jy<=iy+1;jy++) for(long jx=ix-1;jx<=ix+1;jx++) if(jx>=0&&jy>=0&&jx<(long)w*n&&jy<(long)h*n&&near_[(size_t)jy*w*n+jx]<255) near_[(size_t)jy*w*n+jx]++; }
    for(size_t i=0;i<c.size();i++) if(!c[i]&&!near_[i]){ long ix=i%((size_t)w*n),iy=i/((size_t)w*n); snprintf(b,400,"no sample falls in cell (%ld,%ld) of pixel (%ld,%ld)",ix%n,iy%n,ix/n,iy/n); return b; } }
  return "";
}
}
