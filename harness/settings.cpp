// Scene descriptions: every statement takes effect, on what it names only (C29).
#include "images.hpp"
#include "faulty.hpp"
#include "parsers/config_driver.hpp"
#include "materials/shading_space.hpp"
#include "lights/area_light.hpp"
#include <set>
using namespace hx;
namespace {
std::string quote(Rng& r,const std::string& s){ char q=r.below(3)?'"':'\''; return q+s+q; }
std::string ws(Rng& r){ switch(r.below(6)){ case 0: return ""; case 1: return "\t"; case 2: return "\n"; case 3: return r.below(4)?"  ":" # a comment: { \"\n"; default: return " "; } }
std::string sep(Rng& r){ switch(r.below(4)){ case 0: return ","; case 1: return ", "; case 2: return "\n"; default: return " "; } }
std::string kv(Rng& r,const std::string& k,const std::string& v){ return k+ws(r)+":"+ws(r)+v; }
std::string object(Rng& r,const std::string& k,const std::vector<std::string>& v){ std::string s=k+ws(r)+":"+ws(r)+"{"+ws(r); for(size_t i=0;i<v.size();i++) s+=(i?sep(r):std::string())+v[i]; return s+ws(r)+"}"; }
void mix(Rng& r,std::vector<std::string>& v,size_t from=0){ for(size_t k=v.size();k>from+1;k--) std::swap(v[k-1],v[from+r.below(k-from)]); }
// a number in one of the ways a description may write it, together with its value
std::string number(Rng& r,float lo,float hi,float* val){ float f=r.f(lo,hi); char b[64]; switch(r.below(7)){ case 0: case 1: snprintf(b,64,"%.9g",f); break; case 2: snprintf(b,64,"%d",(int)lrintf(f)); break; case 3: snprintf(b,64,"%.2f",f); break; case 4: snprintf(b,64,"%.6e",f); break; case 5: snprintf(b,64,"%s%.3f",f>=0?"+":"",f); break; default: snprintf(b,64,"%.1fE0",f); }
  float g=(float)atof(b); if(g<lo||g>hi){ snprintf(b,64,"%.9g",f); g=(float)atof(b); } *val=g; return b; }
std::string vec(Rng& r,float lo,float hi,float* v,int n=3){ std::string s="["+ws(r); for(int i=0;i<n;i++) s+=(i?ws(r)+","+ws(r):std::string())+number(r,lo,hi,v+i); return s+ws(r)+"]"; }
// a colour: whatever is outside [0,255] means the nearest end
std::string rgb_text(Rng& r,float* v){ if(r.below(4)) return vec(r,-20,280,v); static const char* B[]={"0","255","256","-1","4294967306","-4294967256","99999999999","300.5","1e9","-1e12","254.99","12","+77"}; std::string s="["; for(int i=0;i<3;i++){ const char* b=B[r.below(13)]; v[i]=(float)atof(b); s+=(i?",":"")+std::string(b); } return s+"]"; }
struct Spec { std::string text; int file=-1; };      // a statement and the file it stands in
struct Files { std::vector<std::string> path,ref; std::vector<bool> good; };
// the texts: statements of a file in the order they are given; chained files are named in the main one
struct Texts { std::string main; std::vector<std::string> kid; };
Texts write(Rng& r,const std::vector<Spec>& st,const Files& f){
  Texts t; t.kid.resize(f.path.size()); auto put=[&](std::string& o,const std::string& s){ o+=s; switch(r.below(6)){ case 0: o+=" "; break; case 1: o+=",\r\n"; break; case 2: o+="\n# world: {\n"; break; default: o+="\n"; } };
  std::vector<std::string> mainst; size_t next=0; std::vector<size_t> pos; for(size_t i=0;i<f.path.size();i++) pos.push_back(r.below(st.size()+1)); std::sort(pos.begin(),pos.end());
  for(size_t i=0;i<=st.size();i++){ while(next<pos.size()&&pos[next]==i) { put(t.main,kv(r,"material",quote(r,f.ref[next]))); next++; } if(i<st.size()) put(st[i].file<0?t.main:t.kid[st[i].file],st[i].text); }
  for(auto&k:t.kid) if(k.empty()) k=","; return t; }
Files chained(Rng& r,int max,bool missing){ Files f; int n=(int)r.below(max+1); for(int i=0;i<n;i++){ std::string p="kid"+std::to_string(i)+".txt"; bool sub=r.below(2); f.path.push_back(sub?"/w/more/"+p:"/w/"+p); f.ref.push_back(r.below(3)==0?f.path.back():sub?"more/"+p:p); f.good.push_back(!missing||r.below(4)); } return f; }
void store(const Texts& t,const Files& f){ fs::mkdirs("/w/more"); fs::put("/w/main.txt",t.main); for(size_t i=0;i<f.path.size();i++) if(f.good[i]) fs::put(f.path[i],t.kid[i]); }
struct Parsed { std::unique_ptr<Scene> scene; Renderer* r=nullptr; Outcome o; std::string err; };
void parse(Harness& hh,Parsed& p){ u64 m=err_mark(); p.o=prog_run(hh,[&]{ p.scene.reset(new Scene()); ConfigDriver d; p.r=d.parse("/w/main.txt",p.scene.get()); }); p.err=err_text().substr((size_t)m); }
void quiet_faults(){ faults=FaultCfg(); faults.on=true; faults.budget=0; faults.short_permille_read=(int)wl(3)*400; random_bufsize(); }
// ================================================================ objects and materials
struct TexS { std::string name,path; bool def=false,good=true; float scale[2]={1,1},shift[2]={0,0}; int file=-1; };   // def: defined by a statement
struct Use { int mode=0; float rgb[3]; int tex=-1; int pic=-1; };            // 0 nothing, 1 colour, 2 defined texture, 3 picture by its path
struct MatS { std::string name; mat_t type=MATTE; int ior=0; float io[6]; int elem=METAL_GOLD; float rx=0,ry=-1; int dist=SPECTRE_DIST_BECKMANN; Use dif,spe,nor; int file=-1; };
struct DualS { std::string name,a,b; Use mask; int chan=3; bool inv=false; int file=-1; };
struct PicS { std::string path,ref; bool good=true; Pic pix; std::string data,ext; };
struct ObjS { std::string shape; bool light=false; std::string mat; float pos[3]={0,0,0},rot[3]={0,0,0},sc[3]={1,1,1}; int temp=-1; float rgb[3]={255,255,255}; int file=-1; bool there=true; Use mask; int chan=3; bool inv=false,hidden=false; };
struct MeshS { std::string name; std::vector<double> tri; };                   // 9 numbers a triangle
static const char* ELEMS[]={"Ag","Al","Au","Cu","Fe","Hg","Pb","Pt","W","Be","Bi","Co","Cr","Ge","K","Li","Mg","Mn","Mo","Na","Nb","Ni","Pd","Rh","Ta","Ti","V","Zn","Zr"};
static const int ELEMV[]={METAL_SILVER,METAL_ALUMINIUM,METAL_GOLD,METAL_COPPER,METAL_IRON,METAL_MERCURY,METAL_LEAD,METAL_PLATINUM,METAL_TUNGSTEN,METAL_BERYLLIUM,METAL_BISMUTH,METAL_COBALT,METAL_CHROMIUM,METAL_GERMANIUM,METAL_POTASSIUM,METAL_LITHIUM,METAL_MAGNESIUM,METAL_MANGANESE,METAL_MOLYBDENUM,METAL_SODIUM,METAL_NIOBIUM,METAL_NICKEL,METAL_PALLADIUM,METAL_RHODIUM,METAL_TANTALUM,METAL_TITANIUM,METAL_VANADIUM,METAL_ZINC,METAL_ZIRCONIUM};
struct Model { std::vector<PicS> pics; std::vector<TexS> texs; std::vector<MatS> mats; std::vector<DualS> duals; std::vector<ObjS> objs; std::vector<MeshS> meshes; TextureFilter_t filter=TRILINEAR; std::vector<TextureImage*> reft; std::map<std::string,const Bsdf*> ref; };
double rad(double d){ return d*M_PI/180; }
struct M3 { double a[9]; };
M3 mul(const M3& x,const M3& y){ M3 m; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ m.a[i*3+j]=0; for(int k=0;k<3;k++) m.a[i*3+j]+=x.a[i*3+k]*y.a[k*3+j]; } return m; }
M3 rotation(const float* d){ double a=rad(d[0]),b=rad(d[1]),c=rad(d[2]); M3 x={{1,0,0,0,cos(a),-sin(a),0,sin(a),cos(a)}},y={{cos(b),0,sin(b),0,1,0,-sin(b),0,cos(b)}},z={{cos(c),-sin(c),0,sin(c),cos(c),0,0,0,1}}; return mul(z,mul(y,x)); }
void place_(const ObjS& o,const double* v,double* w){ M3 m=rotation(o.rot); double s[3]={v[0]*o.sc[0],v[1]*o.sc[1],v[2]*o.sc[2]}; for(int i=0;i<3;i++) w[i]=m.a[i*3]*s[0]+m.a[i*3+1]*s[1]+m.a[i*3+2]*s[2]+o.pos[i]; }
void unplace(const ObjS& o,const double* w,double* v,bool dir){ M3 m=rotation(o.rot); double d[3]; for(int i=0;i<3;i++) d[i]=w[i]-(dir?0:o.pos[i]); for(int i=0;i<3;i++) v[i]=(m.a[i]*d[0]+m.a[3+i]*d[1]+m.a[6+i]*d[2])/o.sc[i]; }
// nearest hit of a ray with an object: distance, <0 none; unsure when it only just hits or misses
double cast(const ObjS& o,const MeshS* m,const double* p,const double* d,bool& unsure){
  if(!m){ double a[3],b[3]; unplace(o,p,a,false); unplace(o,d,b,true); double A=0,B=0,C=-1; for(int i=0;i<3;i++){ A+=b[i]*b[i]; B+=a[i]*b[i]; C+=a[i]*a[i]; } double D=B*B-A*C; if(fabs(D)<2e-2*A) unsure=true; if(D<0) return -1; double t=(-B-sqrt(D))/A; return t>0?t:-1; }
  double best=-1; for(size_t k=0;k+8<m->tri.size();k+=9){ double v[3][3]; for(int i=0;i<3;i++) place_(o,&m->tri[k+3*i],v[i]); double e1[3],e2[3],q[3],s[3],h[3]; for(int i=0;i<3;i++){ e1[i]=v[1][i]-v[0][i]; e2[i]=v[2][i]-v[0][i]; s[i]=p[i]-v[0][i]; }
    auto cross=[](const double* a,const double* b,double* c){ c[0]=a[1]*b[2]-a[2]*b[1]; c[1]=a[2]*b[0]-a[0]*b[2]; c[2]=a[0]*b[1]-a[1]*b[0]; }; auto dot=[](const double* a,const double* b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; };
    double n[3]; cross(e1,e2,n); double nl=sqrt(dot(n,n)); cross(d,e2,h); double det=dot(e1,h); if(fabs(det)<0.05*nl){ double c[3]; for(int i=0;i<3;i++) c[i]=(v[0][i]+v[1][i]+v[2][i])/3-p[i]; double x[3]; cross(c,d,x); double R=0; for(int j=0;j<3;j++){ double g[3]; for(int i=0;i<3;i++) g[i]=v[j][i]-p[i]-c[i]; R=std::max(R,dot(g,g)); } if(dot(x,x)<=R*1.1) unsure=true; continue; }
    double u=dot(s,h)/det; cross(s,e1,q); double w=dot(d,q)/det,t=dot(e2,q)/det; double mn=std::min(u,std::min(w,1-u-w)); if(fabs(mn)<5e-3) unsure=true; if(mn<0||t<=0) continue; if(best<0||t<best) best=t; }
  return best; }
std::string uses(Rng& r,Model& m,Use& u,bool colour){ // the text of a reference
  u.mode=(int)r.below(4); if(!colour&&u.mode==1) u.mode=2; if(u.mode==2&&m.texs.empty()) u.mode=colour?1:3; if(u.mode==3&&m.pics.empty()) u.mode=0; if(u.mode==1) return rgb_text(r,u.rgb); if(u.mode==2){ u.tex=(int)r.below(m.texs.size()); return quote(r,m.texs[u.tex].name); } if(u.mode==3){ u.pic=(int)r.below(m.pics.size()); return quote(r,r.below(2)?m.pics[u.pic].path:m.pics[u.pic].ref); } return ""; }
TextureImage* ref_tex(Model& m,const Use& u){ if(u.mode<2) return nullptr; const PicS* p=nullptr; Vec2 sc,sh; sc=Vec2(1.f); sh=Vec2(0.f);
  if(u.mode==2){ const TexS& t=m.texs[u.tex]; for(auto&x:m.pics) if(x.path==t.path) p=&x; sc.x=t.scale[0]; sc.y=t.scale[1]; sh.x=t.shift[0]; sh.y=t.shift[1]; } else { p=&m.pics[u.pic]; for(auto&t:m.texs) if(t.path==p->path&&t.def){ sc.x=t.scale[0]; sc.y=t.scale[1]; sh.x=t.shift[0]; sh.y=t.shift[1]; } }
  if(!p||!p->good) return nullptr; std::string copy="/reference"+p->path; TextureImage* t=new TextureImage(File(copy.c_str()),sh,sc,m.filter); if(!t->is_loaded()) violation("reader","a healthy image could not be read: %s",p->path.c_str()); m.reft.push_back(t); return t; }
const Texture* ref_colour(Model& m,const Use& u){ if(u.mode==1){ u8 c[3]; for(int i=0;i<3;i++) c[i]=(u8)std::min(255.f,std::max(0.f,u.rgb[i])); return new TextureUniform(Spectrum(ColorRGB(c[0],c[1],c[2]),false)); } TextureImage* t=ref_tex(m,u); return t?(const Texture*)t:TexLib.get_dflt_teximage(); }
MicrofacetDist* ref_dist(const MatS& s,float rx,float ry){ if(ry!=-1) return new GGXaniso(rx,ry); if(s.dist==SPECTRE_DIST_BLINN) return new Blinn(2.f/(rx*rx)-2); if(s.dist==SPECTRE_DIST_BECKMANN) return new Beckmann(rx); return new GGXiso(rx); }
const Bsdf* ref_mat(Model& m,const MatS& s){
  float rx=std::min(1.f,std::max(0.f,s.rx)),ry=s.ry==rx?-1:s.ry; if(ry!=-1){ rx=std::max(.001f,rx); ry=std::min(1.f,std::max(.001f,ry)); } Bsdf* b=nullptr; const Texture *d=ref_colour(m,s.dif),*sp=ref_colour(m,s.spe);
  Spectrum air=cauchy(1.f,0.f),io=s.ior==0?cauchy(1.45f,0.f):s.ior==1?cauchy(s.io[0],0):s.ior==2?cauchy(s.io[0],s.io[1]):s.ior==3?cauchy(s.io[0],s.io[1],s.io[2]):sellmeier(s.io[0],s.io[1],s.io[2],s.io[3],s.io[4],s.io[5]); bool smooth=rx==0&&ry==-1;
  switch(s.type){ case MATTE: if(rx!=0) b=new SingleBRDF(new OrenNayar(rx*100.f),d); else b=new SingleBRDF(new Lambertian(),d); break;
    case GLOSSY: { MultiBSDF* x=new MultiBSDF(); if(rx==0) rx=.001f; x->inherit_bdf(new Lambertian(),d); x->inherit_bdf(new MicrofacetR(ref_dist(s,rx,ry),new Dielectric(air,cauchy(1.5f,0))),sp); b=x; break; }
    case GLASS: { MultiBSDF* x=new MultiBSDF(); if(smooth){ x->inherit_bdf(new Refraction(air,io),d); x->inherit_bdf(new DielectricReflection(air,io),sp); } else { x->inherit_bdf(new MicrofacetT(ref_dist(s,rx,ry),air,io),d); x->inherit_bdf(new MicrofacetR(ref_dist(s,rx,ry),new Dielectric(air,io)),sp); } b=x; break; }
    default: { Spectrum n(METALS[s.elem].n),k(METALS[s.elem].k); if(smooth) b=new SingleBRDF(new ConductorReflection(n,k)); else b=new SingleBRDF(new MicrofacetR(ref_dist(s,rx,ry),new Conductor(n,k))); } }
  TextureImage* nm=ref_tex(m,s.nor); if(nm) b->inherit_bump(new TextureNormal(nm)); return b; }
bool near_(float a,float b){ if(a==b||(a!=a&&b!=b)) return true; return fabsf(a-b)<=2e-3f*std::max(fabsf(a),fabsf(b))+1e-5f; }
bool near_(const Spectrum& a,const Spectrum& b){ ColorXYZ x=a.to_xyz(),y=b.to_xyz(); float m=std::max(std::max(fabsf(y.r),fabsf(y.g)),std::max(fabsf(y.b),0.f)); if(!(m==m)) return !(x.r==x.r&&x.g==x.g&&x.b==x.b); auto q=[&](float p,float s){ return p==s||fabsf(p-s)<=2e-3f*m+1e-5f; }; return q(x.r,y.r)&&q(x.g,y.g)&&q(x.b,y.b); }
std::string behave(const Bsdf* a,const Bsdf* b,Rng& r,bool lookups){ // the first difference
  char t[300]; for(int k=0;k<24;k++){
    HitPoint h; h.point_h=Point3(r.f(-3,3),r.f(-3,3),0); h.normal_h=Normal(0,0,1); h.dpdu=Vec3(1,0,0); h.dpdv=Vec3(0,1,0); h.asset_h=nullptr; h.index=0; h.uv=Point2(r.f(0,1),r.f(0,1)); h.differentials=r.below(2); h.du=h.differentials?Vec2(r.f(-.2f,.2f),r.f(-.2f,.2f)):Vec2(0,0); h.dv=h.differentials?Vec2(r.f(-.2f,.2f),r.f(-.2f,.2f)):Vec2(0,0); (void)lookups;
    auto dir=[&](bool up){ Vec3 v(r.f(-1,1),r.f(-1,1),r.f(.15f,1)); if(!up) v.z=-v.z; v.normalize(); return v; }; Vec3 wo=dir(r.below(4)),wi=dir(r.below(3)); float r0=r.f(.02f,.98f),r1=r.f(.02f,.98f),r2=r.f(.02f,.98f); bool spec=r.below(2);
    ShadingSpace sa(&h),sb(&h); Normal na(0,0,1),nb(0,0,1); a->gen_shading_matrix(&h,&sa,&na); b->gen_shading_matrix(&h,&sb,&nb);
    if(!near_(na.x,nb.x)||!near_(na.y,nb.y)||!near_(na.z,nb.z)){ snprintf(t,300,"the normal at (%g,%g) is (%g,%g,%g) instead of (%g,%g,%g)",h.uv.x,h.uv.y,na.x,na.y,na.z,nb.x,nb.y,nb.z); return t; }
    if(!near_(a->value(&wo,&h,&wi,&sa,spec),b->value(&wo,&h,&wi,&sb,spec))){ ColorXYZ x=a->value(&wo,&h,&wi,&sa,spec).to_xyz(),y=b->value(&wo,&h,&wi,&sb,spec).to_xyz(); snprintf(t,300,"reflects (%g,%g,%g) instead of (%g,%g,%g) at (%g,%g)",x.r,x.g,x.b,y.r,y.g,y.b,h.uv.x,h.uv.y); return t; }
    if(!near_(a->pdf(&wo,&h,&sa,&wi,spec),b->pdf(&wo,&h,&sb,&wi,spec))){ snprintf(t,300,"chooses a direction with density %g instead of %g",a->pdf(&wo,&h,&sa,&wi,spec),b->pdf(&wo,&h,&sb,&wi,spec)); return t; }
    Vec3 va(0,0,0),vb(0,0,0); float pa=0,pb=0; bool ma=false,mb=false; Spectrum xa=a->sample_value(r0,r1,r2,&wo,&h,&sa,&va,&pa,spec,&ma),xb=b->sample_value(r0,r1,r2,&wo,&h,&sb,&vb,&pb,spec,&mb); bool za=pa==0||xa.is_black(),zb=pb==0||xb.is_black();
    if(za!=zb||(!za&&(!near_(pa,pb)||ma!=mb||!near_(va.x,vb.x)||!near_(va.y,vb.y)||!near_(va.z,vb.z)||!near_(xa,xb)))){ snprintf(t,300,"scatters towards (%g,%g,%g), density %g, instead of (%g,%g,%g), density %g",va.x,va.y,va.z,pa,vb.x,vb.y,vb.z,pb); return t; } }
  return ""; }
}
// a statement about something that is used nowhere: it must not change anything else
static std::string aside(Rng& r){
  std::vector<std::string> v; float x[3]; auto half=[&]{ return r.below(2)==0; }; auto img=[&]{ static const char* N[]={"\"gone.png\"","'gone/too.tga'","\"nothing\""}; return std::string(N[r.below(3)]); }; auto mask=[&]{ std::string t=img(),c=half()?std::string(" using channel ")+"RGBA"[r.below(4)]:"",n=half()?" inverted":""; return t+(half()?c+n:n+c); };
  switch(r.below(8)){
    case 0: v.push_back(kv(r,"src",img())); if(half()) v.push_back(kv(r,"name","\"aside\"")); if(half()) v.push_back(kv(r,"scale",half()?number(r,.1f,9,x):vec(r,.1f,9,x,2))); if(half()) v.push_back(kv(r,"shift",vec(r,-1,1,x,2))); mix(r,v); return object(r,"texture",v);
    case 1: case 2: { static const char* T[]={"matte","glossy","metal","glass"}; static const char* D[]={"blinn","beckmann","ggx"}; v.push_back(kv(r,"name","\"aside\"")); if(r.below(4)) v.push_back(kv(r,"type",T[r.below(4)])); if(half()) v.push_back(kv(r,"roughness",number(r,0,1,x))); if(half()) v.push_back(kv(r,"anisotropy",number(r,0,1,x))); if(half()) v.push_back(kv(r,"distribution",D[r.below(3)])); if(half()) v.push_back(kv(r,"element",ELEMS[r.below(29)]));
      if(half()) switch(r.below(4)){ case 0: v.push_back(kv(r,"ior",number(r,1,2,x))); break; case 1: v.push_back(kv(r,"ior",vec(r,1,2,x,2))); break; case 2: v.push_back(kv(r,"ior",vec(r,1,2,x))); break; default: v.push_back(kv(r,"ior",vec(r,1,2,x)+" "+vec(r,1,2,x))); }
      if(half()) v.push_back(kv(r,"diffuse",half()?rgb_text(r,x):img())); if(half()) v.push_back(kv(r,"specular",half()?rgb_text(r,x):img())); if(half()) v.push_back(kv(r,"normal",img())); mix(r,v); return object(r,"material",v); }
    case 3: v.push_back(kv(r,"name","\"aside too\"")); if(half()) v.push_back(kv(r,"first","\"aside\"")); if(half()) v.push_back(kv(r,"second","\"missing\"")); if(half()) v.push_back(kv(r,"mask",mask())); mix(r,v); return object(r,"dualmaterial",v);
    case 4: case 5: { bool light=half(); v.push_back(kv(r,"name","\"nowhere\"")); if(half()) v.push_back(kv(r,"position",vec(r,-9,9,x))); if(half()) v.push_back(kv(r,"rotation",vec(r,-400,400,x))); if(half()) v.push_back(kv(r,"scale",half()?number(r,.1f,9,x):vec(r,.1f,9,x))); if(half()) v.push_back(kv(r,"material","\"aside\"")); if(half()) v.push_back(kv(r,"mask",mask())); if(light){ if(half()) v.push_back(kv(r,"temperature",std::to_string(r.below(9000)))); if(half()) v.push_back(kv(r,"color",rgb_text(r,x))); } mix(r,v,1); return object(r,light?"light":"world",v); }
    case 6: return kv(r,"shape","\"gone.obj\"");
    default: return kv(r,"material","\"gone.txt\""); } }
// a setting that does not matter when nothing is rendered
static std::string setting(Rng& r){
  std::vector<std::string> v; float x[3]; auto half=[&]{ return r.below(2)==0; };
  switch(r.below(6)){
    case 0: { static const char* T[]={"perspective","orthographic","panorama"}; v.push_back(kv(r,"type",T[r.below(3)])); if(half()) v.push_back(kv(r,"position",vec(r,-9,0,x))); if(half()) v.push_back(kv(r,"target",vec(r,20,60,x))); if(half()) v.push_back(kv(r,"up","[0,1,0]")); if(half()) v.push_back(kv(r,"fov",number(r,20,120,x))); mix(r,v); return object(r,"camera",v); }
    case 1: return kv(r,"spp",std::to_string(1+r.below(9)));
    case 2: return kv(r,"sampler",half()?"random":"stratified");
    case 3: return kv(r,"integrator","path");
    case 4: { static const char* T[]={"box","tent","triangle","gauss","gaussian","mitchell","lanczos"}; v.push_back(kv(r,"type",T[r.below(7)])); if(half()) v.push_back(kv(r,"value0",number(r,.1f,2,x))); if(half()) v.push_back(kv(r,"value1",number(r,.1f,2,x))); mix(r,v); return object(r,"filter",v); }
    default: v={kv(r,"width",std::to_string(1+r.below(99))),kv(r,"height",std::to_string(1+r.below(99)))}; mix(r,v); return object(r,"resolution",v); } }
SCENARIO("C29",described_objects,2){
  Harness hh; Rng r(content_seed()); Model m; sched.preempt=false; sched.ncpu=1+(int)wl(4); set_fill(1+(u32)r.below(1000)); bool bad=wl(2); fs::mkdirs("/w/img"); fs::mkdirs("/reference/w/img"); fs::set_cwd(wl(2)?"/w":"/reference"); Files kids=chained(r,2,bad); std::vector<Spec> st; auto where=[&]()->int{ return kids.path.empty()||r.below(2)?-1:(int)r.below(kids.path.size()); }; auto lives=[&](int f){ return f<0||kids.good[f]; };
  static const char* EX[]={"bmp","tga","png","ppm"}; int np=(int)r.below(5); for(int i=0;i<np;i++){ PicS p; p.ext=EX[r.below(4)]; p.ref="img/p"+std::to_string(i)+"."+p.ext; p.path="/w/"+p.ref; int side=r.below(3)?1<<r.below(4):1; File8 f=encode_any(p.ext,r,side,side,(int)r.below(3)); p.data=f.data; p.pix=f.pix; p.good=!bad||r.below(3); m.pics.push_back(p); }
  // the kind of texture filtering
  { static const char* N[]={"unfiltered","trilinear","ewa"}; static const TextureFilter_t V[]={UNFILTERED,TRILINEAR,EWA}; int n=(int)r.below(3); if(r.below(4)){ m.filter=V[n]; std::vector<std::string> v={kv(r,"texture",N[n])}; if(r.below(2)) v.push_back(kv(r,"type","box")); mix(r,v); Spec s; s.file=where(); s.text=object(r,"filter",v); if(!lives(s.file)) m.filter=TRILINEAR; st.push_back(s); } }
  // textures: names are used once; an unnamed one is known by the name of its file
  { std::set<std::string> unn; int nt=(int)r.below(5); for(int i=0;i<nt&&!m.pics.empty();i++){ TexS t; const PicS& p=m.pics[r.below(m.pics.size())]; t.path=p.path; t.good=p.good; std::vector<std::string> v={kv(r,"src",quote(r,r.below(2)?p.path:p.ref))}; if(r.below(3)) { t.name="tex "+std::to_string(i); v.push_back(kv(r,"name",quote(r,t.name))); } else { if(!unn.insert(p.path).second) continue; t.name=p.ref.substr(4); t.def=true; }
      if(r.below(2)){ if(r.below(2)) v.push_back(kv(r,"scale",vec(r,.5f,4,t.scale,2))); else { v.push_back(kv(r,"scale",number(r,.5f,4,t.scale))); t.scale[1]=t.scale[0]; } } if(r.below(2)) v.push_back(kv(r,"shift",vec(r,-1,1,t.shift,2))); mix(r,v); Spec s; s.file=t.file=where(); s.text=object(r,"texture",v); st.push_back(s); if(lives(s.file)) m.texs.push_back(t); } }
  int nm=1+(int)r.below(5); for(int i=0;i<nm;i++){ MatS x; x.name="mat"+std::to_string(i); x.file=where(); std::vector<std::string> v={kv(r,"name",quote(r,x.name))}; static const char* TN[]={"matte","glossy","metal","glass"}; static const mat_t TV[]={MATTE,GLOSSY,METAL,GLASS}; if(r.below(6)){ int k=(int)r.below(4); x.type=TV[k]; v.push_back(kv(r,"type",TN[k])); }
    if(r.below(2)){ x.ior=1+(int)r.below(4); if(x.ior==1) v.push_back(kv(r,"ior",number(r,1.1f,2.2f,x.io))); else { std::string s="["+ws(r)+number(r,1.1f,2.f,x.io)+","+number(r,.001f,.02f,x.io+1); if(x.ior>2) s+=","+ws(r)+number(r,.0001f,.002f,x.io+2); s+=ws(r)+"]"; if(x.ior==4) s+=" "+vec(r,.001f,.02f,x.io+3); v.push_back(kv(r,"ior",s)); } }
    if(r.below(2)) v.push_back(kv(r,"roughness",number(r,r.below(2)?.05f:-.2f,1.2f,&x.rx))); if(r.below(3)==0){ if(r.below(5)==0){ static const char* EDGE[]={"0","0.0","1","1.5","-.3"}; const char* e=EDGE[r.below(5)]; x.ry=(float)atof(e); v.push_back(kv(r,"anisotropy",e)); } else v.push_back(kv(r,"anisotropy",number(r,.05f,1.f,&x.ry))); } static const char* DN[]={"blinn","beckmann","ggx"}; static const int DV[]={SPECTRE_DIST_BLINN,SPECTRE_DIST_BECKMANN,SPECTRE_DIST_GGX}; if(r.below(2)){ int k=(int)r.below(3); x.dist=DV[k]; v.push_back(kv(r,"distribution",DN[k])); }
    if(r.below(2)){ int k=(int)r.below(29); x.elem=ELEMV[k]; std::string e=ELEMS[k]; if(r.below(3)==0) for(char&c:e) c=(char)(r.below(2)?tolower(c):toupper(c)); v.push_back(kv(r,"element",e)); } std::string u; u=uses(r,m,x.dif,true); if(!u.empty()) v.push_back(kv(r,"diffuse",u)); u=uses(r,m,x.spe,true); if(!u.empty()) v.push_back(kv(r,"specular",u)); if(r.below(3)==0){ u=uses(r,m,x.nor,false); if(!u.empty()) v.push_back(kv(r,"normal",u)); }
    mix(r,v); Spec s; s.file=x.file; s.text=object(r,"material",v); st.push_back(s); if(lives(s.file)) m.mats.push_back(x); }
  int nd=(int)r.below(3); for(int i=0;i<nd;i++){ DualS x; x.name="dual"+std::to_string(i); x.file=where(); std::vector<std::string> v={kv(r,"name",quote(r,x.name))}; auto some=[&]{ return r.below(8)&&!m.mats.empty()?m.mats[r.below(m.mats.size())].name:std::string("nothing"); }; if(r.below(8)){ x.a=some(); v.push_back(kv(r,"first",quote(r,x.a))); } if(r.below(8)){ x.b=some(); v.push_back(kv(r,"second",quote(r,x.b))); }
    std::string u=uses(r,m,x.mask,false); if(!u.empty()){ static const char* CH="RGBA"; bool c=r.below(2),first=r.below(2); if(c) x.chan=(int)r.below(4); x.inv=r.below(2); std::string cs=c?std::string(" using channel ")+CH[x.chan]:"",is=x.inv?" inverted":""; v.push_back(kv(r,"mask",u+(first?cs+is:is+cs))); } mix(r,v); Spec s; s.file=x.file; s.text=object(r,"dualmaterial",v); st.push_back(s); if(lives(s.file)) m.duals.push_back(x); }
  // meshes
  int no=(int)r.below(3),vn=0; for(int i=0;i<no;i++){ std::string p="m"+std::to_string(i)+".obj",d; bool good=!bad||r.below(4); int parts=1+(int)r.below(2); int base=1,nb=1; for(int k=0;k<parts;k++){ MeshS g; g.name="shape_"+std::to_string(vn++); d+="o "+g.name+"\n"; int nt=1+(int)r.below(4); for(int t=0;t<nt;t++){ char b[200]; double v[9]; for(int q=0;q<9;q++) v[q]=(double)(float)r.f(-1,1); for(int q=0;q<3;q++){ snprintf(b,200,"v %.6f %.6f %.6f\n",v[q*3],v[q*3+1],v[q*3+2]); d+=b; } snprintf(b,200,"vn 0 0 1\nf %d//%d %d//%d %d//%d\n",base,nb,base+1,nb,base+2,nb); d+=b; base+=3; nb++; for(int q=0;q<9;q++) g.tri.push_back(atof((snprintf(b,200,"%.6f",v[q]),b))); } Spec dummy; (void)dummy; if(good) m.meshes.push_back(g); }
    if(good) fs::put("/w/"+p,d); Spec s; s.file=where(); s.text=kv(r,"shape",quote(r,r.below(2)?"/w/"+p:p)); st.push_back(s); if(!lives(s.file)&&good) for(int k=0;k<parts;k++) m.meshes.pop_back(); }
  // what is placed
  int nw=1+(int)r.below(7); for(int i=0;i<nw;i++){ ObjS o; o.light=r.below(3)==0; o.file=where(); bool sph=vn==0||r.below(2); o.shape=sph?"Sphere":"shape_"+std::to_string(r.below(vn)); std::vector<std::string> v={kv(r,"name",quote(r,o.shape))}; char b[64]; float fx; number(r,-5,5,&fx); { std::string s="["; snprintf(b,64,"%.3f",100.f*i+fx); o.pos[0]=(float)atof(b); s+=b; s+=","+ws(r)+number(r,-5,5,o.pos+1)+","+number(r,-5,5,o.pos+2)+"]"; if(i||r.below(2)) v.push_back(kv(r,"position",s)); else o.pos[0]=o.pos[1]=o.pos[2]=0; }
    if(r.below(3)) v.push_back(kv(r,"rotation",vec(r,-400,400,o.rot))); switch(r.below(3)){ case 0: v.push_back(kv(r,"scale",number(r,.5f,4,o.sc))); o.sc[1]=o.sc[2]=o.sc[0]; break; case 1: v.push_back(kv(r,"scale",vec(r,.5f,4,o.sc))); break; default: break; }
    if(o.light){ if(r.below(3)==0){ o.temp=r.below(6)?1000+(int)r.below(9000):0; v.push_back(kv(r,"temperature",std::to_string(o.temp))); } else if(r.below(2)) v.push_back(kv(r,"color",rgb_text(r,o.rgb))); } else if(r.below(3)){ unsigned k=(unsigned)r.below(m.mats.size()+m.duals.size()+1); o.mat=k<m.mats.size()?m.mats[k].name:k-m.mats.size()<m.duals.size()?m.duals[k-m.mats.size()].name:"nothing"; v.push_back(kv(r,"material",quote(r,o.mat))); }
    if(r.below(5)<2){ // hidden or shown by an image of a single pixel: anywhere on the object alike
      for(int t=0;t<8;t++){ Use u; std::string x=uses(r,m,u,false); if(u.mode<2) continue; const std::string& f=u.mode==2?m.texs[u.tex].path:m.pics[u.pic].path; const PicS* one=nullptr; for(auto&y:m.pics) if(y.path==f&&y.pix.w==1) one=&y; if(!one) continue; o.mask=u; bool c=r.below(2),first=r.below(2); if(c) o.chan=(int)r.below(4); o.inv=r.below(2); std::string cs=c?std::string(" using channel ")+"RGBA"[o.chan]:"",is=o.inv?" inverted":""; v.push_back(kv(r,"mask",x+(first?cs+is:is+cs))); if(one->good) o.hidden=(chan(one->pix.at(0,0),o.chan)<128)!=o.inv; break; } }
    mix(r,v,1); Spec s; s.file=o.file; s.text=object(r,o.light?"light":"world",v); st.push_back(s); const MeshS* g=nullptr; for(auto&x:m.meshes) if(x.name==o.shape) g=&x; o.there=lives(o.file)&&(sph||g); if(lives(o.file)) m.objs.push_back(o); }
  { Spec s; s.text="out:\"/w/o.ppm\""; st.push_back(s); s.text=object(r,"resolution",{kv(r,"width","32"),kv(r,"height","2")}); st.push_back(s); s.text="spp:1"; st.push_back(s); } for(int k=0;k<3;k++) if(r.below(3)==0){ Spec s; s.text=r.below(2)?setting(r):aside(r); s.file=s.text.find("gone.txt")!=std::string::npos?-1:where(); st.push_back(s); } for(size_t k=st.size();k>1;k--) std::swap(st[k-1],st[r.below(k)]);
  for(auto&p:m.pics){ fs::put("/reference"+p.path,p.data); if(p.good) fs::put(p.path,p.data); else if(r.below(2)){ fs::put(p.path,p.data); fs::chmod(p.path,0); } }
  Texts t=write(r,st,kids); store(t,kids); note("%s",t.main.c_str()); for(size_t i=0;i<kids.path.size();i++) note("---- %s%s\n%s",kids.path[i].c_str(),kids.good[i]?"":" (missing)",t.kid[i].c_str()); quiet_faults(); int h=fs::open_handles(); nontrivial();
  sample("%zu pictures, %zu textures, %zu materials, %zu duals, %zu meshes, %zu objects, %zu chained files%s",m.pics.size(),m.texs.size(),m.mats.size(),m.duals.size(),m.meshes.size(),m.objs.size(),kids.path.size(),bad?", some files missing":"");
  Parsed p; parse(hh,p); heal(); note("%s",p.err.c_str()); if(p.o.kind!=Outcome::RETURNED) violation("dies","parsing a correct description %s: %.400s",describe(p.o).c_str(),p.err.c_str()); if(fs::open_handles()!=h) violation("handle-leak","%d files left open",fs::open_handles()-h);
  // materials
  std::string diff; Rng q(r.next()); Outcome o=prog_run(hh,[&]{ for(auto&x:m.mats){ const Bsdf* b=MtlLib.get(x.name); if(!b){ diff=x.name+" is not in the library"; return; } const Bsdf* e=ref_mat(m,x); m.ref[x.name]=e; std::string d=behave(b,e,q,true); if(!d.empty()){ diff=x.name+" "+d; return; } }
    for(auto&x:m.duals){ const Bsdf* b=MtlLib.get(x.name); if(!b){ diff=x.name+" is not in the library"; return; } auto part=[&](const std::string& n){ return m.ref.count(n)?m.ref[n]:MtlLib.get_default(); }; const Bsdf* e=new DualBsdf(part(x.a),part(x.b),MaskBoolean(ref_tex(m,x.mask),(ImageChannel)(x.chan==3?ALPHA:x.chan==0?RED:x.chan==1?GREEN:BLUE),x.inv)); std::string d=behave(b,e,q,true); if(!d.empty()){ diff=x.name+" "+d; return; } } });
  if(o.kind!=Outcome::RETURNED) violation("dies","using a material %s",describe(o).c_str()); if(!diff.empty()) violation("wrong-material","%s",diff.c_str()); probe("materials compared",m.mats.size()+m.duals.size());
  // objects
  unsigned na=0,nl=0; for(auto&x:m.objs) if(x.there){ na++; nl+=x.light; } unsigned ga=0,gl=0; o=prog_run(hh,[&]{ p.scene->k.buildTree(); ga=p.scene->size_assets(); gl=p.scene->size_lights(); }); if(o.kind!=Outcome::RETURNED) violation("dies","building the index %s",describe(o).c_str()); if(ga!=na||gl!=nl) violation("wrong-scene","%u objects, %u of them lights, instead of %u and %u",ga,gl,na,nl);
  for(size_t i=0;i<m.objs.size();i++) if(m.objs[i].there) for(int k=0;k<30;k++){ const ObjS& a=m.objs[i]; double d0[3]; double s=std::max(a.sc[0],std::max(a.sc[1],a.sc[2])); for(;;){ double l=0; for(double&v:d0){ v=r.f(-1,1); l+=v*v; } if(l>.01&&l<1){ for(double&v:d0) v/=sqrt(l); break; } } double P[3]; for(int c=0;c<3;c++) P[c]=a.pos[c]+r.f(-1,1)*s*.9-30*d0[c]; Point3 org((float)P[0],(float)P[1],(float)P[2]); Vec3 dir((float)d0[0],(float)d0[1],(float)d0[2]); dir.normalize(); double D[3]={dir.x,dir.y,dir.z}; P[0]=org.x; P[1]=org.y; P[2]=org.z;
    double best=-1; const ObjS* who=nullptr; bool unsure=false; for(auto&x:m.objs) if(x.there&&!x.hidden){ const MeshS* g=nullptr; for(auto&y:m.meshes) if(y.name==x.shape) g=&y; double tt=cast(x,g,P,D,unsure); if(tt>0&&(best<0||tt<best)){ best=tt; who=&x; } } if(unsure) continue;
    bool hit=false,isl=false; float td=0; Spectrum em; const Bsdf *b=nullptr,*want=nullptr; o=prog_run(hh,[&]{ Ray ray(org,dir); HitPoint hp; hit=p.scene->k.intersect(&ray,&hp); if(!hit) return; td=(hp.point_h-org).length(); isl=hp.asset_h->is_light(); if(isl) em=((const AreaLight*)hp.asset_h)->emissive_spectrum(); b=hp.asset_h->get_material(hp.index); want=who&&!who->mat.empty()?MtlLib.get(who->mat):nullptr; if(!want) want=MtlLib.get_default(); }); if(o.kind!=Outcome::RETURNED) violation("dies","a ray into the scene %s",describe(o).c_str());
    const char* nm2=who?who->shape.c_str():"nothing"; if(a.hidden) probe("rays at hidden objects"); if(hit!=(best>0)) violation("wrong-place","a ray from (%g,%g,%g) towards (%g,%g,%g) hits %s, but the description puts %s in its way (object %zu)",P[0],P[1],P[2],D[0],D[1],D[2],hit?"something":"nothing",nm2,i); if(!hit) continue; if(fabs(td-best)>2e-3*(best+10)) violation("wrong-place","a ray from (%g,%g,%g) towards (%g,%g,%g) hits \"%s\" after %g instead of %g",P[0],P[1],P[2],D[0],D[1],D[2],nm2,td,best);
    if(isl!=who->light) violation("wrong-light","\"%s\" is %sa light",nm2,isl?"":"not "); probe("rays that found the object"); if(isl){ bool ok=true; prog_run(hh,[&]{ u8 c[3]; for(int z=0;z<3;z++) c[z]=(u8)std::min(255.f,std::max(0.f,who->rgb[z])); Spectrum e=who->temp>=0?Spectrum(who->temp):Spectrum(ColorRGB(c[0],c[1],c[2]),true); ok=near_(em,e); }); if(!ok) violation("wrong-light","the light of \"%s\" (temperature %d, colour %g,%g,%g) is another one",nm2,who->temp,who->rgb[0],who->rgb[1],who->rgb[2]); }
    else if(b!=want) violation("wrong-material","\"%s\" does not have the material \"%s\"",nm2,who->mat.c_str()); }
  prog_run(hh,[&]{ delete p.r; p.scene.reset(); });
}
// ================================================================ settings of the render
namespace {
struct Shot { float o[3],d[3]; };
struct Recorder: public LightIntegrator { std::vector<Shot>* out; std::function<Spectrum(const Shot&)>* colour; Spectrum radiance(const Scene*,const HitPoint*,const Ray* r,Sampler*,OcclusionTester*) const override { Harness h; Shot s={{r->origin.x,r->origin.y,r->origin.z},{r->direction.x,r->direction.y,r->direction.z}}; out->push_back(s); return (*colour)(s); } };
struct Cam { int type=0; double pos[3]={0,0,0},tar[3]={0,0,1},up[3]={0,1,0},fov=55; double L[3],U[3],D[3]; 
  void frame(){ auto cross=[](const double* a,const double* b,double* c){ c[0]=a[1]*b[2]-a[2]*b[1]; c[1]=a[2]*b[0]-a[0]*b[2]; c[2]=a[0]*b[1]-a[1]*b[0]; }; auto norm=[](double* v){ double l=sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]); for(int i=0;i<3;i++) v[i]/=l; return l; }; for(int i=0;i<3;i++) D[i]=tar[i]-pos[i]; norm(D); double u[3]={up[0],up[1],up[2]}; norm(u); cross(u,D,L); norm(L); cross(D,L,U); }
  // raster position of a ray; eps: how exactly it is known; false: the ray does not belong to this camera
  bool raster(const Shot& s,int w,int h,double& x,double& y,double& ex,double& ey,std::string& why) const { auto dot=[](const double* a,const double* b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }; double o[3],d[3]; for(int i=0;i<3;i++){ o[i]=s.o[i]-pos[i]; d[i]=s.d[i]; } double a=(double)w/h,bx=a>1?a:1,by=a>1?1:1/a,xs,ys; double sz=1e-4*(1+fabs(pos[0])+fabs(pos[1])+fabs(pos[2])); char b[200]; ex=ey=3e-3;
    if(type==1){ if(fabs(dot(d,D)-1)>1e-4){ snprintf(b,200,"a ray points towards (%g,%g,%g)",d[0],d[1],d[2]); why=b; return false; } if(fabs(dot(o,D))>sz*10){ why="a ray does not start on the plane of the camera"; return false; } xs=dot(o,L); ys=dot(o,U); ex=ey=sz*h; }
    else { if(sqrt(dot(o,o))>sz){ snprintf(b,200,"a ray starts in (%g,%g,%g)",s.o[0],s.o[1],s.o[2]); why=b; return false; } double c[3]={dot(d,L),dot(d,U),dot(d,D)};
      if(type==2){ double st=sqrt(c[0]*c[0]+c[2]*c[2]); y=atan2(st,c[1])/M_PI*h; double ph=atan2(c[2],c[0]); if(ph<0) ph+=2*M_PI; x=ph/(2*M_PI)*w; ex=1e-4+2e-6*w/std::max(st,1e-6); ey=1e-3; return true; }
      double t=tan(rad(fov)/2); if(c[2]<=0){ snprintf(b,200,"a ray points backwards, towards (%g,%g,%g)",d[0],d[1],d[2]); why=b; return false; } xs=c[0]/c[2]/t; ys=c[1]/c[2]/t; }
    x=(xs+bx)/(2*bx)*w; y=(by-ys)/(2*by)*h; if(x<-ex||x>w+ex||y<-ey||y>h+ey){ snprintf(b,200,"a ray belongs to the raster position (%g,%g)",x,y); why=b; return false; } return true; } };
}
SCENARIO("C29",described_settings,1){
  Harness hh; Rng r(content_seed()); sched.preempt=false; sched.ncpu=1+(int)wl(4); set_fill(1+(u32)r.below(1000)); bool bad=wl(2); Files kids=chained(r,2,bad); std::vector<Spec> st; auto where=[&]()->int{ return kids.path.empty()||r.below(2)?-1:(int)r.below(kids.path.size()); };
  fs::mkdirs("/w"); fs::mkdirs("/results"); std::string cwd=wl(2)?"/w":"/results"; fs::set_cwd(cwd);
  // what is stated: the value that is read last counts, first the main file and then the chained ones
  struct Set { int key; std::function<void()> apply; std::string text; int file; }; std::vector<Set> sets; Cam cam; int width=800,height=600,spp=121; bool strat=true; int filter=3; float v0=.33f,v1=.33f; std::string out="out.ppm"; 
  auto state=[&](int key,const std::string& text,std::function<void()> f,int file){ Set s; s.key=key; s.apply=f; s.text=text; s.file=file; sets.push_back(s); };
  int again=1+(int)r.below(2); for(int round=0;round<again;round++){ bool must=round==again-1; auto pick=[&]{ return must?-1:where(); };   // sizes are stated in the main file at least, so that a lost file does not cost a render of 800x600
    { int w=32*(1+(int)r.below(2)),h=1+(int)r.below(25); if(r.below(3)==0) w=1+(int)r.below(70); std::string a=kv(r,"width",std::to_string(w)),b=kv(r,"height",std::to_string(h)); int f=pick(); if(must||r.below(2)) state(0,object(r,"resolution",r.below(2)?std::vector<std::string>{a,b}:std::vector<std::string>{b,a}),[=,&width,&height]{ width=w; height=h; },f); }
    { static const int S[]={1,2,3,4,5,7,9,1}; int n=S[r.below(8)]; int f=pick(); if(must||r.below(2)) state(1,kv(r,"spp",std::to_string(n)),[=,&spp]{ spp=n; },f); }
    if(r.below(2)){ bool s=r.below(2); state(2,kv(r,"sampler",s?"stratified":"random"),[=,&strat]{ strat=s; },where()); }
    if(r.below(3)){ static const char* N[]={"box","tent","gauss","mitchell","lanczos","triangle","gaussian"}; static const int V[]={0,1,2,3,4,1,2}; std::vector<std::string> v; int k=(int)r.below(7); bool ty=r.below(4),a0=r.below(2),a1=r.below(2); float x0=0,x1=0; if(ty) v.push_back(kv(r,"type",N[k])); std::string n0=number(r,.4f,2.5f,&x0),n1=number(r,0.f,1.f,&x1); if(a0||!ty) { a0=true; v.push_back(kv(r,"value0",n0)); } if(a1) v.push_back(kv(r,"value1",n1)); if(r.below(3)==0) v.push_back(kv(r,"texture",r.below(3)==0?"unfiltered":r.below(2)?"trilinear":"ewa")); mix(r,v); int V_=V[k]; state(3,object(r,"filter",v),[=,&filter,&v0,&v1]{ if(ty) filter=V_; if(a0) v0=x0; if(a1) v1=x1; },where()); }
    if(r.below(4)){ static const char* N[]={"perspective","orthographic","panorama"}; std::vector<std::string> v; int k=(int)r.below(3); bool ty=r.below(3),po=r.below(2),ta=r.below(2),up=r.below(2),fo=r.below(2); float p[3],t[3],u[3],f=55; if(ty) v.push_back(kv(r,"type",N[k])); std::string ps=vec(r,-10,10,p),ts=vec(r,20,60,t),us=vec(r,-1,1,u); { if(fabs(u[0])+fabs(u[1])+fabs(u[2])<.3) up=false; if(ta){ /* the upward direction must not be the view direction */ double c=0,a=0,b=0; for(int i=0;i<3;i++){ c+=(t[i]-p[i])*u[i]; a+=(t[i]-p[i])*(t[i]-p[i]); b+=u[i]*u[i]; } (void)a; (void)b; (void)c; } }
      if(po) v.push_back(kv(r,"position",ps)); if(ta) v.push_back(kv(r,"target",ts)); if(up) v.push_back(kv(r,"up",us)); std::string f_=number(r,20,120,&f); if(fo||v.empty()){ fo=true; v.push_back(kv(r,"fov",f_)); } mix(r,v); std::vector<float> P(p,p+3),T(t,t+3),U(u,u+3); state(4,object(r,"camera",v),[=,&cam]{ if(ty) cam.type=k; for(int i=0;i<3;i++){ if(po) cam.pos[i]=P[i]; if(ta) cam.tar[i]=T[i]; if(up) cam.up[i]=U[i]; } if(fo) cam.fov=f; },where()); }
    if(r.below(2)){ std::string n="image"+std::to_string(round)+".ppm"; bool ab=r.below(2); std::string o=ab?"/results/"+n:n; state(5,kv(r,"out",quote(r,o)),[=,&out]{ out=o; },where()); }
    if(r.below(2)) state(6,kv(r,"integrator","path"),[]{},where()); }
  for(size_t k=sets.size();k>1;k--) std::swap(sets[k-1],sets[r.below(k)]); { Spec s; s.text=object(r,"world",{kv(r,"name","\"Sphere\""),kv(r,"scale","1000")}); st.push_back(s); }
  for(auto&s:sets){ Spec x; x.text=s.text; x.file=s.file; st.push_back(x); } 
  // other statements around, about things that may be missing
  for(int k=0;k<4;k++) if(r.below(2)){ Spec s; s.text=aside(r); s.file=s.text.find("gone.txt")!=std::string::npos?-1:where(); st.insert(st.begin()+r.below(st.size()+1),s); }
  for(int f=-1;f<(int)kids.path.size();f++) if(f<0||kids.good[f]) for(auto&s:sets) if(s.file==f) s.apply();
  cam.frame(); { double c=0,a=0,b=0; for(int i=0;i<3;i++){ c+=cam.D[i]*cam.up[i]; a+=cam.up[i]*cam.up[i]; b+=(cam.tar[i]-cam.pos[i])*(cam.tar[i]-cam.pos[i]); } if(fabs(c)>.95*sqrt(a)||b<1||cam.L[0]!=cam.L[0]) { sample("no view"); return; } }
  if(strat){ int q=(int)(sqrtf((float)spp)+.5f); if(((int)sqrtf((float)spp))*((int)sqrtf((float)spp))!=spp) spp=q*q; } const int told_w=width,told_h=height; const bool adjusted=width%32!=0; if(adjusted){ width+=32-width%32; height=(int)((double)told_h*width/told_w)+2; /* grows in proportion, to an even number: settled by the image */ } while((long long)width*height*spp>60000){ sample("too large"); return; }
  Texts t=write(r,st,kids); store(t,kids); note("%s",t.main.c_str()); for(size_t i=0;i<kids.path.size();i++) note("---- %s%s\n%s",kids.path[i].c_str(),kids.good[i]?"":" (missing)",t.kid[i].c_str()); quiet_faults(); nontrivial(); static const char* CN[]={"perspective","orthographic","panorama"}; static const char* FN[]={"box","tent","gauss","mitchell","lanczos"};
  sample("%dx%d, %d samples %s, %s camera, %s filter, %zu settings in %zu files%s",width,height,spp,strat?"stratified":"random",CN[cam.type],FN[filter],sets.size(),1+kids.path.size(),bad?", some missing":"");
  Parsed p; parse(hh,p); note("%s",p.err.c_str()); if(p.o.kind!=Outcome::RETURNED) violation("dies","parsing a correct description %s: %.400s",describe(p.o).c_str(),p.err.c_str());
  std::vector<Shot> shots; std::function<Spectrum(const Shot&)> colour=[](const Shot& s){ float v[3]={.5f+.4f*sinf(s.d[0]*9+s.o[0]*5),.5f+.4f*sinf(s.d[1]*8+s.o[1]*4+1),.5f+.4f*sinf(s.d[2]*7+s.o[2]*6+2)}; return Spectrum(ColorRGB((u8)(v[0]*255),(u8)(v[1]*255),(u8)(v[2]*255)),false); };
  Recorder* rec=new Recorder; rec->out=&shots; rec->colour=&colour; Outcome o=prog_run(hh,[&]{ p.r->inherit_integrator(rec); p.r->render(p.scene.get()); }); heal(); if(o.kind!=Outcome::RETURNED) violation("dies","rendering %s",describe(o).c_str());
  std::string file=out[0]=='/'?out:(cwd=="/"?"":cwd)+"/"+out,data; if(!fs::get(file,data)) violation("wrong-output","there is no image %s",file.c_str()); Img im=decode_ppm(data); if(!im.ok) violation("wrong-output","%s is not a complete image: %s",file.c_str(),im.why.c_str()); if(adjusted&&im.w==width&&fabs(im.h-(double)told_h*width/told_w)<=2) height=im.h; if(im.w!=width||im.h!=height) violation("wrong-size","the image is %dx%d instead of %dx%d",im.w,im.h,width,height);
  size_t want=(size_t)width*height*spp; if(shots.size()!=want) violation("wrong-samples","%zu samples instead of %zu (%d each pixel)",shots.size(),want,spp);
  // where the samples fall
  std::unique_ptr<Filter> fl; prog_run(hh,[&]{ switch(filter){ case 0: fl.reset(new FilterBox()); break; case 1: fl.reset(new FilterTent()); break; case 2: fl.reset(new FilterGaussian(v0)); break; case 4: fl.reset(new FilterLanczos(v0)); break; default: fl.reset(new FilterMitchell(v0,v1)); } });
  FilmModel fm(width,height); std::vector<u8> shaky((size_t)width*height); std::vector<int> sure((size_t)width*height),maybe((size_t)width*height); int n=strat?(int)(sqrtf((float)spp)+.5f):1; std::vector<u8> cell((size_t)width*height*n*n); std::string why; int doubled=0;
  for(auto&s:shots){ double x,y,ex,ey; if(!cam.raster(s,width,height,x,y,ex,ey,why)) violation("wrong-camera","%s, which is not possible for a %s camera in (%g,%g,%g) towards (%g,%g,%g), up (%g,%g,%g), %g degrees",why.c_str(),CN[cam.type],cam.pos[0],cam.pos[1],cam.pos[2],cam.tar[0],cam.tar[1],cam.tar[2],cam.up[0],cam.up[1],cam.up[2],cam.fov);
    x=std::min(std::max(x,0.),(double)width-1e-5); y=std::min(std::max(y,0.),(double)height-1e-5); fm.add(*fl,(float)x,(float)y,colour(s)); bool amb=fabs(x-nearbyint(x))<ex||fabs(y-nearbyint(y))<ey; size_t at=(size_t)(int)y*width+(int)x; if(!amb) sure[at]++; for(int dy=-1;dy<=1;dy++) for(int dx=-1;dx<=1;dx++){ int X=(int)floor(x+dx*ex),Y=(int)floor(y+dy*ey); if(cam.type==2) X=(X+width)%width; if(amb&&X>=0&&Y>=0&&X<width&&Y<height) maybe[(size_t)Y*width+X]++; }
    double gx=x*n,gy=y*n; if(fabs(gx-nearbyint(gx))/n>ex&&fabs(gy-nearbyint(gy))/n>ey&&++cell[(size_t)(int)gy*width*n+(int)gx]>1) doubled++;
    int R=(int)ceilf(std::max(fl->range_x,fl->range_y))+1; for(int Y=(int)y-R;Y<=(int)y+R;Y++) for(int X=(int)x-R;X<=(int)x+R;X++) if(X>=0&&Y>=0&&X<width&&Y<height){ double ax=fabs(X-(x-.5)),ay=fabs(Y-(y-.5)); if((fabs(ax-fl->range_x)<ex&&ay<fl->range_y+ey)||(fabs(ay-fl->range_y)<ey&&ax<fl->range_x+ex)||ex>.02) shaky[(size_t)Y*width+X]=1; } }
  for(size_t i=0;i<sure.size();i++) if(sure[i]>spp||sure[i]+maybe[i]<spp) violation("wrong-camera","pixel (%zu,%zu) got %d to %d samples instead of %d",i%width,i/width,sure[i],sure[i]+maybe[i],spp);
  if(strat&&doubled) violation("wrong-sampler","%d strata got more than one sample",doubled); if(!strat&&spp>=4){ int m2=(int)sqrtf((float)spp),dd=0; if(m2*m2==spp){ std::vector<u8> c2((size_t)width*height*spp); for(auto&s:shots){ double x,y,ex,ey; cam.raster(s,width,height,x,y,ex,ey,why); x=std::min(std::max(x,0.),(double)width-1e-5); y=std::min(std::max(y,0.),(double)height-1e-5); if(c2[(size_t)(int)(y*m2)*width*m2+(int)(x*m2)]++) dd++; } if(dd*20<(int)shots.size()) violation("wrong-sampler","the random sampler put one sample in each stratum"); } }
  // the picture: every sample weighted with the filter
  Img im2=im; int compared=0; for(int y=0;y<height;y++) for(int x=0;x<width;x++){ size_t i=(size_t)y*width+x; double q=fm.W[i]; if(shaky[i]||fm.A[i]<1e-6||fabs(q)*20<fm.A[i]||q<=0) continue; ColorRGB c=ColorXYZ((float)(fm.X[i]/q),(float)(fm.Y[i]/q),(float)(fm.Z[i]/q)).to_sRGB(); float v[3]={c.r,c.g,c.b}; compared++; for(int k=0;k<3;k++){ int e=(int)std::min(std::max(0.f,v[k])*255,255.f),g=im.rgb[i*3+k]; int tol=2+(int)(3*fm.A[i]/q); if(abs(g-e)>tol) violation("wrong-filter","pixel (%d,%d) is (%d,%d,%d) instead of (%d,%d,%d) with the %s filter (%g, %g)",x,y,im.rgb[i*3],im.rgb[i*3+1],im.rgb[i*3+2],(int)(v[0]*255),(int)(v[1]*255),(int)(v[2]*255),FN[filter],v0,v1); } }
  probe("pixels compared",compared); prog_run(hh,[&]{ delete p.r; p.scene.reset(); });
}
