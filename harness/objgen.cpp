#include "objgen.hpp"
namespace hx {
static std::string num(Rng& r,float v,int style){ char b[64]; switch(style){ case 0: snprintf(b,64,"%.6f",v); break; case 1: snprintf(b,64,"%g",v); break; case 2: snprintf(b,64,"%.3e",v); break; case 3: snprintf(b,64,"%+.4f",v); break; case 4: snprintf(b,64,"%.9g",v); break; case 5: { snprintf(b,64,"%.5f",v); std::string s=b; if(s.compare(0,2,"0.")==0) s=s.substr(1); else if(s.compare(0,3,"-0.")==0) s="-"+s.substr(2); return s; } case 6: snprintf(b,64,"%.15f",v); break; default: snprintf(b,64,"%.2f",v); break; } return b; }
namespace { struct W { Rng& r; std::string d; int eol; int seps; int trail; int noise; int lead; int nstyle; size_t lineno=1;
  std::string sep(){ if(!seps) return " "; switch(r.below(6)){ case 0: return "\t"; case 1: return "  "; case 2: return " \t "; case 3: { if(r.below(20)==0) return std::string(1+r.below(300),' '); return "   "; } default: return " "; } }
  void nl(){ if(trail&&r.below(trail)==0) d+=r.below(2)?" ":" \t "; d+=(eol==1||(eol==2&&r.below(2)))?"\r\n":"\n"; }
  void start(){ if(lead&&r.below(lead)==0) d+=r.below(2)?" ":"\t"; }
  void filler(){ while(noise&&r.below(noise)==0) switch(r.below(8)){ case 0: d+="# a comment o f v usemtl"; nl(); break; case 1: nl(); break; case 2: d+="s "+std::string(r.below(2)?"off":"1"); nl(); break; case 3: { d+="#"; size_t n=r.below(r.below(10)?120:6000); for(size_t i=0;i<n;i++) d+=" abcfgouv#/.-0123456789"[r.below(23)]; nl(); break; } case 4: d+="mtllib some.mtl"; nl(); break; case 5: d+="vp 0.5 0.25"; nl(); break; case 6: d+="#"; nl(); break; default: start(); d+="l 1 2"; nl(); break; } }
  float val(float v){ std::string s=num(r,v,nstyle<8?nstyle:(int)r.below(8)); d+=s; return strtof(s.c_str(),nullptr); }
}; }
ObjFile make_obj(Rng& r,const std::vector<std::string>& mats,int pad,int size){
  ObjFile f; W w{r,"",0,0,0,0,0,0}; w.eol=r.below(3)?0:1+(int)r.below(2); w.seps=r.below(3)==0; w.trail=r.below(3)?0:1+(int)r.below(6); w.noise=r.below(3)?0:2+(int)r.below(8); w.lead=r.below(4)?0:1+(int)r.below(8); w.nstyle=(int)r.below(9);
  std::vector<std::array<float,3>> V,N; std::vector<std::array<float,2>> T;
  if(pad>0){ w.d+="#"; for(int i=1;i<pad;i++) w.d+='x'; w.nl(); }
  int nmesh=size==0?(int)r.below(4):1+(int)r.below(size>2?6:4); bool anon=r.below(8)==0; if(anon) nmesh=1; bool groups=!anon&&r.below(4)==0; bool gnoise=!anon&&!groups&&r.below(3)==0; bool usedmtl=false; int cell=0; bool early=!anon&&r.below(6)==0; // faces before the first name
  int layout=(int)r.below(3); // 0 data before each face, 1 at object start, 2 all at file start
  struct Poly { int k; std::vector<std::array<float,3>> p; std::vector<std::array<float,2>> t; bool hast,hasn; std::vector<std::array<float,3>> n; bool onen; std::vector<int> vi,ti,ni; };
  std::vector<std::vector<Poly>> P(nmesh);
  for(auto& m:P){ int faces=size==1?1+(int)r.below(6):size==2?1+(int)r.below(60):1+(int)r.below(600); if(r.below(9)==0) faces=0; if(anon&&!faces) faces=1; for(int i=0;i<faces;i++){ Poly q; q.k=r.below(3)?3:r.below(3)?4:5+(int)r.below(r.below(10)?3:12); int c=cell++; float cx=(float)(c%13)*4-24,cy=(float)(c/13%13)*4-24,cz=(float)(c/169)*4-8; Vec3 a(r.f(-1,1),r.f(-1,1),r.f(-1,1)); if(a.length()<0.2f) a=Vec3(0,0,1); a.normalize(); Vec3 h=fabsf(a.x)<0.6f?Vec3(1,0,0):Vec3(0,1,0); Vec3 u=cross(a,h); u.normalize(); Vec3 v=cross(a,u); float rad=r.f(0.4f,1.4f),ph=r.f(0,6.28f); for(int j=0;j<q.k;j++){ float g=ph+6.2831853f*(j+0.6f*(float)r.unit()-0.3f)/q.k; float x=cosf(g)*rad,y=sinf(g)*rad; q.p.push_back({cx+u.x*x+v.x*y,cy+u.y*x+v.y*y,cz+u.z*x+v.z*y}); q.t.push_back({r.f(-2,2),r.f(-2,2)}); Vec3 n=a+Vec3(r.f(-.5f,.5f),r.f(-.5f,.5f),r.f(-.5f,.5f)); n.normalize(); q.n.push_back({n.x,n.y,n.z}); } q.hast=r.below(3)!=0; q.hasn=r.below(3)!=0; q.onen=r.below(4)==0; m.push_back(q); } }
  auto data=[&](Poly& q){ // writes the vertex data of a polygon
    int st=(int)r.below(3); auto wv=[&](int j){ w.filler(); w.start(); w.d+="v"; std::array<float,3> a; for(int k=0;k<3;k++){ w.d+=w.sep(); a[k]=w.val(q.p[j][k]); } w.nl(); V.push_back(a); q.vi.push_back((int)V.size()-1); };
    auto wt=[&](int j){ if(!T.empty()&&r.below(5)==0){ q.ti.push_back((int)r.below(T.size())); return; } w.filler(); w.start(); w.d+="vt"; std::array<float,2> a; for(int k=0;k<2;k++){ w.d+=w.sep(); a[k]=w.val(q.t[j][k]); } w.nl(); T.push_back(a); q.ti.push_back((int)T.size()-1); };
    auto wn=[&](int j){ if(q.onen&&j){ q.ni.push_back(q.ni[0]); return; } w.filler(); w.start(); w.d+="vn"; std::array<float,3> a; for(int k=0;k<3;k++){ w.d+=w.sep(); a[k]=w.val(q.n[j][k]); } w.nl(); N.push_back(a); q.ni.push_back((int)N.size()-1); };
    if(st==0){ for(int j=0;j<q.k;j++){ wv(j); if(q.hast) wt(j); if(q.hasn) wn(j); } } else { for(int j=0;j<q.k;j++) wv(j); if(q.hast) for(int j=0;j<q.k;j++) wt(j); if(q.hasn) for(int j=0;j<q.k;j++) wn(j); } };
  if(layout==2) for(auto&m:P) for(auto&q:m) data(q);
  int serial=0; int curmat=-1; std::vector<int> midx; for(size_t i=0;i<mats.size();i++) f.mats.push_back(mats[i]);
  for(int mi=0;mi<nmesh;mi++){
    auto name=[&]{ std::string s; if(r.below(12)==0){ size_t n=1+r.below(254); for(size_t i=0;i<n;i++) s+="abcdefghijklmnopqrstuvwxyz0123456789_.-"[r.below(39)]; s[0]='N'; char b[16]; snprintf(b,16,"%d",serial++); s=s.substr(0,240)+b; } else { char b[32]; snprintf(b,32,"%s%d",r.below(2)?"obj":"o.",serial++); s=b; } return s; };
    ObjMesh m; bool named=!anon;
    if(named&&r.below(10)==0&&!(early&&mi==0)){ w.filler(); w.d+=groups?"g":"o"; w.d+=w.sep()+name(); w.nl(); } // an object without faces
    size_t at=(early&&mi==0)?P[mi].size()?1+r.below(P[mi].size()):0:0; bool pending=named; 
    auto emit_name=[&]{ w.filler(); m.name=name(); w.start(); w.d+=groups?"g":"o"; w.d+=w.sep()+m.name; w.nl(); pending=false; if(gnoise&&r.below(2)){ w.d+="g"+w.sep()+"grp"; w.nl(); } };
    if(at==0&&pending) emit_name(); if(anon) m.name="Unnamed";
    if(layout==1) for(auto&q:P[mi]) data(q);
    curmat=-1; bool first=true;
    for(size_t i=0;i<P[mi].size();i++){ if(pending&&i==at) emit_name(); Poly& q=P[mi][i]; if(layout==0) data(q); if(gnoise&&!pending&&r.below(20)==0){ w.d+="g"+w.sep()+"other"; w.nl(); }
      if(!mats.empty()&&((first&&usedmtl)||r.below(4)==0)){ int k=(int)r.below(mats.size()); w.filler(); w.start(); w.d+="usemtl"+w.sep()+mats[k]; w.nl(); curmat=k; usedmtl=true; }
      first=false; w.filler(); w.start(); w.d+="f"; int form=(q.hast?1:0)|(q.hasn?2:0); bool rel=r.below(3)==0; for(int j=0;j<q.k;j++){ w.d+=w.sep(); char b[80]; auto ix=[&](int i,size_t n){ return rel?i-(int)n:i+1; }; int v=ix(q.vi[j],V.size()); switch(form){ case 0: snprintf(b,80,"%d",v); break; case 1: snprintf(b,80,"%d/%d",v,ix(q.ti[j],T.size())); break; case 2: snprintf(b,80,"%d//%d",v,ix(q.ni[j],N.size())); break; default: snprintf(b,80,"%d/%d/%d",v,ix(q.ti[j],T.size()),ix(q.ni[j],N.size())); } w.d+=b; } w.nl();
      float fn[3]; { double e[3],g[3]; for(int k=0;k<3;k++){ e[k]=(double)V[q.vi[1]][k]-V[q.vi[0]][k]; g[k]=(double)V[q.vi[2]][k]-V[q.vi[0]][k]; } double c[3]={e[1]*g[2]-e[2]*g[1],e[2]*g[0]-e[0]*g[2],e[0]*g[1]-e[1]*g[0]}; double l=sqrt(c[0]*c[0]+c[1]*c[1]+c[2]*c[2]); for(int k=0;k<3;k++) fn[k]=(float)(l>0?c[k]/l:0); }
      for(int j=2;j<q.k;j++){ ObjTri t; int id[3]={0,j-1,j}; for(int a=0;a<3;a++){ for(int k=0;k<3;k++){ t.p[a][k]=V[q.vi[id[a]]][k]; t.n[a][k]=q.hasn?N[q.ni[id[a]]][k]:fn[k]; } static const float D[3][2]={{0,0},{1,0},{1,1}}; for(int k=0;k<2;k++) t.t[a][k]=q.hast?T[q.ti[id[a]]][k]:D[a][k]; } t.mat=curmat; t.end=w.d.size(); m.tris.push_back(t); } }
    if(pending&&P[mi].size()) emit_name();
    if(!m.tris.empty()) f.meshes.push_back(m);
    else if(mi+1<nmesh) early=false; }
  if(r.below(3)==0) w.filler();
  bool cut=r.below(2)==0; if(cut) while(!w.d.empty()&&(w.d.back()=='\n'||w.d.back()=='\r')) w.d.pop_back();
  for(auto&m:f.meshes) for(auto&t:m.tris) t.end=std::min(t.end,w.d.size());
  f.data=w.d; char b[200]; size_t nt=0; for(auto&m:f.meshes) nt+=m.tris.size(); snprintf(b,200,"%zu bytes, %zu meshes, %zu triangles%s%s%s%s",f.data.size(),f.meshes.size(),nt,w.eol?", CRLF":"",cut?", last line open":"",groups?", groups":anon?", no names":early?", faces before names":"",w.seps?", odd separators":""); f.what=b; return f; }
std::string damage_obj(const std::string& d0,Rng& r,std::string& what){ std::string d=d0; int n=1+(int)r.below(r.below(3)?3:40); static const char* TOK[]={"1e39","-1e39","nan","inf","-inf","1e38","-1e38","99999999999","-99999999999","0","-1","1/","//1","1/1/1/1","/","usemtl","o","f","v","vn","vt","g","1e-45","2147483647","-2147483648","4294967297","f 1 1 1","f 1 2 3"};
  for(int i=0;i<n&&!d.empty();i++){ size_t at=r.below(d.size()); switch(r.below(10)){ case 0: d[at]=(char)r.next(); break; case 1: d[at]=(char)(d[at]^(1<<r.below(8))); break; case 2: { size_t k=std::min<size_t>(d.size()-at,1+r.below(40)); d.erase(at,k); break; } case 3: { size_t k=std::min<size_t>(d.size()-at,1+r.below(200)); d.insert(r.below(d.size()),d.substr(at,k)); break; } case 4: { size_t a=d.find_first_of(" \t",at); if(a==std::string::npos) break; size_t b=d.find_first_of(" \t\r\n",a+1); if(b==std::string::npos) b=d.size(); d.replace(a+1,b-a-1,TOK[r.below(28)]); break; } case 5: { size_t a=d.find('\n',at); if(a!=std::string::npos) d.insert(a+1,std::string(TOK[r.below(28)])+(r.below(2)?"\n":" ")); break; } case 6: { size_t a=d.find('\n',at); if(a!=std::string::npos) d.erase(a,1); break; } case 7: { size_t k=1+r.below(r.below(5)?20:9000); d.insert(at,std::string(k,"\0 \nxf/9-\xff\r"[r.below(10)])); break; } case 8: { size_t k=std::min<size_t>(d.size()-at,1+r.below(100)); for(size_t j=0;j<k;j++) d[at+j]=0; break; } default: { size_t a=d.find_first_of(" \t",at); if(a==std::string::npos) break; size_t b=d.find_first_of(" \t\r\n",a+1); if(b==std::string::npos) b=d.size(); d.replace(a+1,b-a-1,TOK[r.below(8)]); break; } } }
  if(r.below(4)==0&&!d.empty()) d.resize(r.below(d.size())); char b[40]; snprintf(b,40,"%d damages",n); what=b; return d; }
}
