// Mesh files: complete import on healthy storage, failing and damaged files.
#include "objgen.hpp"
#include "faulty.hpp"
#include "parsers/parser_obj.hpp"
using namespace hx;
static const char* ext_err(){ return "ERROR"; }
static size_t errors_since(u64 mark){ std::string s=err_text().substr((size_t)mark); size_t n=0,p=0; while((p=s.find(ext_err(),p))!=std::string::npos){ n++; p+=5; } return n; }
struct Mats { std::vector<std::string> names; std::vector<const Bsdf*> bsdf; }; // bsdf null: not registered
static Mats setup_mats(Rng& r){ Mats m; int n=(int)r.below(6); for(int i=0;i<n;i++){ char b[32]; snprintf(b,32,"mat%d",i); std::string s=b; if(r.below(20)==0) s+=std::string(1+r.below(200),'q'); m.names.push_back(s); if(r.below(4)){ Bsdf* x; { Harness h; } x=new SingleBRDF(new Lambertian()); MtlLib.add_inherit(s,x); m.bsdf.push_back(x); } else m.bsdf.push_back(nullptr); } if(n&&r.below(3)==0){ m.names.push_back("Default"); m.bsdf.push_back(nullptr); } return m; }
struct Got { std::string name; Mesh* mesh=nullptr; std::vector<const Bsdf*> mats; std::vector<unsigned char> assoc; unsigned faces=0; ~Got(){ delete mesh; } Got(){} Got(const Got&)=delete; };
// one import the way the program does it; stops after lim meshes
static bool import(ParserObj& p,const char* path,std::vector<std::unique_ptr<Got>>& out,size_t lim,bool end){
  p.start_parsing(path); bool more=true; size_t n=0; while(true){ if(n++>=lim){ more=true; break; } std::unique_ptr<Got> g(new Got); g->mesh=new Mesh(1); if(!p.get_next_mesh(g->mesh)){ more=false; break; } g->faces=p.get_face_no(); g->name=p.get_mesh_name(); g->mats.resize(p.get_material_no()); p.get_materials(g->mats.data()); g->assoc.resize(g->faces); p.get_material_association(g->assoc.data()); out.push_back(std::move(g)); }
  if(end) p.end_parsing(); return more; }
static void vcross(const double* a,const double* b,double* c){ c[0]=a[1]*b[2]-a[2]*b[1]; c[1]=a[2]*b[0]-a[0]*b[2]; c[2]=a[0]*b[1]-a[1]*b[0]; }
// "" or what differs
static std::string compare_mesh(Harness& hh,Got& g,const ObjMesh& m,const Mats& mats,Rng& r){
  char b[512]; if(g.name!=m.name){ return "name '"+g.name+"' instead of '"+m.name+"'"; }
  if(g.faces!=m.tris.size()||(size_t)g.mesh->get_faces_number()!=m.tris.size()){ snprintf(b,512,"%u faces reported, %d in the mesh, %zu written",g.faces,g.mesh->get_faces_number(),m.tris.size()); return b; }
  float lo[3]={INFINITY,INFINITY,INFINITY},hi[3]={-INFINITY,-INFINITY,-INFINITY}; for(auto&t:m.tris) for(int a=0;a<3;a++) for(int k=0;k<3;k++){ lo[k]=std::min(lo[k],t.p[a][k]); hi[k]=std::max(hi[k],t.p[a][k]); }
  AABB box=g.mesh->compute_AABB(); float bl[3]={box.bounds[0].x,box.bounds[0].y,box.bounds[0].z},bh[3]={box.bounds[1].x,box.bounds[1].y,box.bounds[1].z}; for(int k=0;k<3;k++) if(bl[k]!=lo[k]||bh[k]!=hi[k]){ snprintf(b,512,"bounding box [%g,%g] on axis %d instead of [%g,%g]",bl[k],bh[k],k,lo[k],hi[k]); return b; }
  for(size_t i=0;i<m.tris.size();i++){ const Bsdf* want=m.tris[i].mat<0?nullptr:mats.bsdf[m.tris[i].mat]; if(!want) want=MtlLib.get_default(); if(g.assoc[i]>=g.mats.size()||g.mats[g.assoc[i]]!=want){ snprintf(b,512,"face %zu has material entry %d of %zu, not the one written (%s)",i,g.assoc[i],g.mats.size(),m.tris[i].mat<0?"default":mats.names[m.tris[i].mat].c_str()); return b; } }
  // through the eyes of a user: rays onto the faces
  Matrix4 id; id.set_identity(); std::unique_ptr<Asset> as; std::string res; Outcome o=prog_run(hh,[&]{ as.reset(new Asset(g.mesh,id,(unsigned char)g.mats.size())); as->set_materials(g.mats.data(),(unsigned char)g.mats.size(),g.assoc.data()); }); if(o.kind!=Outcome::RETURNED) return "using the mesh "+describe(o);
  size_t cnt=std::min<size_t>(m.tris.size(),60); size_t off=r.below(m.tris.size()); for(size_t q=0;q<cnt;q++){ size_t i=cnt==m.tris.size()?q:(off+q*(m.tris.size()/cnt))%m.tris.size(); const ObjTri& t=m.tris[i]; double c[3],e[3],f[3],n[3]; for(int k=0;k<3;k++){ c[k]=((double)t.p[0][k]+t.p[1][k]+t.p[2][k])/3; e[k]=(double)t.p[1][k]-t.p[0][k]; f[k]=(double)t.p[2][k]-t.p[0][k]; } vcross(e,f,n); double l=sqrt(n[0]*n[0]+n[1]*n[1]+n[2]*n[2]); if(l<0.02) continue; for(int k=0;k<3;k++) n[k]/=l; double side=r.below(2)?1:-1;
    Ray ray(Point3((float)(c[0]+n[0]*side*0.5),(float)(c[1]+n[1]*side*0.5),(float)(c[2]+n[2]*side*0.5)),Vec3((float)(-n[0]*side),(float)(-n[1]*side),(float)(-n[2]*side))); float dist=1.f; HitPoint h; bool hit=false; o=prog_run(hh,[&]{ hit=as->intersect(&ray,&dist,&h); }); if(o.kind!=Outcome::RETURNED) return "a ray query "+describe(o);
    if(!hit){ snprintf(b,512,"face %zu is not hit by a ray onto its centre",i); return b; }
    if(fabs(dist-0.5)>0.02){ snprintf(b,512,"face %zu is hit at distance %g instead of 0.5",i,dist); return b; }
    const Bsdf* want=t.mat<0?nullptr:mats.bsdf[t.mat]; if(!want) want=MtlLib.get_default(); if(h.index>=m.tris.size()||as->get_material(h.index)!=want){ snprintf(b,512,"the hit on face %zu (reported index %u) is shaded with another material",i,h.index); return b; }
    double uv[2],nn[3]; for(int k=0;k<2;k++) uv[k]=((double)t.t[0][k]+t.t[1][k]+t.t[2][k])/3; for(int k=0;k<3;k++) nn[k]=((double)t.n[0][k]+t.n[1][k]+t.n[2][k])/3; double nl=sqrt(nn[0]*nn[0]+nn[1]*nn[1]+nn[2]*nn[2]);
    if(fabs(h.uv.x-uv[0])>0.02||fabs(h.uv.y-uv[1])>0.02){ snprintf(b,512,"face %zu has texture coordinates %g %g at its centre instead of %g %g",i,h.uv.x,h.uv.y,uv[0],uv[1]); return b; }
    if(nl>0.1) for(int k=0;k<3;k++) if(fabs((&h.normal_h.x)[k]-nn[k]/nl)>0.03){ snprintf(b,512,"face %zu has normal %g %g %g at its centre instead of %g %g %g",i,h.normal_h.x,h.normal_h.y,h.normal_h.z,nn[0]/nl,nn[1]/nl,nn[2]/nl); return b; } }
  return ""; }
static std::string compare_all(Harness& hh,std::vector<std::unique_ptr<Got>>& got,const ObjFile& f,const Mats& mats,Rng& r,size_t lim){ char b[200]; size_t want=std::min(lim,f.meshes.size()); if(got.size()!=want){ snprintf(b,200,"%zu meshes instead of %zu",got.size(),want); return b; } for(size_t i=0;i<want;i++){ std::string e=compare_mesh(hh,*got[i],f.meshes[i],mats,r); if(!e.empty()){ snprintf(b,200,"mesh %zu: ",i); return b+e; } } return ""; }
static int size_class(){ switch(wl(8)){ case 0: case 1: case 2: return 1; case 3: return 0; case 7: return 3; default: return 2; } }
static int padding(){ switch(wl(4)){ case 0: return 0; case 1: return 1+(int)wl(4200); case 2: return 4096-(int)wl(200); default: return (int)wl(60); } }

// ---- C15
SCENARIO("C15",mesh_import,2){
  Harness hh; Rng r(content_seed()); set_fill(1+(u32)r.below(1000)); sched.preempt=false; Mats mats; std::unique_ptr<ParserObj> p; Outcome o=prog_run(hh,[&]{ mats=setup_mats(r); p.reset(new ParserObj()); }); if(o.kind!=Outcome::RETURNED) violation("dies","setup %s",describe(o).c_str());
  fs::mkdirs("/m"); int nfiles=1+(int)wl(3); std::vector<std::string> paths; for(int i=0;i<nfiles;i++) paths.push_back("/m/f"+std::to_string(i)+".obj"); std::string desc;
  for(int i=0;i<nfiles;i++){ ObjFile f=make_obj(r,mats.names,padding(),size_class()); fs::put(paths[i],f.data); random_bufsize(); faults=FaultCfg(); faults.on=true; faults.short_permille_read=(int)wl(3)*450; faults.budget=0;
    bool last=i==nfiles-1; int kind=last?0:(int)wl(6); size_t lim=1000000; bool end=wl(2)==0; if(kind==1) lim=(size_t)wl(3); if(kind==2) fs::remove(paths[i]); if(kind==3){ fs::read_limit(paths[i],(i64)wl(f.data.size()+1),5); } if(kind==4){ std::string w; fs::put(paths[i],damage_obj(f.data,r,w)); }
    static const char* KN[]={"complete","abandoned","missing","failing","damaged","complete"}; desc+=std::string(i?"; then ":"")+KN[kind]+" file of "+f.what;
    u64 mark=err_mark(); std::vector<std::unique_ptr<Got>> got; o=prog_run(hh,[&]{ import(*p,paths[i].c_str(),got,lim,end); }); sample("%s",desc.c_str()); desc.clear();
    if(o.kind!=Outcome::RETURNED) violation("dies","importing %s",describe(o).c_str());
    if(kind==0||kind==1||kind==5){ std::string e=compare_all(hh,got,f,mats,r,lim); if(!e.empty()) violation("wrong-import","%s (%s)",e.c_str(),f.what.c_str()); if(errors_since(mark)) violation("error-on-healthy-file","an error was reported for a healthy file: %.300s",err_text().substr((size_t)mark).c_str()); if(f.data.size()>4096) nontrivial(); if(i) probe("parser used before"); size_t nt=0; for(auto&m:f.meshes) nt+=m.tris.size(); probe("faces imported",nt); if(f.data.size()%4096==0) probe("file ends with a block"); }
    fs::read_limit(paths[i],-1,0); heal(); prog_run(hh,[&]{ got.clear(); }); }
  o=prog_run(hh,[&]{ p.reset(); }); if(o.kind!=Outcome::RETURNED) violation("dies","destroying the parser %s",describe(o).c_str());
  if(fs::open_handles()) violation("handle-leak","%d files still open",fs::open_handles());
}
// every boundary: the same content shifted over a block boundary byte by byte
SCENARIO("C15",mesh_import_shifted,1){
  Harness hh; Rng r(content_seed()); sched.preempt=false; Mats mats; std::unique_ptr<ParserObj> p; prog_run(hh,[&]{ mats=setup_mats(r); p.reset(new ParserObj()); }); fs::mkdirs("/m"); std::string path="/m/s.obj"; u64 gs=r.next(); int base=4096-(int)wl(400); if(wl(4)==0) base+=4096; int n=24; sample("content shifted over a block boundary from padding %d",base); nontrivial();
  for(int k=0;k<n;k++){ Rng g(gs); ObjFile f=make_obj(g,mats.names,base+k,1); fs::put(path,f.data); std::vector<std::unique_ptr<Got>> got; Outcome o=prog_run(hh,[&]{ import(*p,path.c_str(),got,1000000,false); }); if(o.kind!=Outcome::RETURNED) violation("dies","importing %s",describe(o).c_str()); std::string e=compare_all(hh,got,f,mats,r,1000000); if(!e.empty()) violation("wrong-import","padding %d: %s (%s)",base+k,e.c_str(),f.what.c_str()); prog_run(hh,[&]{ got.clear(); }); }
}
// ---- C16
static void shoot(Harness& hh,std::vector<std::unique_ptr<Got>>& got,Rng& r){ // using what was imported stays inside memory
  for(auto&g:got){ if(!g->mesh->get_faces_number()) continue; Outcome o=prog_run(hh,[&]{ for(int i=0;i<8;i++){ Vec3 d(r.f(-1,1),r.f(-1,1),r.f(-1,1)); d.normalize(); Point3 a(r.f(-30,30),r.f(-30,30),r.f(-30,30)); Ray ray(a,d); float dist=INFINITY; HitPoint h; MaskBoolean mk; if(g->mesh->intersect(&ray,&dist,&h,&mk)&&(int)h.index>=g->mesh->get_faces_number()) violation("bad-index","a hit reports face %u of %d",h.index,g->mesh->get_faces_number()); } }); if(o.kind!=Outcome::RETURNED) violation("dies","a ray onto an imported mesh %s",describe(o).c_str()); } }
SCENARIO("C16",mesh_faults,2){
  Harness hh; Rng r(content_seed()); set_fill(1+(u32)r.below(1000)); sched.preempt=false; Mats mats; prog_run(hh,[&]{ mats=setup_mats(r); }); fs::mkdirs("/m"); std::string path="/m/a.obj"; ObjFile f=make_obj(r,mats.names,padding(),size_class()); fs::put(path,f.data); random_bufsize();
  prog_run(hh,[&]{ fs::put("/m/w.obj","f 1 2 3\n"); ParserObj p; std::vector<std::unique_ptr<Got>> g; import(p,"/m/w.obj",g,5,true); }); // what iostreams and libc keep
  int kind=(int)wl(6); size_t cut=f.data.size(); bool mustfail=false,cutf=false; std::string what; if(kind==1){ cut=(size_t)wl(f.data.size()+1); fs::read_limit(path,(i64)cut,5); what="read error after "+std::to_string(cut)+" bytes"; } else if(kind==2){ cut=(size_t)wl(f.data.size()+1); fs::put(path,f.data.substr(0,cut)); what="cut after "+std::to_string(cut); cutf=true; } else if(kind==3){ fs::remove(path); switch(wl(3)){ case 0: what="missing"; break; case 1: fs::mkdirs(path); what="a folder"; break; default: fs::put(path,f.data,0); fs::chmod(path,0); what="unreadable"; } mustfail=true; }
  FaultMode m; if(kind==0||kind>=4) m=pick_faults(false); u64 base=live_blocks(); int hand=fs::open_handles(); auto snap=snapshot(); u64 fo=faults_fired(OP_OPEN),fr=faults_fired(OP_READ); u64 mark=err_mark(); std::vector<std::unique_ptr<Got>> got; bool more=false; size_t lim=100000;
  Outcome o=prog_run(hh,[&]{ ParserObj p; more=import(p,path.c_str(),got,lim,wl(2)); }); u64 nf=faults_fired(OP_OPEN)-fo+faults_fired(OP_READ)-fr; size_t errs=errors_since(mark); heal();
  sample("%s: %s%s; %llu open/read faults, %zu meshes, %zu errors",f.what.c_str(),m.name.c_str(),what.c_str(),(unsigned long long)nf,got.size(),errs); if(nf||kind==1||kind==2||kind==3) nontrivial();
  if(o.kind!=Outcome::RETURNED) violation("dies","importing %s",describe(o).c_str());
  if(more) violation("endless","more than %zu meshes from a file of %zu",lim,f.meshes.size());
  if(fs::open_handles()!=hand) violation("handle-leak","%d handles left open",fs::open_handles()-hand);
  only_changed(snap,"","importing");
  if(kind==1&&cut<f.data.size()) mustfail=true; // the part behind cannot have been read
  if((nf||mustfail)&&!errs) violation("silent-failure","part of the file could not be read (%s%s) but no error was reported; %zu of %zu meshes delivered",m.name.c_str(),what.c_str(),got.size(),f.meshes.size());
  if(!nf&&!mustfail&&!cutf){ if(errs) violation("error-on-healthy-file","an error was reported although nothing failed: %.300s",err_text().substr((size_t)mark).c_str()); std::string e=compare_all(hh,got,f,mats,r,lim); if(!e.empty()) violation("wrong-import","%s (%s)",e.c_str(),f.what.c_str()); }
  // what was delivered before the failing part is exact: every mesh but the last delivered one
  if(got.size()>f.meshes.size()+1) violation("wrong-import","%zu meshes delivered from a part of a file of %zu",got.size(),f.meshes.size());
  for(size_t i=0;i+1<got.size()&&i<f.meshes.size();i++){ std::string e=compare_mesh(hh,*got[i],f.meshes[i],mats,r); if(!e.empty()) violation("wrong-import","mesh %zu, before the failing part: %s (%s)",i,e.c_str(),f.what.c_str()); }
  shoot(hh,got,r); prog_run(hh,[&]{ got.clear(); got.shrink_to_fit(); }); std::vector<std::unique_ptr<Got>>().swap(got);
  (void)base; fs::remove(path); fs::put(path,f.data); fs::read_limit(path,-1,0); u64 mk2=err_mark(); o=prog_run(hh,[&]{ ParserObj p; import(p,path.c_str(),got,lim,true); }); if(o.kind!=Outcome::RETURNED||errors_since(mk2)) violation("no-recovery","importing the same file on healthy storage: %s",describe(o).c_str()); std::string e=compare_all(hh,got,f,mats,r,lim); if(!e.empty()) violation("no-recovery","importing the same file on healthy storage: %s",e.c_str());
}
SCENARIO("C16",mesh_damaged,2){
  Harness hh; Rng r(content_seed()); set_fill(1+(u32)r.below(1000)); sched.preempt=false; Mats mats; prog_run(hh,[&]{ mats=setup_mats(r); }); fs::mkdirs("/m"); std::string path="/m/a.obj"; ObjFile f=make_obj(r,mats.names,wl(4)?0:padding(),size_class()); std::string what,d; if(wl(8)==7){ size_t n=r.below(9000); for(size_t i=0;i<n;i++) d+=(char)(r.below(3)?"vfogu \n/-0123456789.tn"[r.below(23)]:r.next()); what="random text"; } else d=damage_obj(f.data,r,what); fs::put(path,d); random_bufsize(); nontrivial(); FaultMode m; if(wl(4)==1) m=pick_faults(false); sample("%s: %s, %zu bytes %s",f.what.c_str(),what.c_str(),d.size(),m.name.c_str());
  int hand=fs::open_handles(); std::vector<std::unique_ptr<Got>> got; bool more=false; size_t lim=d.size()+10; Outcome o=prog_run(hh,[&]{ ParserObj p; more=import(p,path.c_str(),got,lim,wl(2)); }); heal();
  if(o.kind!=Outcome::RETURNED) violation("dies","importing %s",describe(o).c_str());
  if(more) violation("endless","more than %zu meshes",lim);
  if(fs::open_handles()!=hand) violation("handle-leak","%d handles left open",fs::open_handles()-hand);
  probe("meshes from damaged files",got.size()); for(auto&g:got) if(g->faces!=(unsigned)g->mesh->get_faces_number()) violation("wrong-import","%u faces reported, %d in the mesh",g->faces,g->mesh->get_faces_number()); else for(auto a:g->assoc) if(a>=g->mats.size()) violation("wrong-import","material entry %d of %zu",a,g->mats.size());
  shoot(hh,got,r);
}
