#include "scenegen.hpp"
namespace hx {
static std::string norm(const std::string& p){ std::vector<std::string> v; std::string c; for(char ch:p+"/"){ if(ch=='/'){ if(c==".."){ if(!v.empty()) v.pop_back(); } else if(!c.empty()&&c!=".") v.push_back(c); c.clear(); } else c+=ch; } std::string r; for(auto&x:v) r+="/"+x; return r.empty()?"/":r; }
static std::string relative(const std::string& from,const std::string& to){ // both normalised absolute
  auto sp=[](const std::string& p){ std::vector<std::string> v; std::string c; for(char ch:p){ if(ch=='/'){ if(!c.empty()) v.push_back(c); c.clear(); } else c+=ch; } if(!c.empty()) v.push_back(c); return v; };
  auto a=sp(from),b=sp(to); size_t k=0; while(k<a.size()&&k+1<b.size()&&a[k]==b[k]) k++; std::string r; for(size_t i=k;i<a.size();i++) r+="../"; for(size_t i=k;i<b.size();i++) r+=(i>k?"/":"")+b[i]; return r; }
// one of the many ways to write the path
static std::string reference(Rng& r,const std::string& from,const std::string& to,bool allow_abs=true,bool back=true){
  std::string p; if(allow_abs&&r.below(5)==0){ p=to; if(r.below(3)==0) p="/."+p; return p; }
  p=relative(from,to); switch(r.below(8)){ case 0: p="./"+p; break; case 1: if(p.compare(0,3,"../")) p="sub/../"+p; break; case 2: { size_t k=p.find('/'); if(k!=std::string::npos) p.insert(k,"/"); break; } case 3: { size_t k=p.rfind('/'); if(k!=std::string::npos) p.insert(k,"/."); break; } case 4: if(back) for(auto&c:p) if(c=='/') c='\\'; break; default: break; }
  return p; }
static std::string quote(Rng& r,const std::string& s){ char q=r.below(3)?'"':'\''; return q+s+q; }
static std::string ws(Rng& r){ switch(r.below(6)){ case 0: return ""; case 1: return "\t"; case 2: return "\n"; case 3: return r.below(4)?"  ":" # comment: { \"\n"; default: return " "; } }
static std::string sep(Rng& r){ switch(r.below(4)){ case 0: return ","; case 1: return ", "; case 2: return "\n"; default: return " "; } }
static std::string num(float f){ char b[32]; snprintf(b,32,"%g",f); return b; }
static std::string kv(Rng& r,const std::string& k,const std::string& v){ return k+ws(r)+":"+ws(r)+v; }
static std::string object(Rng& r,const std::string& k,const std::vector<std::string>& v){ std::string s=k+ws(r)+":"+ws(r)+"{"+ws(r); for(size_t i=0;i<v.size();i++) s+=(i?sep(r):std::string())+v[i]; return s+ws(r)+"}"; }
SScene make_scene(Rng& r,const SceneOpt& o){
  SScene s; static const char* DIRS[]={"/w","/w/scenes","/data/my scenes","/w/a/b.c/d","/"}; s.dir=DIRS[r.below(5)]; std::string parent=norm(s.dir+"/.."); switch(r.below(4)){ case 0: s.cwd=s.dir; break; case 1: s.cwd=parent; break; case 2: s.cwd="/other/place"; break; default: s.cwd="/"; }
  auto at=[](const std::string& d,const std::string& f){ return norm(d+"/"+f); };
  static const char* MN[]={"scene.txt","main","in.spl","s c.txt"}; s.path=at(s.dir,MN[r.below(4)]); s.arg=r.below(3)?reference(r,s.cwd,s.path,true,false):s.path;
  std::vector<std::string> idirs={s.dir,at(s.dir,"tex"),at(s.dir,"tex/deep"),parent,"/shared",s.cwd}; 
  // images: few file names in many folders
  s.unfiltered=r.below(2); int ni=1+(int)r.below(o.max_imgs); std::set<std::string> used={s.path}; static const char* BASE[]={"a","b","n o"};
  for(int i=0;i<ni;i++){ SImg im; do im.ext=EXTS[r.below(EXTS.size())]; while(!o.tiff&&im.ext.compare(0,3,"tif")==0); im.path=at(idirs[r.below(idirs.size())],std::string(BASE[r.below(3)])+"."+im.ext); if(!used.insert(im.path).second) continue; im.state=o.bad_files&&r.below(3)==0?1+(int)r.below(5):GOOD; int side=1<<(r.below(2)?0:r.below(6)); int w=side,h=side; if(im.state==NONPOW2){ w=3+(int)r.below(9); h=r.below(2)?w+1+(int)r.below(3):w; if(w==h) w=h=7; }
    File8 f=encode_any(im.ext,r,w,h,(int)r.below(3)); im.data=f.data; im.pix=f.pix; if(im.state==DAMAGED){ im.data=f.data.substr(0,r.below(2)?0:r.below(8)); } s.imgs.push_back(im); }
  // mesh files: squares of two triangles facing -z
  int no=(int)r.below(3); std::vector<std::string> shapenames; static const char* SN[]={"quad","wall","Ground","q 2"}; static const char* MATN[]={"red","blue","m1","gold leaf","x.y","nowhere"};
  for(int i=0;i<no;i++){ SObj ob; ob.path=at(idirs[r.below(idirs.size())],std::string(BASE[r.below(3)])+".obj"); if(!used.insert(ob.path).second) continue; ob.state=o.bad_files&&r.below(4)==0?(r.below(3)==0?MISSING:r.below(2)?FOLDER:UNREADABLE):GOOD; int np=1+(int)r.below(3); std::string d="# squares\n"; int v=1; 
    for(int k=0;k<np;k++){ SObjPart p; p.name=SN[r.below(3)]; bool dup=false; for(auto&q:ob.parts) dup|=q.name==p.name; if(dup) continue; if(r.below(3)) p.mat=std::string(MATN[r.below(6)]); for(char&c:p.mat) if(c==' ') c='_'; d+="o "+p.name+"\nv -5 -5 0\nv 5 -5 0\nv 5 5 0\nv -5 5 0\nvt 0 0\nvt 1 0\nvt 1 1\nvt 0 1\nvn 0 0 -1\n"; if(!p.mat.empty()) d+="usemtl "+p.mat+"\n"; char b[200]; int n=k+1; n=(v+3)/4; if(r.below(2)) snprintf(b,200,"f %d/%d/%d %d/%d/%d %d/%d/%d %d/%d/%d\n",v,v,n,v+1,v+1,n,v+2,v+2,n,v+3,v+3,n); else snprintf(b,200,"f %d/%d/%d %d/%d/%d %d/%d/%d\nf %d/%d/%d %d/%d/%d %d/%d/%d\n",v,v,n,v+1,v+1,n,v+2,v+2,n,v,v,n,v+2,v+2,n,v+3,v+3,n); d+=b; v+=4; ob.parts.push_back(p); shapenames.push_back(p.name); }
    ob.data=d; s.objs.push_back(ob); }
  // children
  int nk=o.kids?(int)r.below(3):0; std::vector<std::vector<std::pair<int,std::string>>> texts(1+nk); 
  for(int i=0;i<nk;i++){ SChild c; c.path=at(r.below(2)?s.dir:idirs[r.below(idirs.size())],"child"+std::to_string(i)+".txt"); if(!used.insert(c.path).second) continue; c.state=o.bad_files&&r.below(5)==0?MISSING:GOOD; c.ref=reference(r,s.dir,c.path); s.kids.push_back(c); }
  // where a statement goes: -1 main, else child; references inside of children are absolute or in the same folder as the main file
  auto where=[&]()->int{ return s.kids.empty()||r.below(2)?-1:(int)r.below(s.kids.size()); };
  auto ref=[&](int f,const std::string& to){ if(f>=0&&norm(s.kids[f].path+"/..")!=s.dir) return to; return reference(r,s.dir,to); };
  std::vector<std::vector<std::string>> st(1+s.kids.size()); // statements of each file; the order of definitions follows st
  struct Item { int kind; int idx; int file; std::string txt; }; std::vector<Item> items; 
  auto pickimg=[&]()->std::string{ if(s.imgs.empty()||(o.bad_files&&r.below(10)==0)) return at(idirs[r.below(idirs.size())],"missing.png"); return s.imgs[r.below(s.imgs.size())].path; };
  std::vector<SDef> defs; std::vector<SMat> mats; std::vector<SWorld> worlds; std::vector<SShape> shapes; std::vector<std::string> texnames; static const char* TN[]={"skin","a.png","wood tex","b"};
  int nd=(int)r.below(5); for(int i=0;i<nd;i++){ SDef d; d.file=where(); d.abs=pickimg(); d.ref=ref(d.file,d.abs); if(r.below(2)) d.name=TN[r.below(4)]; std::vector<std::string> v={kv(r,"src",quote(r,d.ref))}; if(!d.name.empty()) v.insert(v.begin()+r.below(2),kv(r,"name",quote(r,d.name))); if(r.below(4)==0) v.insert(v.begin()+r.below(v.size()+1),kv(r,"scale","1")); 
    // a name is only used again when it is certain which definition comes first
    std::string nm=d.name.empty()?d.abs.substr(d.abs.rfind('/')+1):d.name; const SImg* im=s.img(d.abs); bool odd=im&&(im->state==NONPOW2||im->state==DAMAGED); bool clash=false; for(auto&n:texnames) clash|=n==nm||n=="!"+nm; if((clash&&odd)||((d.name.empty()||d.name=="a.png")&&im&&im->state==DAMAGED)) continue; bool oddbefore=false; for(auto&n:texnames) oddbefore|=n=="!"+nm; if(oddbefore) continue; texnames.push_back(odd?"!"+nm:nm); 
    items.push_back({0,(int)defs.size(),d.file,object(r,"texture",v)}); defs.push_back(d); }
  int nm=1+(int)r.below(5); for(int i=0;i<nm;i++){ SMat m; m.file=where(); m.name=MATN[r.below(5)]; for(char&c:m.name) if(c==' ') c='_'; m.tex=r.below(4)!=0; std::vector<std::string> v; if(r.below(2)) v.push_back(kv(r,"type","matte")); if(m.tex){ if(!defs.empty()&&r.below(2)){ const SDef& d=defs[r.below(defs.size())]; m.ref=d.name.empty()?d.abs.substr(d.abs.rfind('/')+1):d.name; m.abs=at(s.dir,m.ref); } else { m.abs=pickimg(); m.ref=ref(m.file,m.abs); } v.push_back(kv(r,"diffuse",quote(r,m.ref))); } else { for(auto&c:m.rgb) c=(u8)r.next(); v.push_back(kv(r,"diffuse","["+std::to_string(m.rgb[0])+","+ws(r)+std::to_string(m.rgb[1])+" , "+std::to_string(m.rgb[2])+"]")); }
    v.insert(v.begin()+r.below(v.size()+1),kv(r,"name",quote(r,m.name))); items.push_back({1,(int)mats.size(),m.file,object(r,"material",v)}); mats.push_back(m); }
  for(auto&ob:s.objs){ int n=1+(r.below(6)==0); for(int k=0;k<n;k++){ SShape h; h.file=where(); h.abs=ob.path; h.ref=ref(h.file,h.abs); items.push_back({2,(int)shapes.size(),h.file,kv(r,"shape",quote(r,h.ref))}); shapes.push_back(h); } }
  if(o.bad_files&&r.below(6)==0){ SShape h; h.file=where(); h.abs=at(s.dir,r.below(2)?"mesh.txt":"gone.obj"); h.ref=ref(h.file,h.abs); items.push_back({2,(int)shapes.size(),h.file,kv(r,"shape",quote(r,h.ref))}); shapes.push_back(h); }
  int nw=1+(int)r.below(6); for(int i=0;i<nw;i++){ SWorld w; w.file=where(); w.light=r.below(5)==0; w.shape=shapenames.empty()||r.below(2)?"Sphere":r.below(8)?shapenames[r.below(shapenames.size())]:std::string(SN[3]); w.x=(float)(i*50); std::vector<std::string> v; if(r.below(3)) { w.mat=r.below(8)?MATN[r.below(5)]:"unknown"; for(char&c:w.mat) if(c==' ') c='_'; v.push_back(kv(r,"material",quote(r,w.mat))); }
    if(r.below(3)==0){ w.masked=true; if(!defs.empty()&&r.below(3)==0){ const SDef& d=defs[r.below(defs.size())]; w.mref=d.name.empty()?d.abs.substr(d.abs.rfind('/')+1):d.name; w.mabs=at(s.dir,w.mref); } else { w.mabs=pickimg(); w.mref=ref(w.file,w.mabs); } std::string m=kv(r,"mask",quote(r,w.mref)); static const char* CH="RGBA"; bool ch=r.below(2),first=r.below(2); if(ch) w.chan=(int)r.below(4); w.inv=r.below(2); std::string c=std::string(" using channel ")+CH[w.chan]; if(ch&&first) m+=c; if(w.inv) m+=" inverted"; if(ch&&!first) m+=c; v.push_back(m); }
    v.push_back(kv(r,"position","["+num(w.x)+",0,0]")); if(r.below(3)==0) v.push_back(kv(r,"scale",r.below(2)?"1":"[1,1.0,1e0]")); if(w.light){ w.mat.clear(); if(r.below(2)) v.push_back(kv(r,"temperature","4000")); else v.push_back(kv(r,"color","[255,200,100]")); }
    for(size_t k=v.size();k>1;k--) std::swap(v[k-1],v[r.below(k)]); if(w.light){ std::vector<std::string> u; for(auto&x:v) if(x.compare(0,8,"material")) u.push_back(x); v=u; } v.insert(v.begin(),kv(r,"name",quote(r,w.shape))); items.push_back({3,(int)worlds.size(),w.file,object(r,w.light?"light":"world",v)}); worlds.push_back(w); }
  if(o.uniform){ items.push_back({4,0,-1,object(r,"light",{kv(r,"name","\"Sphere\""),kv(r,"position","[0,0,-5000]"),kv(r,"scale","100"),kv(r,"color","[200,100,150]")})}); s.out="render.ppm"; }
  for(size_t i=0;i<s.kids.size();i++) items.push_back({4,0,-1,kv(r,"material",quote(r,s.kids[i].ref))});
  // settings in the main file
  s.height=2+2*(int)r.below(8); s.width=32*(1+(int)r.below(2)); s.spp=1+(int)r.below(4); { float q=sqrtf((float)s.spp); s.stratified=r.below(2); (void)q; }
  std::string ext=r.below(3)?"ppm":EXTS[r.below(EXTS.size())]; s.out=norm((r.below(2)?s.cwd:"/results")+"/image."+ext); if(!o.out.empty()) s.out=norm(o.out); if(o.uniform) s.stratified=true; 
  items.push_back({4,0,-1,kv(r,"out",quote(r,r.below(2)?s.out:reference(r,s.cwd,s.out)))}); items.push_back({4,0,-1,object(r,"resolution",{kv(r,"width",std::to_string(s.width)),kv(r,"height",std::to_string(s.height))})}); items.push_back({4,0,-1,kv(r,"spp",std::to_string(s.spp))}); items.push_back({4,0,-1,kv(r,"sampler",s.stratified?"stratified":"random")}); if(r.below(2)) items.push_back({4,0,-1,"integrator:path"});
  static const char* FT[]={"box","tent","gauss","mitchell","lanczos","triangle","gaussian"}; static const char* TF[]={"trilinear","ewa"}; std::vector<std::string> fv={kv(r,"type",FT[o.uniform?(r.below(2)?0:1):r.below(7)])}; if(r.below(2)){ fv.push_back(kv(r,"value0",o.uniform?"0.33":"2")); fv.push_back(kv(r,"value1","0.33")); }
  if(o.uniform) items.push_back({4,0,-1,object(r,"camera",{kv(r,"type","orthographic"),kv(r,"position","[0,0,-4800]"),kv(r,"target","[0,0,-5000]")})}); else if(r.below(2)){ static const char* CT[]={"perspective","orthographic","panorama"}; items.push_back({4,0,-1,object(r,"camera",{kv(r,"type",CT[r.below(3)]),kv(r,"position","[0,1,-20]"),kv(r,"target","[0,0,0]"),kv(r,"up","[0,1,0]")})}); }
  for(size_t k=items.size();k>1;k--) std::swap(items[k-1],items[r.below(k)]);
  if(s.unfiltered){ std::vector<std::string> u={kv(r,"texture","unfiltered")}; u.insert(u.end(),fv.begin(),fv.end()); items.insert(items.begin(),Item{4,0,-1,object(r,"filter",u)}); } else { if(r.below(2)) fv.push_back(kv(r,"texture",TF[r.below(2)])); items.insert(items.begin()+r.below(items.size()+1),Item{4,0,-1,object(r,"filter",fv)}); }
  // texts and the order in which the parser meets the definitions (main file, then the children in the order they are named)
  std::vector<int> kidorder; { for(auto&it:items) if(it.kind==4&&it.txt.compare(0,8,"material")==0){ } }
  std::vector<std::pair<size_t,int>> ko; for(size_t i=0;i<s.kids.size();i++) for(size_t k=0;k<items.size();k++){ auto&t=items[k]; if(t.kind==4&&t.txt.compare(0,8,"material")==0&&(t.txt.find("\""+s.kids[i].ref+"\"")!=std::string::npos||t.txt.find("'"+s.kids[i].ref+"'")!=std::string::npos)){ ko.push_back({k,(int)i}); break; } } std::sort(ko.begin(),ko.end());
  { std::vector<SChild> nk2; std::map<int,int> to; for(auto&k:ko){ to[k.second]=(int)nk2.size(); nk2.push_back(s.kids[k.second]); } if(nk2.size()!=s.kids.size()) harness_error("children"); s.kids=nk2; for(auto&it:items) if(it.file>=0) it.file=to[it.file]; }
  std::string pad; if(o.pad>0) pad="#"+std::string(o.pad-1,'p')+"\n";
  for(int f=-1;f<(int)s.kids.size();f++){ std::string t; if(r.below(2)) t="# generated\n"; if(f<0) t+=pad; bool any=false; for(auto&it:items) if(it.file==f){ t+=it.txt+(r.below(5)?"\n":r.below(2)?" ":",\r\n"); any=true; if(f>=0&&s.kids[f].state!=GOOD) continue; switch(it.kind){ case 0: defs[it.idx].file=f; s.defs.push_back(defs[it.idx]); break; case 1: mats[it.idx].file=f; s.mats.push_back(mats[it.idx]); break; case 2: shapes[it.idx].file=f; s.shapes.push_back(shapes[it.idx]); break; case 3: worlds[it.idx].file=f; s.worlds.push_back(worlds[it.idx]); break; default: break; } }
    if(f>=0){ if(r.below(4)==0){ t+="material:\"grandchild.txt\"\n"; any=true; } if(!any) t+=","; s.kids[f].text=t; } else s.text=t; }
  // decoys: the same relative reference from another folder
  if(o.decoys){ auto decoy=[&](const std::string& rf){ std::string p=rf; for(auto&c:p) if(c=='\\') c='/'; if(p[0]=='/') return; for(const std::string& d:{s.cwd,parent,at(s.dir,"tex"),at(s.dir,"sub")}){ std::string q=at(d,p); if(d==s.dir||used.count(q)||q==s.out) continue; bool bad=false; for(auto&u:used) if(u.compare(0,q.size()+1,q+"/")==0||q.compare(0,u.size()+1,u+"/")==0) bad=true; for(auto&i:s.decoys) if(i.compare(0,q.size()+1,q+"/")==0||q.compare(0,i.size()+1,i+"/")==0) bad=true; if(!bad) s.decoys.insert(q); } };
    for(auto&d:s.defs) decoy(d.ref); for(auto&m:s.mats) if(m.tex) decoy(m.ref); for(auto&h:s.shapes) decoy(h.ref); for(auto&w:s.worlds) if(w.masked) decoy(w.mref); for(auto&k:s.kids) decoy(k.ref); decoy("grandchild.txt"); { bool any=false; for(auto&k:s.kids) any|=k.text.find("grandchild.txt")!=std::string::npos; std::string q=at(s.dir,"grandchild.txt"); if(any&&!used.count(q)) s.decoys.insert(q); } std::set<std::string> mean; for(auto&d:s.defs) mean.insert(d.abs); for(auto&m:s.mats) mean.insert(m.abs); for(auto&h:s.shapes) mean.insert(h.abs); for(auto&w:s.worlds) mean.insert(w.mabs); for(auto&k:s.kids) mean.insert(k.path); for(auto&m:mean) s.decoys.erase(m); }
  char b[300]; snprintf(b,300,"%s from %s as %s: %zu images, %zu textures, %zu materials, %zu mesh files, %zu worlds, %zu chained files, %zu decoys",s.path.c_str(),s.cwd.c_str(),s.arg.c_str(),s.imgs.size(),s.defs.size(),s.mats.size(),s.objs.size(),s.worlds.size(),s.kids.size(),s.decoys.size()); s.what=b; return s;
}
void place(const SScene& s){
  fs::mkdirs(s.cwd); fs::mkdirs(s.dir); fs::mkdirs("/results"); fs::mkdirs(norm(s.dir+"/sub")); fs::mkdirs(norm(s.cwd+"/sub"));
  Rng dr(99); for(auto&d:s.decoys){ std::string ext=d.substr(d.rfind('.')+1); std::string data="world:{name:\"Sphere\"}\n"; bool im=false; for(auto e:EXTS) im|=ext==e; if(im) data=encode_any(ext,dr,4,4,0).data; else if(ext=="obj") data="o decoy\nv 0 0 0\nv 1 0 0\nv 0 1 0\nvn 0 0 1\nf 1//1 2//1 3//1\n"; fs::put(d,data); }
  for(auto&i:s.imgs) switch(i.state){ case MISSING: break; case FOLDER: fs::mkdirs(i.path); break; case UNREADABLE: fs::put(i.path,i.data); fs::chmod(i.path,0); break; default: fs::put(i.path,i.data); }
  for(auto&i:s.objs) switch(i.state){ case MISSING: break; case FOLDER: fs::mkdirs(i.path); break; case UNREADABLE: fs::put(i.path,i.data); fs::chmod(i.path,0); break; default: fs::put(i.path,i.data); }
  for(auto&k:s.kids) if(k.state==GOOD) fs::put(k.path,k.text); fs::put(s.path,s.text); fs::set_cwd(s.cwd);
}
const SImg* lookup(const SScene& s,const Meaning& m,const std::string& ref,const std::string& abs){ auto it=m.lib.find(ref); return s.img(it!=m.lib.end()?it->second:abs); }
Meaning meaning(const SScene& s){
  Meaning m; auto loadable=[&](const std::string& p){ const SImg* i=s.img(p); return i&&i->state!=MISSING&&i->state!=FOLDER&&i->state!=UNREADABLE; };
  for(auto&d:s.defs){ std::string n=d.name.empty()?d.abs.substr(d.abs.rfind('/')+1):d.name; if(m.lib.count(n)) continue; m.tried.insert(d.abs); if(loadable(d.abs)) m.lib[n]=d.abs; }
  for(auto&x:s.mats) if(m.mats.insert({x.name,x}).second&&x.tex){ auto it=m.lib.find(x.ref); m.tried.insert(it!=m.lib.end()?it->second:x.abs); }
  for(auto&h:s.shapes){ const SObj* o=s.obj(h.abs); if(o&&o->state==GOOD) for(auto&p:o->parts) m.shapes.insert({p.name,p}); }
  for(auto&w:s.worlds) if(w.masked&&(w.shape=="Sphere"||m.shapes.count(w.shape))){ auto it=m.lib.find(w.mref); m.tried.insert(it!=m.lib.end()?it->second:w.mabs); }
  return m;
}
}
