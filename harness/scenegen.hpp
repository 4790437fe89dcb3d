// Generator of scene descriptions (with every file they name) together with what they mean.
#pragma once
#include "images.hpp"
#include <set>
namespace hx {
enum { GOOD, MISSING, NONPOW2, FOLDER, UNREADABLE, DAMAGED };
struct SImg { std::string path,ext,data; int state=GOOD; Pic pix; };
struct SDef { std::string name,ref,abs; int file; };                       // texture definition, name "" = unnamed
struct SMat { std::string name; bool tex=false; u8 rgb[3]={0,0,0}; std::string ref,abs; int file; };
struct SWorld { std::string shape; bool light=false; std::string mat; bool masked=false; std::string mref,mabs; int chan=3; bool inv=false; float x=0; int file; };
struct SObjPart { std::string name,mat; };
struct SObj { std::string path,data; int state=GOOD; std::vector<SObjPart> parts; };
struct SShape { std::string ref,abs; int file; };
struct SChild { std::string path,ref,text; int state=GOOD; };
struct SScene {
  std::string dir,cwd,path,arg,text; std::vector<SChild> kids; std::vector<SImg> imgs; std::vector<SObj> objs;
  std::vector<SDef> defs; std::vector<SMat> mats; std::vector<SWorld> worlds; std::vector<SShape> shapes;   // in the order they are parsed
  std::set<std::string> decoys; std::string out="out.ppm"; int width=32,height=8,spp=1; bool stratified=true; bool unfiltered=false; std::string what;
  const SImg* img(const std::string& p) const { for(auto&i:imgs) if(i.path==p) return &i; return nullptr; }
  const SObj* obj(const std::string& p) const { for(auto&i:objs) if(i.path==p) return &i; return nullptr; }
};
struct SceneOpt { bool bad_files=true; bool kids=true; bool tiff=true; bool decoys=true; int max_imgs=5; bool uniform=false; int pad=0; std::string out; };
SScene make_scene(Rng& r,const SceneOpt& o);
void place(const SScene& s);        // puts every file on the simulated disk
// what the description means when every file is as generated
struct Meaning {
  std::map<std::string,std::string> lib;          // texture name -> image
  std::set<std::string> tried;                    // images loaded or tried
  std::map<std::string,SMat> mats; 
  std::map<std::string,SObjPart> shapes;
};
Meaning meaning(const SScene& s);
const SImg* lookup(const SScene& s,const Meaning& m,const std::string& ref,const std::string& abs); // the image a reference means, or null
}
