// Fault configurations shared by the scenarios that do I/O.
#pragma once
#include "sim.h"
#include "internal.h"
#include <cstdio>
#include <map>
#include <string>
namespace hx {
using namespace sim;
struct FaultMode { int mode; std::string name; };
inline FaultMode pick_faults(bool writing){
  faults=FaultCfg(); faults.on=true; FaultMode m; m.mode=(int)wl(8); char t[160];
  static const int SP[]={0,300,1000,50}; if(m.mode){ (writing?faults.short_permille_write:faults.short_permille_read)=SP[wl(4)]; faults.budget=1+(int)wl(3); if(wl(3)==2) faults.budget=1000; }
  switch(m.mode){
    case 0: m.name="healthy"; break;
    case 1: faults.short_permille_read=faults.short_permille_write=1000-(int)wl(800); m.name="short transfers only"; faults.budget=0; break;
    case 2: { int p=5+(int)wl(400); for(int i=0;i<OP_OPS;i++) faults.permille[i]=p; snprintf(t,160,"any operation fails with %d permille",p); m.name=t; break; }
    case 3: { int p=20+(int)wl(900); Op o=writing?(wl(2)?OP_CLOSE:OP_WRITE):(wl(2)?OP_SEEK:OP_READ); faults.permille[o]=p; snprintf(t,160,"%s fails with %d permille",op_name[o],p); m.name=t; break; }
    case 4: if(writing){ faults.capacity=(i64)wl(wl(2)?200:20000); snprintf(t,160,"disk full after %lld bytes",(long long)faults.capacity); m.name=t; break; } // fallthrough
    case 5: faults.die_at=(i64)(fs::ops()+1+wl(wl(2)?8:60)); faults.budget=1000000; snprintf(t,160,"device dies at operation +%llu",(unsigned long long)(faults.die_at-fs::ops())); m.name=t; break;
    default: faults.target_op=(i64)(fs::ops()+1+wl(wl(2)?8:80)); snprintf(t,160,"operation +%llu fails",(unsigned long long)(faults.target_op-fs::ops())); m.name=t; break; }
  return m;
}
inline void heal(){ faults=FaultCfg(); }
inline std::map<std::string,u64> snapshot(){ Harness h; std::map<std::string,u64> m; for(auto&p:fs::list_all()){ std::string d; m[p]=fs::get(p,d)?bytes_hash(d.data(),d.size()):1; } return m; }
inline void only_changed(const std::map<std::string,u64>& a,const std::string& allowed,const char* when){ Harness h; auto b=snapshot(); for(auto&x:a) if(x.first!=allowed){ auto it=b.find(x.first); if(it==b.end()||it->second!=x.second) violation("other-file","%s changed or removed %s",when,x.first.c_str()); } for(auto&x:b) if(x.first!=allowed&&!a.count(x.first)) violation("other-file","%s created %s",when,x.first.c_str()); }

// runs program code from a scenario that is in harness mode
inline Outcome prog_run(Harness& hh,const std::function<void()>& f){ hh.t->harness--; Outcome o=guarded(f); hh.t->harness++; return o; }
}
