#!/usr/bin/env python3
"""Builds the simulator against /repo's current working tree (content-addressed object cache in /verif/build)."""
import hashlib, os, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("VERIF_REPO","/repo")
B=os.path.join(V,"build"); OBJ=os.path.join(B,"obj")
DEFS=['-DCOMPILER_NAME="sim"','-DCOMPILER_VERSION="1"']
IMG=['-DJPEG_FOUND','-DPNG_FOUND','-DTIFF_FOUND']
MODES={
 'simt':dict(san=['-O1','-g','-fno-omit-frame-pointer','-fsanitize=thread','-Wno-tsan'],har=['-O2','-g','-DSIMT'],rt='rt_tsan.cpp',link=[]),
 'sima':dict(san=['-O1','-g','-fno-omit-frame-pointer','-fsanitize=address','-fno-common','-fsanitize-coverage=trace-pc'],har=['-O2','-g','-DSIMA'],rt='rt_asan.cpp',link=['-fsanitize=address']),
}
REDEF=['memcpy','memmove','memset','strcpy','strcat']
def sh(cmd):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: raise SystemExit("build failed: %s\n%s"%(' '.join(cmd),r.stdout[-6000:]))
def h(*parts):
    m=hashlib.sha256()
    for p in parts: m.update(p if isinstance(p,bytes) else p.encode()); m.update(b'\0')
    return m.hexdigest()[:32]
def rd(p):
    with open(p,'rb') as f: return f.read()
def repo_sources():
    s=[]
    for ext in ('cpp','cc','c'):
        s+=glob.glob(REPO+'/src/**/*.'+ext,recursive=True)
    return sorted(x for x in s if '/tests/' not in x)
def headers(root):
    hs=[]
    for ext in ('h','hpp','hh','inl','tcc'):
        hs+=glob.glob(root+'/**/*.'+ext,recursive=True)
    return hashlib.sha256(b''.join(x.encode()+rd(x) for x in sorted(hs))).hexdigest()
def build(mode,programs):
    """programs: {name:[harness sources]}; returns {name:path}"""
    os.makedirs(OBJ,exist_ok=True)
    lock=open(os.path.join(B,'lock'),'w'); fcntl.flock(lock,fcntl.LOCK_EX)
    m=MODES[mode]; rh=headers(REPO+'/src'); vh=headers(V+'/sim')+headers(V+'/harness'); jobs=[]; robj=[]
    for s in repo_sources():
        rel=os.path.relpath(s,REPO)
        if rel.endswith('.c'): fl=['gcc']+m['san']+IMG
        else: fl=['g++','-std=c++11','-include','cstdint']+m['san']
        fl+=DEFS+['-I',REPO+'/src','-w']
        if rel=='src/main.cpp': fl+=['-Dmain=spectre_main']
        o=os.path.join(OBJ,h(mode,rel,rd(s),rh,' '.join(fl))+'.o'); robj.append(o); jobs.append((s,o,fl,mode=='simt'))
    hobj={}
    def hsrc(s):
        rel=os.path.relpath(s,V); fl=['g++','-std=c++17','-include','cstdint','-fno-builtin-exit']+m['har']+DEFS+IMG+['-I',V+'/sim','-I',V+'/harness','-I',REPO+'/src','-w']
        o=os.path.join(OBJ,h(mode,rel,rd(s),rh,vh,' '.join(fl))+'.o'); hobj[s]=o
        if not any(j[1]==o for j in jobs): jobs.append((s,o,fl,False))
        return o
    core=[hsrc(os.path.join(V,'sim',x)) for x in ('core.cpp','fs.cpp','runner.cpp',m['rt'])]
    progs={n:[hsrc(os.path.join(V,'harness',x)) for x in ss] for n,ss in programs.items()}
    def comp(j):
        s,o,fl,redef=j
        if os.path.exists(o): return
        t=o+'.tmp%d.o'%os.getpid(); sh(fl+['-c',s,'-o',t])
        if redef: sh(['objcopy']+['--redefine-sym=%s=sim_%s'%(x,x) for x in REDEF]+[t])
        os.rename(t,o)
    with ThreadPoolExecutor(8) as ex: list(ex.map(comp,jobs))
    out={}
    def link(n):
        k=h(mode,n,*(core+progs[n]+robj)); p=os.path.join(B,'%s_%s_%s'%(mode,n,k[:16]))
        if not os.path.exists(p):
            t=p+'.tmp%d'%os.getpid()
            sh(['g++','-o',t]+progs[n]+core+robj+m['link']+['-Wl,--export-dynamic','-no-pie' if mode=='simt' else '-no-pie','-ljpeg','-lpng','-ltiff','-lz','-lpthread','-ldl'])
            os.rename(t,p)
        out[n]=p
    with ThreadPoolExecutor(4) as ex: list(ex.map(link,list(progs)))
    # trim the cache: keep what was used recently
    used=set([j[1] for j in jobs]+list(out.values())); 
    for f in used:
        try: os.utime(f)
        except OSError: pass
    allf=[os.path.join(OBJ,f) for f in os.listdir(OBJ)]+[os.path.join(B,f) for f in os.listdir(B) if f.startswith(('simt_','sima_'))]
    if len(allf)>1500:
        allf.sort(key=lambda f:os.path.getmtime(f))
        for f in allf[:len(allf)-1000]:
            if f not in used:
                try: os.unlink(f)
                except OSError: pass
    fcntl.flock(lock,fcntl.LOCK_UN); lock.close()
    return out
PROGRAMS={
 'simt':{'render':['render.cpp','common.cpp'],'light':['light.cpp','common.cpp'],'texture':['texture.cpp','images.cpp','common.cpp']},
 'sima':{'io':['io.cpp','images.cpp','common.cpp'],'obj':['obj.cpp','objgen.cpp','common.cpp'],'scene':['scene.cpp','scenegen.cpp','images.cpp','common.cpp'],'settings':['settings.cpp','images.cpp','common.cpp'],'misc':['misc.cpp','images.cpp','common.cpp']},
}
if __name__=='__main__':
    for mo in (sys.argv[1:] or list(PROGRAMS)):
        if PROGRAMS[mo]: print(build(mo,PROGRAMS[mo]))
