#!/usr/bin/env python3
"""Decides one property by seeded search over simulated runs.
  check.py <ID> quick|thorough     exit 0 held, 1 violation (VIOLATION line), 2 the check itself failed
  check.py replay <FILE>           builds and replays one file exactly
"""
import sys, os, json, time, subprocess, re, tempfile, shutil, collections
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build as bld
from props import PROPS, STUBS, RULES
V=bld.V; REPLAYS=os.path.join(V,"replays"); EVID=os.path.join(V,"evidence")
NW=8
BUDGET={'quick':float(os.environ.get('VERIF_QUICK_SECONDS','40')),'thorough':float(os.environ.get('VERIF_THOROUGH_SECONDS','700'))}

def log(*a): print(*a,flush=True)
def run(cmd,timeout=None,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout,**k)
def one_json(out):
    for l in out.splitlines():
        if l.startswith('{"scenario"'):
            try: return json.loads(l)
            except ValueError: pass
    return None
def symbolise(binary,text):
    addrs=sorted(set(re.findall(r'0x[0-9a-f]{6,16}',text)))
    addrs=[a for a in addrs if int(a,16)<0x10000000]
    if not addrs: return text
    try: o=run(['addr2line','-Cfse',binary]+addrs,timeout=60).stdout.splitlines()
    except Exception: return text
    m={}
    for i,a in enumerate(addrs):
        if 2*i+1<len(o) and o[2*i]!='??': m[a]='%s [%s]'%(re.sub(r'\(.*','',o[2*i]),o[2*i+1].split(' (')[0])
    return re.sub(r'0x[0-9a-f]{6,16}',lambda x:m.get(x.group(0),x.group(0)),text)
def known_findings(pid):
    out=[]; p=os.path.join(V,'known_findings.txt')
    if not os.path.exists(p): return out
    for l in open(p):
        l=l.strip()
        m=re.match(r'known: property=(\S+) scenario=(\S+) class=(\S+) match=/(.*)/ (.*)$',l)
        if m and m.group(1)==pid: out.append(dict(scenario=m.group(2),cls=m.group(3),rx=re.compile(m.group(4)),what=m.group(5)))
    return out
def build_for(pid):
    bins=[]; 
    for mode in ('simt','sima'):
        progs={p:bld.PROGRAMS[mode][p] for (m,p) in PROPS[pid] if m==mode}
        if progs: 
            r=bld.build(mode,progs); bins+=[(mode,p,r[p]) for p in progs]
    return bins
def replay(binary,f,notes=False):
    r=run([binary,'--replay='+f]+(['--notes'] if notes else []),timeout=300); return one_json(r.stdout),r.stdout
def main():
    if sys.argv[1]=='replay': return replay_cmd(sys.argv[2])
    pid,tier=sys.argv[1],(sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick'))
    seed=int(os.environ.get('VERIF_SEED','1') or 1); t0=time.time()
    os.makedirs(REPLAYS,exist_ok=True); os.makedirs(EVID,exist_ok=True)
    bins=build_for(pid); tb=time.time()-t0
    tmp=tempfile.mkdtemp(prefix='vsim_'); rc=2
    try: rc=explore(pid,tier,seed,bins,tmp,t0,tb)
    finally: shutil.rmtree(tmp,ignore_errors=True)
    return rc
def determinism(bins,pid,seed,n):
    """The same seeds twice, in different processes: every run must give the same hash and verdict."""
    c=0
    for mode,prog,b in bins:
        outs=[]
        ps=[subprocess.Popen([b,'--property='+pid,'--base=%d'%(seed+900),'--from=0','--to=%d'%n,'--stride=1','--max-violations=1000'],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True) for _ in (0,1)]
        for p in ps:
            o,_=p.communicate(timeout=600); outs.append([(d['seed'],d['verdict'],d['hash'],d['steps']) for d in map(json.loads,[l for l in o.splitlines() if l.startswith('{"scenario"')])])
        if outs[0]!=outs[1]: raise SystemExit(fail("determinism self-check failed for %s/%s: %s"%(mode,prog,[x for x in zip(*outs) if x[0]!=x[1]][:2])))
        c+=len(outs[0])
    return c
def fail(msg): log("CHECK ERROR: "+msg); return 2
def explore(pid,tier,seed,bins,tmp,t0,tb):
    budget=BUDGET[tier]; known=known_findings(pid)
    ndet=determinism(bins,pid,seed,6 if tier=='quick' else 24)
    # workers, spread over the programs of this property
    procs=[]; per=max(1,NW//len(bins)); texp=time.time()
    for bi,(mode,prog,b) in enumerate(bins):
        for i in range(per):
            d=os.path.join(tmp,'w%d_%d'%(bi,i)); os.makedirs(d); out=os.path.join(d,'out.jsonl')
            p=subprocess.Popen([b,'--property='+pid,'--base=%d'%(seed*10+bi),'--from=%d'%i,'--stride=%d'%per,'--time=%f'%budget,'--dir='+d,'--out='+out,'--max-violations=1000000','--run-limit=100'],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
            procs.append(dict(p=p,d=d,out=out,b=b,mode=mode,prog=prog,pos=0,buf=''))
    agg=Agg(); confirmed=None; knownhits=collections.OrderedDict(); pending=[]; tried=collections.Counter(); unrep=[]
    def poll(w):
        try:
            with open(w['out']) as f: f.seek(w['pos']); s=f.read(); w['pos']=f.tell()
        except OSError: return
        w['buf']+=s; ls=w['buf'].split('\n'); w['buf']=ls.pop()
        for l in ls:
            try: d=json.loads(l)
            except ValueError: continue
            if 'edges' in d: agg.cov(w['mode']+w['prog'],d); continue
            agg.add(d,w)
            if d['verdict']==2: pending.append((d,w))
    def judge():
        nonlocal confirmed
        while pending and not confirmed:
            d,w=pending.pop(0); key=(w['b'],d['scenario'],d['cls'])
            msg=symbolise(w['b'],d['msg'])
            k=next((k for k in known if k['scenario'] in ('*',d['scenario']) and k['cls'] in ('*',d['cls']) and k['rx'].search(msg+' || '+d['sample'])),None)
            if k: knownhits.setdefault(k['what'],0); knownhits[k['what']]+=1; continue
            if tried[key]>=3: continue
            tried[key]+=1
            f=os.path.join(tmp,'g_%d.replay'%len(tried)); f=f[:-7]+'_%d.replay'%tried[key]
            r=run([w['b'],'--scenario='+d['scenario'],'--base=%d'%(d['seed']//1000003),'--from=%d'%(d['seed']%1000003),'--to=%d'%(d['seed']%1000003+1),'--dir='+tmp+'/','--max-violations=1'],timeout=300)
            src=os.path.join(tmp,'%s_%d.replay'%(d['scenario'],d['seed'])); d1=one_json(r.stdout)
            if not d1 or d1['verdict']!=2 or d1['cls']!=d['cls'] or d1['hash']!=d['hash'] or not os.path.exists(src): unrep.append((d,'the same seed gave another run')); continue
            a,_=replay(w['b'],src); c,_=replay(w['b'],src)
            if not a or not c or a['verdict']!=2 or a['cls']!=d['cls'] or a['hash']!=c['hash'] or a['msg']!=c['msg']: unrep.append((d,'the replay file gave another run')); continue
            confirmed=(d,w,src,msg)
    while True:
        live=[w for w in procs if w['p'].poll() is None]
        for w in procs: poll(w)
        judge()
        if confirmed or not live: break
        if time.time()-texp>budget+200: break
        time.sleep(0.25)
    for w in procs:
        if w['p'].poll() is None: w['p'].kill()
        w['p'].wait()
    for w in procs: poll(w)
    judge()
    wall_explore=time.time()-texp
    for w in dict.fromkeys(k['what'] for k in known): log("KNOWN-FINDING: property=%s %s (met in %d runs)"%(pid,w,knownhits.get(w,0)))
    rc=0; viol=0
    if confirmed:
        d,w,src,msg=confirmed; viol=1; rc=1
        dst=os.path.join(REPLAYS,'%s_%s_%d.replay'%(pid,d['scenario'],d['seed']))
        mb=30 if tier=='quick' else 120
        log("violation in scenario %s, seed %d, class %s: %s"%(d['scenario'],d['seed'],d['cls'],msg[:3000])); log("case: "+d['sample'][:1000])
        try: r=run([w['b'],'--minimise='+src,'--class='+d['cls'],'--budget=%d'%mb,'--out='+dst],timeout=mb+260); log(r.stdout.strip())
        except subprocess.TimeoutExpired: pass
        if os.path.exists(dst):
            a,_=replay(w['b'],dst); c,_=replay(w['b'],dst)
            if not a or not c or a['verdict']!=2 or a['cls']!=d['cls'] or a['hash']!=c['hash']: os.unlink(dst)
            else: log("minimised case: %s\nminimised violation: %s"%(a['sample'][:1000],symbolise(w['b'],a['msg'])[:2000]))
        if not os.path.exists(dst): shutil.copy(src,dst)
        log("VIOLATION property=%s replay=%s"%(pid,dst))
    elif unrep:
        for d,why in unrep[:5]: log("not reproducible (%s): %s seed %d %s %s"%(why,d['scenario'],d['seed'],d['cls'],d['msg'][:500]))
        rc=fail("violations that do not replay")
    elif agg.runs==0: rc=fail("no run completed")
    elif agg.errors and agg.errors*20>agg.runs: 
        for e in agg.errmsg[:5]: log(e)
        rc=fail("%d of %d runs ended in harness errors"%(agg.errors,agg.runs))
    evidence(pid,tier,seed,bins,agg,ndet,wall_explore,tb,time.time()-t0,viol,knownhits)
    log("%s %s: %d runs (%d distinct non-trivial), %d errors, %.1f s%s"%(pid,tier,agg.runs,len(agg.distinct),agg.errors,time.time()-t0,"" if rc else ", held"))
    return rc
class Agg:
    def __init__(s):
        s.runs=s.errors=0; s.distinct=set(); s.all=set(); s.errmsg=[]; s.steps=s.simns=s.switches=s.preempts=s.io=s.choices=0; s.threads=0; s.faults=collections.Counter(); s.probes=collections.Counter(); s.faulted=0; s.per=collections.Counter(); s.samples=[]; s.covers={}; s.seedlo=None; s.seedhi=None; s.modes=collections.Counter(); s.seen=set()
    def add(s,d,w):
        s.runs+=1; s.per[d['scenario']]+=1; s.modes[w['mode']]+=1
        if d['verdict']==3: s.errors+=1; s.errmsg.append("error in %s seed %d: %s"%(d['scenario'],d['seed'],d['msg'][:300])); return
        s.all.add(d['hash'])
        if d['nontrivial']: s.distinct.add(d['hash'])
        s.steps+=d['steps']; s.simns+=d['simns']; s.switches+=d['switches']; s.preempts+=d['preempts']; s.io+=d['ioops']; s.choices+=d['nchoices']; s.threads=max(s.threads,d['threads'])
        for k,v in d['faults'].items(): s.faults[k]+=v
        if d['faults']: s.faulted+=1
        for k,v in d['probes'].items(): s.probes[k]+=v
        s.seedlo=d['seed'] if s.seedlo is None else min(s.seedlo,d['seed']); s.seedhi=d['seed'] if s.seedhi is None else max(s.seedhi,d['seed'])
        if d['nontrivial'] and (d['scenario'] not in s.seen or (len(s.samples)<8 and s.runs%37==0)): s.seen.add(d['scenario']); s.samples.append(dict(scenario=d['scenario'],seed=d['seed'],case=d['sample'][:600],steps=d['steps'],simulated_seconds=d['simns']/1e9,switches=d['switches'],faults=d['faults'],probes=d['probes']))
    def cov(s,k,d):
        m=s.covers.setdefault(k,{})
        for x in d['cov'].split(','):
            if ':' in x: a,b=x.split(':'); m[a]=m.get(a,0)|int(b,16)
    def edges(s): return {k:sum(bin(v).count('1') for v in m.values()) for k,m in s.covers.items()}
def evidence(pid,tier,seed,bins,agg,ndet,wall,tb,total,viol,known):
    h=max(wall,1e-9)/3600
    cov=dict(evaluations=agg.runs,distinct_nontrivial=len(agg.distinct),rule=RULES.get(pid,'')+" Each run is one seed: workload, schedule, faults and clock are drawn from it. A run is non-trivial when the scenario marked that the condition it is about was reached; runs are distinct by the hash of the whole execution (thread switches, I/O operations with results, clock values, faults).",
      samples=agg.samples[:10],runs_per_hour=round(agg.runs/h),seeds=dict(first=agg.seedlo,last=agg.seedhi),simulated_seconds=round(agg.simns/1e9,3),steps=agg.steps,thread_switches=agg.switches,preemptions=agg.preempts,io_operations=agg.io,max_threads=agg.threads,distinct_executions=len(agg.all),
      runs_with_faults=agg.faulted,faults_injected=dict(agg.faults),conditions_reached=dict(agg.probes),runs_per_scenario=dict(agg.per),harness_errors=agg.errors,error_messages=agg.errmsg[:5],determinism_runs_compared=ndet,coverage_edges=agg.edges(),known_findings={k:n for k,n in known.items()},
      builds=[dict(mode=m,program=p) for m,p,_ in bins],real_components="every source file under /repo/src, plus libjpeg, libpng, libtiff and libstdc++ of the system",stubbed_components=STUBS,build_s=round(tb,1))
    json.dump(dict(property=pid,tier=tier,seed=seed,level='exploration',coverage=cov,wall_s=round(total,2),violations=viol,assumptions=[
      "the simulator's model of POSIX threads, clocks and files is faithful where the program uses it",
      "gcc's instrumentation reports every memory access (simt) or basic block (sima) of the repository's code; library code runs atomically between interposed calls",
      "memory is sequentially consistent (weak-memory reorderings are only seen as data races)"]),open(os.path.join(EVID,pid+'.json'),'w'),indent=1)
def replay_cmd(f):
    head=dict(l.split(' ',1) for l in open(f).read().split('\n')[:8] if ' ' in l and not l.startswith('#')); pid=head['property'].strip(); mode=head['build'].strip(); sc=head['scenario'].strip()
    for m,p,b in build_for(pid):
        if m!=mode: continue
        if sc not in run([b,'--list']).stdout.split(): continue
        d,out=replay(b,f,True)
        if d: log("verdict %s hash %s\ncase: %s\n%s: %s"%({1:'held',2:'violation',3:'error'}[d['verdict']],d['hash'],d['sample'],d['cls'],symbolise(b,d['msg'])))
        log(out[-3000:] if not d else ''); 
        if d and d['verdict']==2: log("VIOLATION property=%s replay=%s"%(pid,f)); return 1
        return 0 if d and d['verdict']==1 else 2
    return fail('no program runs scenario '+sc)
if __name__=='__main__': sys.exit(main())
