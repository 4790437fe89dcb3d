#!/usr/bin/env python3
"""try_seeded.py [ID...]: applies each planted change to /repo, runs the quick check of its property, undoes it. Development aid; no check uses it."""
import json,os,subprocess,sys,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S=V+'/seeded'
for i in (sys.argv[1:] or sorted(os.listdir(S))):
    m=json.load(open('%s/%s/meta.json'%(S,i))); assert not subprocess.run(['git','-C','/repo','status','--short'],capture_output=True,text=True).stdout
    subprocess.check_call(['git','-C','/repo','apply','%s/%s/patch.diff'%(S,i)]); t=time.time()
    try: r=subprocess.run(['python3',V+'/driver/check.py',m['property'],'quick'],capture_output=True,text=True,timeout=900)
    finally: subprocess.check_call(['git','-C','/repo','checkout','--','.'])
    v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(i,m['property'],'rc',r.returncode,'%.0fs'%(time.time()-t),'CAUGHT' if v and r.returncode==1 else 'MISSED'); sys.stdout.flush()
    for l in v[:3]: print('   ',l)
