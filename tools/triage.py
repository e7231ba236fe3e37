#!/usr/bin/env python3
"""Minimise many failures of a configuration: triage.py CFG [profiles] [count] [per profile] [seed]"""
import sys,os,subprocess,re
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vbuild as v
cfg=sys.argv[1]; profs=(sys.argv[2] if len(sys.argv)>2 and sys.argv[2]!='all' else 'int,flags,mem,frame,jump,far,float,simd,patch,mix').split(',')
count=int(sys.argv[3]) if len(sys.argv)>3 else 400; per=int(sys.argv[4]) if len(sys.argv)>4 else 3; seed0=sys.argv[5] if len(sys.argv)>5 else '1'
v.engine(cfg)
exe=v.runner(cfg)+[os.path.join(v.WORK,'eng_'+cfg)]
def find(p):
    o=subprocess.run(exe+['profile='+p,'seed='+seed0,'count=%d'%count,'maxfail=%d'%per],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace').stdout
    return [(p,m) for m in re.findall(r'^FAIL .*?seed=(\d+)',o,re.M)]
with ThreadPoolExecutor(8) as ex: todo=[x for l in ex.map(find,profs) for x in l]
def mini(t):
    o=subprocess.run([sys.executable,os.path.join(os.path.dirname(os.path.abspath(__file__)),'minimize.py'),cfg,t[0],t[1]],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace').stdout
    ls=[l[:150] for l in o.split('\n') if l and not l.startswith('STAT') and 'dependent run' not in l and ' ret ' not in l]
    return '### %s %s\n%s'%(t[0],t[1],'\n'.join(ls[-14:]))
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(mini,todo): print(r,flush=True)
