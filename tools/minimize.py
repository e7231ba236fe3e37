#!/usr/bin/env python3
"""Reduce a failing program: minimize.py CFG PROFILE SEED [extra engine args]"""
import sys,os,subprocess,re
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vbuild as v
cfg,prof,seed=sys.argv[1:4]; extra=[x for x in sys.argv[4:] if x not in('-d','-v')]
exe=v.runner(cfg)+[os.path.join(v.WORK,'eng_'+cfg)]
def go(nops,pr=0):
    p=subprocess.run(exe+['profile='+prof,'seed='+seed,'count=1','print=%d'%pr,'nop='+','.join(map(str,nops))]+extra,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
    if pr: return p.stdout
    q=subprocess.run(exe+['profile='+prof,'seed='+seed,'count=1','minit=1','nop='+','.join(map(str,nops))]+extra,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
    return p.stdout if p.stdout.split('STAT')[0]==q.stdout.split('STAT')[0] else ''
def kind(o):
    m=re.search(r'^FAIL .*?kind=(\w+)(?: signal \d+ in phase \w+)?',o,re.M); return m.group(0)+''.join(re.findall(r'Assertion.*',o)) if m else None
o=go([],1); k0=kind(o); n=max(int(m) for m in re.findall(r'^ *(\d+) \w+ ',o,re.M))+1
idx=[int(m) for m,kk in re.findall(r'^ *(\d+) (\w+) ',o,re.M) if kk!='label']
dropped=[]; live=list(idx); chunk=max(1,len(live)//4)
ex=ThreadPoolExecutor(8)
while True:
    i=0; changed=False
    while i<len(live):
        cs=[(live[i+j*chunk:i+(j+1)*chunk]) for j in range(8) if live[i+j*chunk:i+(j+1)*chunk]]
        res=list(ex.map(lambda c: kind(go(dropped+c))==k0,cs))
        hit=next((j for j,r in enumerate(res) if r),None)
        if hit is None: i+=chunk*8
        else:
            c=set(cs[hit]); dropped+=cs[hit]; live=[x for x in live if x not in c]; i+=hit*chunk; changed=True
    if chunk==1 and not changed: break
    chunk=max(1,chunk//2)
print('\n'.join(l for l in go(dropped,1).split('\n') if ' label ' not in l or '-v' in sys.argv))

if '-d' in sys.argv:
    D={'x86_64':'objdump -m i386:x86-64','x86_32':'objdump -m i386','aarch64':'aarch64-linux-gnu-objdump -m aarch64','armv7':'arm-linux-gnueabihf-objdump -m arm','armv6':'arm-linux-gnueabihf-objdump -m arm','armt2':'arm-linux-gnueabihf-objdump -m arm -M force-thumb','riscv64':'riscv64-linux-gnu-objdump -m riscv:rv64','riscv64_ext':'riscv64-linux-gnu-objdump -m riscv:rv64','s390x':'s390x-linux-gnu-objdump -m s390:64-bit -EB','loongarch64':'loongarch64-linux-gnu-objdump -m loongarch64','ppc64le':'powerpc64le-linux-gnu-objdump -m powerpc:common64 -EL','ppc32':'powerpc-linux-gnu-objdump -m powerpc -EB','mips32el':'mipsel-linux-gnu-objdump -m mips:isa32r2 -EL','mips64el':'mips64el-linux-gnuabi64-objdump -m mips:isa64r2 -EL'}
    f='/tmp/dump_%s_%s_%s.bin'%(cfg,prof,seed)
    subprocess.run(exe+['profile='+prof,'seed='+seed,'count=1','dump='+f,'nop='+','.join(map(str,dropped))],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
    o=subprocess.run(D[cfg].split()+['-D','-b','binary',f],stdout=subprocess.PIPE,text=True).stdout
    open(f[:-3]+'dis','w').write('\n'.join(o.split('\n')[7:])); print('dis in',f[:-3]+'dis')
