#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the functions in lib/checks.py"""
import json,sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import checks
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
ENG='runtime monitoring: generated programs run on the real library and machine code (natively and under qemu-user); an online oracle (independent interpreter, caller/callee monitors, canaries) judges every run'
TECH={'C16':'runtime monitor: mutated API calls on generated valid programs, verdict and error state of each call compared with an independent validity predicate written from the documentation, bounds sanitizer trapping, natively, under qemu-user and on the host for every backend','C09':'runtime monitor: offline linearizability check over the logged attempts of threads running generated atomic updates, with neighbour bytes and register sentinels, natively and under qemu-user for every backend with atomics','C20':'runtime monitor: query results, emitted bytes and register contents (through hand-encoded instructions) are compared on generated forms, natively, under qemu-user and on the host for every backend','C13':'AddressSanitizer and UndefinedBehaviorSanitizer on the library with exact-size code buffers and canaries, on generated programs for every backend','C12':'fault injection at every allocation index with AddressSanitizer and an allocation ledger','C14':'runtime monitor (shadow interval set, fingerprints, /proc/self/maps, mmap ledger) over random and threaded histories','C15':'runtime monitor over random resize histories with mapping ledger','C16':'argument mutation of valid calls judged by an independent validity predicate','C17':'ThreadSanitizer and cross-thread result comparison','C18':'differential execution against a reference matcher, AddressSanitizer','C09':'multi-threaded stress with conservation/linearizability monitors','C19':'the same programs under different builds, comparing machine code and behaviour','C20':'query results compared with emission results and execution of hand-encoded instructions'}
NOTE={'C12':'fault_enumeration'}
cs=[]
for p in props:
    if p['id'] not in checks.CHECKS: continue
    cs.append({'property':p['id'],'quick_cmd':'python3 run.py check %s quick'%p['id'],'thorough_cmd':'python3 run.py check %s thorough'%p['id'],'evidence_file':'evidence/%s.json'%p['id'],'technique':TECH.get(p['id'],ENG),
      'level':NOTE.get(p['id'],'exploration'),'level_note':'Observed executions of the real code only; nothing is claimed about inputs that were not run. Qemu-user stands in for non-x86 CPUs.'})
na=[{'property':p['id'],'reason':'check under construction'} for p in props if p['id'] not in checks.CHECKS]
json.dump({'version':1,'setup_cmd':'python3 run.py setup','hooks':{'guard':'none','enable':'no hooks are needed: the checks compile the unmodified sources with -D options the library already has'},'checks':cs,'not_applicable':na,'notes':'See DESIGN.md. known_findings.txt lists genuine defects.'},open(V+'/MANIFEST.json','w'),indent=1)
