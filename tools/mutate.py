#!/usr/bin/env python3
"""Random mutants of the library against the run harnesses: mutate.py CFG COUNT SEED FILE[,FILE] [scale]
Prints every mutant which none of the harnesses notices (development aid: shows which code no monitor judges)."""
import sys, os, re, random, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/lib')
import vbuild as v, gencalls
cfg, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); files = sys.argv[4].split(','); scale = float(sys.argv[5]) if len(sys.argv) > 5 else 1
cc, _, cpp, cf = v.CONFIGS[cfg]; R = random.Random(seed); native = not v.runner(cfg)
T = tempfile.mkdtemp(prefix='mut_', dir='/tmp'); base = ['-O1', '-ffp-contract=off', '-fno-strict-aliasing', '-w', '-I', V + '/harness'] + cpp + cf
def sh(c, t=300):
    try: p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t); return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return 124, ''
stub = T + '/stubs.c'; gencalls.write(stub)
H = {'eng': v.ENG, 'calls': ['calls.c', stub, 'tramp.S'], 'atomic': ['atomic.c'], 'query': ['query.c']}; O = {}
def hobj(a):
    h, s = a; o = '%s/%s_%s.o' % (T, h, os.path.basename(s)); x = v.QDEF if h == 'query' else []
    r, t = sh([cc] + base + x + ['-I', v.REPO + '/sljit_src', '-c', s if s.startswith('/') else V + '/harness/' + s, '-o', o]); assert r == 0, t[-2000:]; return h, o
with ThreadPoolExecutor(8) as ex:
    for h, o in ex.map(hobj, [(h, s) for h in H for s in H[h]]): O.setdefault(h, []).append(o)
def lib(src, out, x=()):
    return sh([cc] + base + ['-g0'] + list(x) + ['-c', 'sljitLir.c', '-o', out]) if not os.chdir('/') and False else subprocess.run([cc] + base + ['-g0'] + list(x) + ['-c', 'sljitLir.c', '-o', out], cwd=src, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
SRC = v.REPO + '/sljit_src'; lib(SRC, T + '/ref.o'); ref = open(T + '/ref.o', 'rb').read()
def muts(l):
    out = []; s = l.strip()
    if not s or s.startswith(('#', '/*', '*', '//', 'SLJIT_ASSERT', 'CHECK')) or 'SLJIT_ASSERT' in s or 'UNREACHABLE' in s: return out
    def rep(a, b):
        for m in re.finditer(a, l): out.append(l[:m.start()] + m.expand(b) + l[m.end():])
    for a, b in ((r' <= ', ' < '), (r' < ', ' <= '), (r' >= ', ' > '), (r' > ', ' >= '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r'if \(!', 'if (!!'), (r'\bTMP_REG1\b', 'TMP_REG2'), (r'\bTMP_REG2\b', 'TMP_REG1'), (r'\bdst_r\b', 'dst'), (r'\bsrc1\b', 'src2'), (r'\bsrc2\b', 'src1'), (r'if \((?!!)', 'if (!')): rep(a, b) if a != r'if \((?!!)' else None
    for m in re.finditer(r'\b(0x[0-9a-f]+|[0-9]+)(?=[lu]?\b)', l):
        t = m.group(1); n = int(t, 0); out.append(l[:m.start()] + (hex(n + 1) if t.startswith('0x') else str(n + 1)) + l[m.end():])
        if n: out.append(l[:m.start()] + (hex(n - 1) if t.startswith('0x') else str(n - 1)) + l[m.end():])
    if re.match(r'^\s*(FAIL_IF\(|[a-z_>\-\.\[\]0-9]+ (\||\+|&|-)?= )', l) and s.endswith(';'): out.append(re.match(r'^\s*', l).group(0) + ';\n')
    for m in re.finditer(r' \| [A-Z_0-9]+(\([^()]*\))?', l): out.append(l[:m.start()] + l[m.end():])
    return out
cand = []
for f in files:
    L = open(SRC + '/' + f).readlines()
    for i, l in enumerate(L):
        for m in muts(l): cand.append((f, i, l, m))
R.shuffle(cand); print(len(cand), 'candidates', flush=True)
PROF = ['mix', 'int', 'mem', 'flags', 'frame', 'jump', 'float', 'simd', 'patch', 'far']
def one(c):
    f, i, l, m = c; d = tempfile.mkdtemp(dir=T)
    try:
        shutil.copytree(SRC, d + '/s', ignore=shutil.ignore_patterns('*.o')); L = open(d + '/s/' + f).readlines(); L[i] = m; open(d + '/s/' + f, 'w').writelines(L)
        if lib(d + '/s', d + '/l.o'): return 'nocompile', c
        if open(d + '/l.o', 'rb').read() == ref: return 'same', c
        def link(h, o): return sh([cc] + cf + O[h] + [o, '-o', d + '/' + h, '-lm', '-lpthread'])[0] == 0
        run = v.runner(cfg); n = lambda a, b: str(max(1, int((a if native else b) * scale)))
        if not link('eng', d + '/l.o'): return 'nolink', c
        for p in PROF:
            k = n(400, 60); k = str(max(1, int(k) // 20)) if p == 'far' else k
            r, o = sh(run + [d + '/eng', 'profile=' + p, 'seed=1', 'count=' + k, 'maxfail=1'], 120)
            if r or 'FAIL' in o: return 'killed eng ' + p, c
        if link('calls', d + '/l.o'):
            r, o = sh(run + [d + '/calls', 'seed=1', 'count=' + n(300, 60), 'maxfail=1'], 120)
            if r or 'FAIL' in o: return 'killed calls', c
        if link('atomic', d + '/l.o'):
            r, o = sh(run + [d + '/atomic', 'profile=rmw', 'seed=1', 'count=' + n(150, 24), 'maxfail=1'], 120)
            if r or 'FAIL' in o: return 'killed atomic', c
        lib(d + '/s', d + '/q.o', v.QDEF)
        if link('query', d + '/q.o'):
            for p in ('forms', 'regs'):
                r, o = sh(run + [d + '/query', 'profile=' + p, 'seed=1', 'count=' + n(2000, 200), 'maxfail=1'], 120)
                if r or 'FAIL' in o: return 'killed query', c
        return 'SURVIVED', c
    finally: shutil.rmtree(d, ignore_errors=True)
tot = {}; live = 0
with ThreadPoolExecutor(8) as ex:
    it = iter(cand); fut = set(); done = 0
    from concurrent.futures import wait, FIRST_COMPLETED
    while live < count:
        while len(fut) < 10:
            try: fut.add(ex.submit(one, next(it)))
            except StopIteration: break
        if not fut: break
        dn, fut = wait(fut, return_when=FIRST_COMPLETED)
        for x in dn:
            r, c = x.result(); tot[r] = tot.get(r, 0) + 1
            if r.startswith(('killed', 'SURV')): live += 1
            if r == 'SURVIVED': print('%s:%d\n -%s +%s' % (c[0], c[1] + 1, c[2].rstrip('\n'), '\n' + ' ' + '+' + c[3].rstrip('\n') if False else '\n +' + c[3].rstrip('\n')), flush=True)
    for x in fut: x.cancel()
print(tot); shutil.rmtree(T, ignore_errors=True)
