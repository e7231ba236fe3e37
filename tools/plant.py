#!/usr/bin/env python3
"""plant.py ID... : confirm planted bugs in a scratch copy (applies, builds, stable tests pass, demo 0 without / nonzero with the patch).
   plant.py -c PROP[,PROP] ID... : additionally run these checks on the patched copy.   -n: skip build and tests"""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd=None, env=None, t=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(c, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t); return p.returncode, p.stdout
def main():
    a = sys.argv[1:]; checks = None; fast = False
    if '-n' in a: fast = True; a.remove('-n')
    if a[0] == '-c': checks = a[1].split(','); a = a[2:]
    for i in a:
        d = os.path.join(V, 'seeded', i); meta = json.load(open(d + '/meta.json'))
        w = tempfile.mkdtemp(prefix='plant_', dir='/tmp'); demo = tempfile.mkdtemp(prefix='demo_', dir='/tmp')
        try:
            r = w + '/repo'; sh('cp -a /repo %s' % r)
            for f in os.listdir(d):
                if not f.endswith(('.diff', '.patch')) and f != 'meta.json': shutil.copy(os.path.join(d, f), demo)
            rc0, o0 = sh('git stash -q 2>/dev/null; git checkout -q -- .; bash %s/demo.sh' % demo, r)
            rc, o = sh('git apply %s/patch.diff' % d, r)
            if rc: print(i, 'DOES NOT APPLY', o); continue
            rc1, o1 = sh('bash %s/demo.sh' % demo, r)
            st = 'demo clean=%s patched=%s' % (rc0, rc1)
            if rc0 or not rc1: st += ' BAD\n--clean--\n%s\n--patched--\n%s' % (o0[-1500:], o1[-1500:])
            if not fast:
                # build.sh and test.sh work on /repo: use a private mount namespace free way: build in place of /repo is not possible, so patch /repo briefly
                sh('git -C /repo apply %s/patch.diff' % d)
                try:
                    rb, ob = sh('bash /opt/vp/build.sh'); rt, ot = sh('bash /opt/vp/test.sh %s/t.json' % w)
                finally: sh('git -C /repo checkout -- .')
                b = json.load(open('/opt/vp/BASELINE.json'))['stable']; t = set(json.load(open(w + '/t.json'))['passed']) if os.path.exists(w + '/t.json') else set()
                miss = [x for x in b if x not in t]; st += ' build=%s stable-missing=%d %s' % (rb, len(miss), miss[:3])
            print(i, meta['property'], st, flush=True)
            for c in (checks if checks is not None else [meta['property']]):
                rc, o = sh('python3 run.py check %s quick' % c, V, {'VERIF_REPO': r, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1')}); 
                v = [l for l in o.split('\n') if 'VIOLATION' in l or l.startswith('  ')]
                print('   ', c, 'exit', rc, 'CAUGHT' if rc == 1 and v else 'MISSED ' + o[-300:], (v[1][:200] if len(v) > 1 else ''), flush=True)
        finally: shutil.rmtree(w, ignore_errors=True); shutil.rmtree(demo, ignore_errors=True)
main()
