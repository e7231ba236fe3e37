"""Job runner shared by all checks: spreads work over the cores, confirms failures, matches known findings, writes evidence."""
import os, re, sys, json, time, subprocess, threading, tempfile, shutil, signal
from concurrent.futures import ThreadPoolExecutor
import vbuild as vb
NCPU = int(os.environ.get('VERIF_JOBS', '8'))
class Harness(Exception): pass

def sh(cmd, timeout, env=None, cwd=None):
    """Run a command; returns (rc, output). rc is None when it did not finish in time."""
    e = dict(os.environ); e.pop('LD_PRELOAD', None); e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd or vb.WORK, start_new_session=True, stdin=subprocess.DEVNULL)
    try: o = p.communicate(timeout=timeout)[0]; rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o = p.communicate()[0]; rc = None
    return rc, o.decode('utf-8', 'replace')

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time(); self.viol = []; self.stats = {}; self.forms = set(); self.samples = []; self.notes = []; self.inconclusive = 0
        self.lock = threading.Lock(); self.perconf = {}
        self.known = load_known(prop); self.seen_known = {}
        os.makedirs(vb.WORK, exist_ok=True); self.tmp = tempfile.mkdtemp(prefix='run_', dir=vb.WORK)
    def quick(self): return self.tier == 'quick'
    def n(self, q, t): return q if self.tier == 'quick' else t
    def add(self, d):
        with self.lock:
            for k, v in d.items(): self.stats[k] = self.stats.get(k, 0) + v
    def distinct(self, it):
        with self.lock: self.forms.update(it)
    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12: self.samples.append(s)
    def violation(self, key, text, cmd):
        """key identifies the failing input; text is what was observed; cmd reproduces it"""
        with self.lock:
            for k in self.known:
                if re.search(k['match'], key + ' ' + text):
                    self.seen_known.setdefault(k['id'], k); return
            if len(self.viol) < 40: self.viol.append((key, text, cmd))

def load_known(prop):
    """known_findings.txt: 'finding: property=<id> id=<name> match=/regex/ description' and 'fixed: ...' lines"""
    r = []; p = os.path.join(vb.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+) match=/(.*?)/ (.*)', l)
            if m and prop in m.group(1).split(','): r.append({'id': m.group(2), 'match': m.group(3), 'text': m.group(4).strip()})
    return r

STAT = re.compile(r'^STAT (.*)$', re.M); FAIL = re.compile(r'^FAIL (.*)$', re.M)
def parse_stat(o):
    d = {}
    for m in STAT.finditer(o):
        for kv in m.group(1).split():
            if '=' in kv:
                k, v = kv.split('=', 1)
                try: d[k] = d.get(k, 0) + int(v)
                except ValueError: pass
    return d

def build_all(ctx, builds):
    """builds: list of (key, fn). Returns {key: result}. A compile error is an error of the check."""
    res = {}
    def one(b):
        try: return b[0], b[1]()
        except vb.BuildError as e: return b[0], e
    with ThreadPoolExecutor(NCPU) as ex:
        for k, r in ex.map(one, builds): res[k] = r
    bad = [r for r in res.values() if isinstance(r, Exception)]
    if bad: raise Harness('build failed: %s' % bad[0])
    return res

class Job:
    """One process following the FAIL/STAT protocol. case(line) maps a FAIL line to (key, single-case argv or None)"""
    def __init__(self, label, argv, timeout, weight=1, forms=None, single=None, env=None, cfg=''):
        self.label, self.argv, self.timeout, self.weight, self.forms, self.single, self.env, self.cfg = label, argv, timeout, weight, forms, single, env, cfg; self.keep = False  # keep: the monitors are sound but the schedule differs from run to run: a report counts although it does not repeat

def run_jobs(ctx, jobs):
    jobs = sorted(jobs, key=lambda j: -j.weight)
    def one(j):
        rc, o = sh(j.argv, j.timeout, j.env)
        if rc == 9 or 'HARNESS' in o and rc not in (0, 1): return j, 'harness', o
        if rc in (0, 1) and STAT.search(o): return j, 'ok', o
        if j.keep and rc is not None and rc != 9: return j, 'died %s' % rc, o
        # died or timed out: once more
        rc2, o2 = sh(j.argv, j.timeout * 2, j.env)
        if rc2 == 9: return j, 'harness', o2
        if rc2 in (0, 1) and STAT.search(o2): return j, 'ok', o2
        if rc2 is None: return j, 'timeout', o2
        return j, 'died %s' % rc2, o2
    with ThreadPoolExecutor(NCPU) as ex: done = list(ex.map(one, jobs))
    for j, st, o in done:
        if st == 'harness': raise Harness('%s: %s' % (j.label, o[-800:]))
        if st == 'timeout':
            ctx.inconclusive += 1; ctx.notes.append('%s did not finish in %ds (inconclusive)' % (j.label, j.timeout)); continue
        s = parse_stat(o); ctx.add(s)
        with ctx.lock:
            pc = ctx.perconf.setdefault(j.cfg or j.label, {})
            for k, v in s.items(): pc[k] = pc.get(k, 0) + v
        if j.forms and os.path.exists(j.forms):
            ctx.distinct(j.cfg + ':' + l.strip() for l in open(j.forms)); os.unlink(j.forms)
        for m in re.finditer(r'^SAMPLE (.*)$', o, re.M): ctx.sample(m.group(1)[:400])
        for m in re.finditer(r'^FORM (.*)$', o, re.M): ctx.distinct([m.group(1)])
        if st.startswith('died'):
            ctx.violation('%s process' % j.label, 'the process running the generated code %s without a report: %s' % (st, (re.search(r'WARNING: ThreadSanitizer.*?(?=\n\n)|ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error[^\n]*', o, re.S) or re.search(r'[\s\S]{0,300}$', o)).group(0)[:500].replace('\n', ' ')), j.argv); continue
        fails = FAIL.findall(o); nconf = 0
        for f in fails:
            argv, key = (j.argv, j.label) if not j.single else j.single(f)
            if nconf < 6:
                rc, o2 = sh(argv, max(60, j.timeout), j.env); nconf += 1
                if not FAIL.search(o2) and argv is not j.argv: rc, o2 = sh(j.argv, j.timeout * 2, j.env); argv = j.argv
                if j.keep or FAIL.search(o2) or (rc not in (0, 1, 9, None)): ctx.violation('%s %s' % (j.label.split()[0], key), f, argv)
                else:
                    ctx.inconclusive += 1; ctx.notes.append('not reproduced: %s %s' % (j.label, f[:300]))
            else: ctx.violation('%s %s' % (j.label.split()[0], key), f, argv)

def finish(ctx, level, rule, assumptions=(), extra=None, min_eval=1, evalkey='runs'):
    prop = ctx.prop; ev = ctx.stats.get(evalkey, 0); wall = time.time() - ctx.t0
    cov = {'evaluations': int(ev), 'distinct_nontrivial': len(ctx.forms), 'rule': rule, 'samples': ctx.samples or ['(none)'], 'observed': ctx.stats, 'per_configuration': ctx.perconf, 'inconclusive': ctx.inconclusive, 'notes': ctx.notes[:20]}
    if extra: cov.update(extra)
    d = {'property': prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov, 'assumptions': list(assumptions), 'wall_s': round(wall, 2), 'violations': len(ctx.viol)}
    os.makedirs(os.path.join(vb.VERIF, 'evidence'), exist_ok=True)
    json.dump(d, open(os.path.join(vb.VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    shutil.rmtree(ctx.tmp, ignore_errors=True)
    for k in sorted(ctx.seen_known): print('KNOWN-FINDING: property=%s %s' % (prop, ctx.seen_known[k]['text']))
    print('%s %s seed=%d: %d evaluations, %d distinct, %.1fs, observed %s' % (prop, ctx.tier, ctx.seed, ev, len(ctx.forms), wall, ' '.join('%s=%s' % kv for kv in sorted(ctx.stats.items()))))
    for n in ctx.notes[:10]: print('note:', n)
    if ctx.viol:
        rd = os.path.join(vb.WORK, 'replay'); os.makedirs(rd, exist_ok=True)
        for i, (k, t, c) in enumerate(ctx.viol[:10]):
            p = os.path.join(rd, '%s_%d.json' % (prop, i)); json.dump({'property': prop, 'key': k, 'observed': t, 'command': c if isinstance(c, str) else [str(x) for x in c], 'cwd': vb.WORK}, open(p, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, p)); print('  %s: %s' % (k, t[:600]))
        return 1
    if ev < min_eval or not ctx.forms: print('HARNESS: too little was observed (%d evaluations)' % ev); return 3
    return 0
