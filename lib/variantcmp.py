"""Compares what two builds of the library generate for the same programs (C19)."""
import os, sys, subprocess, tempfile
import vbuild as vb
def env(dig, raw, perturb):
    e = {'VERIF_DIG': dig, 'MALLOC_PERTURB_': str(perturb)}
    if raw: e['VERIF_RAW'] = raw
    return e
def read(p):
    d = open(p + '.dig').read().split('\n')[:-1] if os.path.exists(p + '.dig') else []
    r = open(p + '.raw', 'rb').read() if os.path.exists(p + '.raw') else None
    return d, r
def compare(a, b, other=None):
    """a, b: path prefixes of two runs; other: a run of the same build as a, linked elsewhere. Returns (number of programs compared, None or (index, text))"""
    (da, ra), (db, rb) = read(a), read(b); n = 0; pos = 0; ro = read(other)[1] if other else None
    for k in range(max(len(da), len(db))):
        x = da[k] if k < len(da) else 'nothing'; y = db[k] if k < len(db) else 'nothing'
        if x != y: return n, (k, 'hash and size "%s" / "%s"' % (x, y))
        if ra is not None and x[:8] not in ('rejected', 'crash'):
            s = int(x.split()[1]); p, q = ra[pos:pos + s], rb[pos:pos + s]; pos += s
            if p != q:
                o = ro[pos - s:pos] if ro else p; mask = set()
                if o != p:
                    for i in range(s):
                        if o[i] != p[i]: mask.update((i - 3, i - 2, i - 1, i))
                for i in range(s):
                    if p[i] != q[i] and i not in mask: return n, (k, 'byte %d of %d of the code differs: %02x / %02x' % (i, s, p[i], q[i]))
        n += 1
    return n, None
def cmd(name, var, prof, seed, count, verb): return vb.hostrunner(name) + [os.path.join(vb.WORK, 'var_%s_%s' % (name, var)), 'profile=' + prof, 'seed=%d' % seed, 'count=%d' % count, 'maxfail=1000000'] + (['verb=%d' % verb] if verb else [])
def main():
    name, var, prof, seed, verb = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
    with tempfile.TemporaryDirectory(dir=vb.WORK) as t:
        x86 = name.startswith('x86')
        for v, vb_, tag in (('D', 0, 'a'), (var, verb, 'b')) + ((('B', 0, 'o'),) if x86 else ()):
            p = os.path.join(t, tag); e = dict(os.environ); e.update(env(p + '.dig', x86 and p + '.raw', 85 if tag == 'a' else 170)); subprocess.run(cmd(name, v, prof, seed, 1, vb_), env=e, stdout=subprocess.DEVNULL)
        n, r = compare(os.path.join(t, 'a'), os.path.join(t, 'b'), os.path.join(t, 'o') if x86 else None)
    print('FAIL profile=%s seed=%d kind=variant %s: debug build and %s build (verbose mode %d) differ: %s' % (prof, seed, name, var, verb, r[1]) if r else 'same')
    return 1 if r else 0
if __name__ == '__main__': sys.exit(main())
