"""Writes C functions of every signature (0-4 arguments of word, int, double, float; five return types)."""
import itertools
T = {'W': 'sljit_sw', 'L': 'sljit_s32', 'D': 'double', 'F': 'float'}
RET = ['V', 'W', 'L', 'D', 'F']
def sigs():
    for n in range(5):
        for t in itertools.product('WLDF', repeat=n): yield ''.join(t)
def write(path):
    S = list(sigs()); o = ['#include "callsim.h"']
    for r in RET:
        for i, s in enumerate(S):
            rt = T.get(r, 'void'); n = r + '_' + s
            args = ','.join('%s a%d' % (T[c], k) for k, c in enumerate(s)) or 'void'
            put = ''.join('v[%d]=to%s(a%d);' % (k, c, k) for k, c in enumerate(s))
            body = 'u64 v[4]; %s' % put
            call = 'c_called(%d,%d,v,FA)' % (RET.index(r), i)
            o.append('static %s cs_%s(%s){ %s %s; }' % (rt, n, args, body, call if r == 'V' else 'return from%s(%s)' % (r, call)))
            cargs = ','.join('from%s(a[%d])' % (c, k) for k, c in enumerate(s)); proto = ','.join(T[c] for c in s) or 'void'
            c = '((%s(*)(%s))f)(%s)' % (rt, proto, cargs)
            o.append('static u64 cc_%s(void*f,u64*a){ %s }' % (n, c + '; return 0;' if r == 'V' else 'return to%s(%s);' % (r, c)))
    for nm, ty in (('cs', 'void*const cs_tab'), ('cc', 'callerfn*const cc_tab')):
        o.append('%s[5][341]={' % ty)
        for r in RET: o.append('{' + ','.join(('(void*)' if nm == 'cs' else '') + '%s_%s_%s' % (nm, r, s) for s in S) + '},')
        o.append('};')
    open(path, 'w').write('\n'.join(o) + '\n')
if __name__ == '__main__': import sys; write(sys.argv[1])
