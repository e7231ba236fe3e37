"""One function per property."""
import os, random
import vbuild as vb, vrun
from vrun import Job, run_jobs, finish, build_all
QEMU = ['aarch64', 'riscv64', 'riscv64_ext', 'loongarch64', 'armv7', 'armt2', 'armv6', 'mips32el', 'mips64el', 'ppc64le', 'ppc32', 's390x']
CALLQ = [c for c in QEMU if c != 'riscv64_ext']
NATIVE = ['x86_64', 'x86_32']
SIMD = ['aarch64', 'armv7', 'armt2', 'riscv64_ext', 's390x', 'loongarch64']
import json
def active(cfgs):
    """configurations in use (tools can restrict them with VERIF_CFGS)"""
    f = os.environ.get('VERIF_CFGS')
    return [c for c in cfgs if not f or c in f.split(',')]

def engine_jobs(ctx, exes, plan, extra=(), tag='', chunk_native=400, chunk_qemu=100):
    """plan: {cfg: {profile: count}}"""
    jobs = []
    for cfg, pr in plan.items():
        exe = exes[cfg]; native = not vb.runner(cfg); ch = chunk_native if native else chunk_qemu
        for prof, count in pr.items():
            base = 1000003 * ctx.seed + 7919 * (sum(map(ord, prof)) % 97)
            k = 0
            while k < count:
                n = min(ch, count - k); fo = os.path.join(ctx.tmp, 'f_%s%s_%s_%d' % (cfg, tag, prof, k))
                cmd = vb.runner(cfg) + [exe, 'profile=' + prof] + list(extra)
                def single(f, cmd=cmd):
                    import re
                    m = re.search(r'seed=(\d+)', f); return (cmd + ['seed=' + m.group(1), 'count=1', 'print=1'], f.split(' kind=')[0])
                jobs.append(Job('%s%s %s' % (cfg, tag, prof), cmd + ['seed=%d' % (base + k), 'count=%d' % n, 'maxfail=3', 'forms=' + fo], 400, weight=n * (1 if native else 8), forms=fo, single=single, cfg=cfg + tag))
                k += n
    return jobs

def calls_jobs(ctx, exes, plan, tag='', chunk_native=500, chunk_qemu=100):
    jobs = []
    for cfg, count in plan.items():
        exe = exes[cfg]; native = not vb.runner(cfg); ch = chunk_native if native else chunk_qemu; k = 0; base = 2000003 * ctx.seed + 17
        while k < count:
            n = min(ch, count - k); fo = os.path.join(ctx.tmp, 'c_%s%s_%d' % (cfg, tag, k)); cmd = vb.runner(cfg) + [exe]
            def single(f, cmd=cmd):
                import re
                m = re.search(r'seed=(\d+)', f); return (cmd + ['seed=' + m.group(1), 'count=1', 'print=1'], f.split(' kind=')[0])
            jobs.append(Job('%s%s calls' % (cfg, tag), cmd + ['seed=%d' % (base + k), 'count=%d' % n, 'maxfail=3', 'forms=' + fo], 400, weight=n * (2 if native else 12), forms=fo, single=single, cfg=cfg + tag))
            k += n
    return jobs
def calls_check(ctx, q_native, q_qemu, t_native, t_qemu, cfgs=None):
    cfgs = active(cfgs or NATIVE + CALLQ)
    exes = build_all(ctx, [(c, (lambda c=c: vb.calls(c))) for c in cfgs])
    run_jobs(ctx, calls_jobs(ctx, exes, {c: ctx.n(q_native, t_native) if not vb.runner(c) else ctx.n(q_qemu, t_qemu) for c in cfgs}))
    for c in cfgs[:2]:
        rc, o = vrun.sh(vb.runner(c) + [exes[c], 'seed=%d' % (2000003 * ctx.seed + 17), 'count=1', 'print=1'], 60); ctx.sample('%s call program: ' % c + ' | '.join(x.strip() for x in o.split('\n')[:10])[:800])

def sample_programs(ctx, exe, cfg, prof):
    rc, o = vrun.sh(vb.runner(cfg) + [exe, 'profile=' + prof, 'seed=%d' % (1000003 * ctx.seed), 'count=1', 'print=1'], 60)
    lines = o.split('\n'); ctx.sample('%s %s program: ' % (cfg, prof) + ' | '.join(x.strip() for x in lines[:14]) + ' ... (%d instructions)' % len(lines))

RULE = ('random programs generated from the seed (profile %s), run on the real library with random inputs and compared with an independent interpreter of the instruction list; '
        'distinct_nontrivial counts distinct executed instruction forms (kind, opcode with flag bits, operand kinds) per configuration; runs whose result depends on unspecified values are skipped')
ASSUME = ['qemu-user executes the other architectures faithfully', 'the reference interpreter in harness/model.c states the documented semantics']

def engine_check(ctx, profs, q_native, q_qemu, t_native, t_qemu, cfgs=None, extra=(), finish_=True, min_eval=2000):
    cfgs = active(cfgs or NATIVE + QEMU)
    exes = build_all(ctx, [(c, (lambda c=c: vb.engine(c))) for c in cfgs])
    plan = {}
    for c in cfgs:
        native = not vb.runner(c); n = ctx.n(q_native if native else q_qemu, t_native if native else t_qemu)
        plan[c] = {p: max(1, int(n * w)) for p, w in profs.items()}
    run_jobs(ctx, engine_jobs(ctx, exes, plan, extra))
    for c in cfgs[:3]: sample_programs(ctx, exes[c], c, list(profs)[0])
    if finish_: return finish(ctx, 'exploration', RULE % '/'.join(profs), ASSUME, min_eval=min_eval)

def C01(ctx): return engine_check(ctx, {'int': 1, 'mix': .2}, 16000, 900, 60000, 6000)
def C02(ctx): return engine_check(ctx, {'flags': 1}, 16000, 600, 60000, 5000)
def C03(ctx): return engine_check(ctx, {'mem': 1, 'mix': .2}, 16000, 900, 60000, 6000)
def C04(ctx):
    engine_check(ctx, {'frame': 1}, 10000, 250, 60000, 3000, finish_=False)
    calls_check(ctx, 3000, 120, 40000, 1500)
    return finish(ctx, 'exploration', RULE % 'frame' + '; plus call trees (see C05) with monitored saved registers, locals and stack', ASSUME, min_eval=2000)
CALLRULE = ('random trees of generated functions and C functions of every signature with concrete expected values: every argument, result, saved register, kept register and local is logged and compared; '
            'distinct_nontrivial counts distinct (call form, kind, signature, result, options) combinations per configuration')
def C05(ctx):
    calls_check(ctx, 12000, 400, 60000, 4000)
    return finish(ctx, 'exploration', CALLRULE, ['qemu-user executes the other architectures faithfully', 'the C compilers of the sandbox implement the platform ABIs'], min_eval=2000)
PROTD = ['-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1']
def reach_check(ctx, plan, pplan):
    """plan: {profile: (native quick, qemu quick, native thorough, qemu thorough, chunk)}; pplan: the same with code written through another mapping"""
    cfgs = active(NATIVE + QEMU)
    exes = build_all(ctx, [(c, (lambda c=c: vb.reach(c))) for c in cfgs] + [(c + '+prot', (lambda c=c: vb.reach(c, '_prot', defs=PROTD))) for c in cfgs]); jobs = []
    for c in cfgs:
        for s, pl in (('', plan), ('+prot', pplan)):
            for p, (qn, qq, tn, tq, ch) in pl.items():
                j = simple_jobs(ctx, exes[c + s], c + s, 'r', {p: (ctx.n(qq, tq) if vb.runner(c) else ctx.n(qn, tn), ch)}, weight=600 if p == 'label' else 8, runner=vb.runner(c))
                jobs += j
    run_jobs(ctx, jobs)
def C06(ctx):
    engine_check(ctx, {'jump': .6, 'far': .6}, 10000, 250, 60000, 3000, finish_=False)
    reach_check(ctx, {'label': (60, 48, 1500, 900, 12), 'target': (4000, 1500, 60000, 30000, 500)}, {'label': (12, 6, 300, 150, 6), 'target': (1000, 500, 20000, 10000, 500)})
    return finish(ctx, 'exploration', RULE % 'jump/far' + '; in addition every jump form is generated at every distance around the limits of its encodings (label: in the same code; target: code at other addresses, sljit_set_target), with conditions which are true and false, also when the code is written through another mapping', ASSUME, min_eval=2000)
def C07(ctx): return engine_check(ctx, {'float': 1}, 12000, 350, 60000, 4000)
def C08(ctx): return engine_check(ctx, {'simd': 1}, 20000, 1000, 80000, 8000, cfgs=['x86_64', 'x86_32'] + [c for c in QEMU if c in SIMD])
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize=signed-integer-overflow,shift-base,alignment,pointer-overflow', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
ASANENV = {'ASAN_OPTIONS': 'detect_leaks=0,detect_stack_use_after_return=0,handle_segv=0,handle_sigbus=0,handle_abort=0,handle_sigill=0,handle_sigfpe=0,abort_on_error=0,exitcode=77,allocator_may_return_null=1', 'UBSAN_OPTIONS': 'print_stacktrace=1,exitcode=77'}
REL = ['-DSLJIT_DEBUG=0', '-DSLJIT_ARGUMENT_CHECKS=0', '-DSLJIT_VERBOSE=0']
ENGPROF = ['int', 'flags', 'mem', 'frame', 'jump', 'far', 'float', 'simd', 'patch', 'mix']
def C11(ctx):
    cfgs = active(NATIVE + QEMU)
    b = [(c, (lambda c=c: vb.engine(c))) for c in cfgs] + [('x86_64+asan', lambda: vb.engine('x86_64', '+asan', flags=ASAN)), ('x86_64+rel', lambda: vb.engine('x86_64', '+rel', defs=REL)), ('aarch64+rel', lambda: vb.engine('aarch64', '+rel', defs=REL)), ('x86_32+rel', lambda: vb.engine('x86_32', '+rel', defs=REL))]
    ccfgs = active(NATIVE + CALLQ); b += [('calls_' + c, (lambda c=c: vb.calls(c))) for c in ccfgs]
    exes = build_all(ctx, b); jobs = []; W = {'mix': 2, 'frame': 1, 'mem': .6, 'jump': .6, 'far': .03, 'float': .5, 'simd': .7, 'patch': .5, 'int': .4, 'flags': .6}
    for cfg in cfgs + ['x86_64+rel', 'aarch64+rel', 'x86_32+rel']:
        native = not vb.runner(cfg); n = ctx.n(700 if native else 18, 6000 if native else 250)
        jobs += engine_jobs(ctx, {cfg: exes[cfg]}, {cfg: {p: max(2, int(n * w)) for p, w in W.items()}}, ['serial=6'])
    aj = engine_jobs(ctx, {'x86_64+asan': exes['x86_64+asan']}, {'x86_64+asan': {p: max(2, int(ctx.n(120, 2500) * w)) for p, w in W.items()}}, ['serial=3', 'damage=1'], chunk_native=60)
    for j in aj: j.env = ASANENV; j.weight *= 10
    jobs += aj
    cj = calls_jobs(ctx, {c: exes['calls_' + c] for c in ccfgs}, {c: ctx.n(1500 if not vb.runner(c) else 50, 12000 if not vb.runner(c) else 600) for c in ccfgs})
    for j in cj:
        j.argv = j.argv + ['serial=4']; old = j.single
        j.single = lambda f, old=old: (old(f)[0] + ['serial=4'], old(f)[1])
    run_jobs(ctx, jobs + cj)
    sample_programs(ctx, exes[cfgs[0]], cfgs[0], 'mix')
    return finish(ctx, 'exploration', RULE % 'all' + '; here the compiler is serialized, freed and restored up to 6 times per program (before enter, between any two calls, before code generation), buffers are copied to exactly sized memory, and the result is compared with the same interpreter; truncated buffers, changed signature/version bits and damaged words are fed to the deserializer under AddressSanitizer', ASSUME, min_eval=2000)
OOMRULE = ('random programs are compiled with a fault injected at every memory request in turn (one request fails, and all from one on), with the internal fragments left nearly full before a random instruction so that the failure lands inside it, with too small code buffers, '
           'in deserialization and in stack allocation; a ledger of live blocks and mappings (poisoned on allocation and release) and a monitor of every return value judge each run. distinct_nontrivial counts distinct fault sites (call kind and opcode in which a request failed, and request numbers of generate/deserialize/stack) per configuration')
OOMCFG = ['x86_64', 'x86_64_prot', 'x86_64_wx', 'x86_32', 'aarch64', 'armv7', 'armv6', 'armt2', 'riscv64', 'riscv64_ext', 's390x', 'loongarch64', 'ppc64le', 'ppc32', 'mips32el', 'mips64el']
def C12(ctx):
    cfgs = active(OOMCFG); exes = build_all(ctx, [(c, (lambda c=c: vb.oom(c))) for c in cfgs] + [('x86_64+asan', lambda: vb.oom('x86_64', '+asan', flags=ASAN))])
    W = {'mix': 1, 'frame': .5, 'mem': .7, 'jump': .8, 'float': .7, 'simd': .7, 'patch': .7, 'int': .5}; jobs = []
    for c in cfgs:
        native = not vb.runner(c); n = ctx.n(120 if native else 10, 1500 if native else 200)
        jobs += engine_jobs(ctx, {c: exes[c]}, {c: {p: max(1, int(n * w)) for p, w in W.items()}}, chunk_native=60, chunk_qemu=10)
    aj = engine_jobs(ctx, {'x86_64+asan': exes['x86_64+asan']}, {'x86_64+asan': {p: max(1, int(ctx.n(12, 300) * w)) for p, w in W.items()}}, chunk_native=6)
    for j in aj: j.env = ASANENV; j.weight *= 12
    run_jobs(ctx, jobs + aj)
    ctx.sample('faults at create, enter, every instruction, labels, jumps, consts, serialize, deserialize, generate_code, stack; configurations: ' + ' '.join(cfgs))
    return finish(ctx, 'fault_enumeration', OOMRULE, ['the wrapped functions (malloc, mmap, ftruncate, memfd_create) are the only sources of memory'], min_eval=500, evalkey='faults_injected')
HOSTALL = list(vb.HOST)
MSANCFG = [c for c in HOSTALL if vb.HOST[c][0] == 64]
HOSTENV = dict(ASANENV); HOSTENV['MSAN_OPTIONS'] = 'handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigill=0:handle_sigfpe=0:exitcode=78'
def host_jobs(ctx, name, exe, tag, W, n, extra=(), chunk=40):
    jobs = []
    for prof, w in W.items():
        count = max(2, int(n * w)); base = 1000003 * ctx.seed + 7919 * (sum(map(ord, prof)) % 97); k = 0
        while k < count:
            c = min(chunk, count - k); fo = os.path.join(ctx.tmp, 'h_%s%s_%s_%d' % (name, tag, prof, k)); cmd = vb.hostrunner(name) + [exe, 'profile=' + prof] + list(extra)
            def single(f, cmd=cmd):
                import re
                m = re.search(r'seed=(\d+)', f); return (cmd + ['seed=' + m.group(1), 'count=1', 'print=1'], f.split(' kind=')[0])
            jobs.append(Job('%s%s %s' % (name, tag, prof), cmd + ['seed=%d' % (base + k), 'count=%d' % c, 'maxfail=3', 'forms=' + fo], 400, weight=c * 8, forms=fo, single=single, cfg=name + tag, env=HOSTENV)); k += c
    return jobs
def C09(ctx):
    run = active(['x86_64', 'x86_32', 'aarch64', 'aarch64_lse', 'armv7', 'armv6', 'armt2', 'riscv64', 'riscv64_ext', 's390x', 'loongarch64', 'ppc64le', 'ppc32', 'mips32el', 'mips64el'])
    exes = build_all(ctx, [(c, (lambda c=c: vb.atomic(c))) for c in run]); jobs = []
    for c in run:
        nat = not vb.runner(c)
        jobs += simple_jobs(ctx, exes[c], c, 'a', {'rmw': (ctx.n(600, 20000) if nat else ctx.n(48, 2500), 100 if nat else 16), 'barrier': (ctx.n(16, 1000) if nat else ctx.n(8, 600), 8)}, weight=1 if nat else 4, keep=True, runner=vb.runner(c))
    run_jobs(ctx, jobs); ctx.sample('configurations: ' + ' '.join(run))
    return finish(ctx, 'exploration', 'generated functions of several threads update shared and adjacent locations and log each attempt (loaded value, stored value, flag, temporary register); offline, the successful updates must form one chain from the initial to the final value (an Eulerian path; the exact order when the values are unique), consistent with the order of each thread, and failures must leave no trace; bytes between and around the locations are written by plain threads and checked; unrelated registers are checked. Memory barriers are judged by store buffering rounds, with a control run without barriers. Under qemu-user the exclusive instructions are emulated by compare and swap, and the memory order of the host is that of x86. distinct_nontrivial counts generated update functions', ['qemu-user models the weaker memory models of the non-x86 targets only partially'], min_eval=1000, evalkey='attempts')
def C10(ctx):
    engine_check(ctx, {'patch': 1}, 7000, 120, 40000, 2000, cfgs=['x86_64', 'x86_64_prot', 'x86_64_wx', 'x86_32'] + QEMU, finish_=False)
    names = active(HOSTALL); exes = build_all(ctx, [(c, (lambda c=c: vb.host(c, 'plain'))) for c in names]); jobs = []
    for c in names: jobs += host_jobs(ctx, c, exes[c], '(emission)', {'patch': 1, 'jump': .3}, ctx.n(120, 2500))
    run_jobs(ctx, jobs)
    reach_check(ctx, {'patch': (2500, 800, 60000, 20000, 400)}, {'patch': (800, 400, 20000, 8000, 400)})
    return finish(ctx, 'exploration', RULE % 'patch' + '; rewritable jumps of every form are pointed to landing places near and far in random order (also when the code is written through another mapping) and executed after each change; in addition the code of every backend is generated on the host, all constants, jumps and buffers are rewritten with random values and restored, and the code image must be restored exactly (no byte outside of the rewritten values may change)', ASSUME, min_eval=2000)
def C13(ctx):
    names = active(HOSTALL); ms = [c for c in names if c in MSANCFG]
    b = [(c + '+asan', (lambda c=c: vb.host(c, 'asan'))) for c in names] + [(c + '+msan', (lambda c=c: vb.host(c, 'msan'))) for c in ms] + [('x86_64', lambda: vb.engine('x86_64', '+asan', flags=ASAN))]
    exes = build_all(ctx, b); jobs = []; W = {'mix': .5, 'frame': 1, 'mem': .7, 'jump': .5, 'far': .05, 'float': .6, 'simd': .7, 'patch': .5, 'int': .4, 'flags': .4}
    for c in names: jobs += host_jobs(ctx, c, exes[c + '+asan'], '+asan', W, ctx.n(110, 1600))
    for c in ms: jobs += host_jobs(ctx, c, exes[c + '+msan'], '+msan', W, ctx.n(40, 600), chunk=20)
    aj = engine_jobs(ctx, {'x86_64': exes['x86_64']}, {'x86_64': {p: max(2, int(ctx.n(150, 3000) * w)) for p, w in W.items()}}, chunk_native=60)
    for j in aj: j.env = ASANENV; j.weight *= 10
    run_jobs(ctx, jobs + aj)
    ctx.sample('backends compiled for the host: ' + ' '.join(names))
    return finish(ctx, 'exploration', 'random programs of all profiles are compiled by each of the 17 back-end configurations, which are themselves compiled for the host with AddressSanitizer + UndefinedBehaviorSanitizer or MemorySanitizer; executable memory is a heap block of exactly the requested size; code buffers of exactly that size and one byte less are tried; the bytes after the reported size, the addresses of all labels and (MemorySanitizer) the initialisation of every generated byte are checked; constants and jumps are rewritten. distinct_nontrivial counts instruction forms per configuration',
        ['wrapping signed arithmetic and shifts on addresses and immediates, and unaligned host accesses, are intended (gcc and clang on the supported hosts)'], min_eval=2000)
def simple_jobs(ctx, exe, cfg, name, plan, extra=(), env=None, weight=1, keep=False, runner=()):
    """plan: {profile: (count, chunk)}"""
    jobs = []
    for prof, (count, chunk) in plan.items():
        k = 0; base = 1000003 * ctx.seed + 7919 * (sum(map(ord, prof)) % 97)
        while k < count:
            n = min(chunk, count - k); fo = os.path.join(ctx.tmp, 's_%s_%s_%s_%d' % (cfg, name, prof, k)); cmd = list(runner) + [exe, 'profile=' + prof] + list(extra)
            def single(f, cmd=cmd):
                import re
                m = re.search(r'seed=(\d+)', f); return (cmd + ['seed=' + m.group(1), 'count=1'], f.split(' kind=')[0])
            jobs.append(Job('%s %s' % (cfg, prof), cmd + ['seed=%d' % (base + k), 'count=%d' % n, 'maxfail=3', 'forms=' + fo], 600, weight=n * weight, forms=fo, single=single, cfg=cfg, env=env)); jobs[-1].keep = keep; k += n
    return jobs
TSAN = ['-fsanitize=thread']; TSANENV = {'TSAN_OPTIONS': 'exitcode=66 halt_on_error=1 handle_segv=0 handle_abort=0 handle_sigbus=0 report_signal_unsafe=0'}
def C14(ctx):
    cfgs = active(['x86_64', 'x86_64_prot', 'x86_64_wx', 'x86_32', 'x86_32_prot'])
    b = [(c, (lambda c=c: vb.alloc(c))) for c in cfgs] + [(c + '+tsan', (lambda c=c: vb.alloc(c, '+tsan', flags=TSAN))) for c in cfgs if c.startswith('x86_64')]
    exes = build_all(ctx, b); jobs = []; n = ctx.n(1, 12)
    for c in cfgs:
        jobs += simple_jobs(ctx, exes[c], c, 's', {'small': (120 * n, 40), 'chunk': (30 * n, 10), 'mixed': (80 * n, 20), 'code': (40 * n, 20), 'huge': (60 * n, 60)})
        jobs += simple_jobs(ctx, exes[c], c + ' faults', 'f', {'mixed': (80 * n, 20), 'code': (40 * n, 20)}, ['faults=1'])
        jobs += simple_jobs(ctx, exes[c], c + ' threads', 't', {'mixed': (30 * n, 10), 'code': (30 * n, 10), 'small': (30 * n, 10)}, ['threads=6'], keep=True)
        jobs += simple_jobs(ctx, exes[c], c + ' threads', 'ti', {'mixed': (30 * n, 10)}, ['threads=8', 'indep=1'], keep=True)
        if c + '+tsan' in exes: jobs += simple_jobs(ctx, exes[c + '+tsan'], c + '+tsan', 'ts', {'small': (20 * n, 5), 'mixed': (10 * n, 5)}, ['threads=4', 'indep=1'], env=TSANENV, weight=20, keep=True)
    run_jobs(ctx, jobs)
    ctx.sample('histories of sljit_malloc_exec/sljit_free_exec, sljit_generate_code/sljit_free_code and sljit_free_unused_memory_exec on ' + ' '.join(cfgs))
    return finish(ctx, 'exploration', 'random histories of executable allocations (sizes around block, page and chunk limits), code generations and frees in FIFO, LIFO, address and random order, with and without failing mmap/ftruncate, and with several threads which free each others blocks; a shadow set of live blocks, a ledger of all mappings, block contents and the results of executed functions are monitored. distinct_nontrivial counts distinct abstract states (operation, size class, free or used neighbours, other blocks of the chunk, new mapping) per configuration',
        ['Linux mmap semantics'], min_eval=100)
def C15(ctx):
    cfgs = active(['x86_64', 'x86_32', 'aarch64']); SIMPLE = ['-DSLJIT_UTIL_SIMPLE_STACK_ALLOCATION=1']
    exes = build_all(ctx, [(c, (lambda c=c: vb.alloc(c))) for c in cfgs] + [('simple', lambda: vb.alloc('x86_64', '+simple', defs=SIMPLE)), ('simple+asan', lambda: vb.alloc('x86_64', '+simpleasan', defs=SIMPLE, flags=ASAN)), ('x86_64+asan', lambda: vb.alloc('x86_64', '+asan', flags=ASAN))])
    jobs = []; n = ctx.n(1, 15)
    for c in exes:
        env = ASANENV if 'asan' in c else None; q = vb.runner(c.split('+')[0]) if c in cfgs else []; m = n * (1 if not q else .2)
        jobs += simple_jobs(ctx, exes[c], c, 's', {'stack': (int(500 * m), 50)}, env=env, runner=q) + simple_jobs(ctx, exes[c], c + ' faults', 'f', {'stack': (int(300 * m), 50)}, ['faults=1'], env=env, runner=q)
    run_jobs(ctx, jobs)
    ctx.sample('histories of sljit_allocate_stack, sljit_stack_resize (every position around the limits and page borders) and sljit_free_stack')
    return finish(ctx, 'exploration', 'random histories of up to 4 stacks: allocation with valid, invalid and huge sizes, resizes to valid and invalid positions; a copy of all retained bytes, the bounds of the structure, the mappings and the heap blocks are compared after each operation, discarded pages are really dropped. distinct_nontrivial counts distinct (operation, direction, page crossing, alignment, size class) states per configuration', ['Linux mmap and madvise semantics'], min_eval=100)
def C17(ctx):
    cfgs = active(NATIVE + ['x86_64_prot', 'x86_64_wx', 'aarch64', 'riscv64', 'loongarch64']); names = active([c for c in HOSTALL if not c.startswith('x86')])
    b = [(c, (lambda c=c: vb.thr(c))) for c in cfgs] + [(c + '+tsan', (lambda c=c: vb.thr(c, '+tsan', flags=TSAN))) for c in cfgs if c.startswith('x86_64')]
    b += [(c + '(emission)', (lambda c=c: vb.thrhost(c))) for c in names] + [(c + '(emission)+tsan', (lambda c=c: vb.thrhost(c, TSAN, '+tsan'))) for c in names if vb.HOST[c][0] == 64]
    exes = build_all(ctx, b); jobs = []; n = ctx.n(1, 15)
    for c in exes:
        e = exes[c]; r = vb.runner(c) if c in cfgs else vb.hostrunner(c.split('(')[0]) if 'emission' in c else []; q = c in cfgs and bool(r)
        if 'tsan' in c: jobs += simple_jobs(ctx, e, c, 't', {'thr': (30 * n, 10)}, ['warm=1', 'cases=48'], env=TSANENV, runner=r, weight=8, keep=True)
        else:
            jobs += simple_jobs(ctx, e, c, 'w', {'thr': ((6 if q else 40) * n, 10)}, ['threads=6', 'cases=96'], runner=r, weight=2, keep=True)
            jobs += simple_jobs(ctx, e, c + ' cold', 'c', {'thr': ((10 if q else 200) * n, 50)}, ['threads=8', 'cases=8', 'verb=0'], runner=r, keep=True)
    run_jobs(ctx, jobs)
    ctx.sample('threads compile the same random programs (arithmetic, branches, loops, calls, constants, floats, SIMD, serialization, verbose output, stacks) at the same time and alone: ' + ' '.join(exes))
    return finish(ctx, 'exploration', 'each random program is compiled and run twice by different threads while other threads do the same with other programs, starting with a cold process, and once alone; results, memory, reported CPU features, error codes, verbose text and the bytes of code generated at the same address are compared. ThreadSanitizer watches the library (all back ends, after a first use because the CPU feature detection stores the same value from several threads) and the allocators. distinct_nontrivial counts distinct program outcomes', ['the idempotent first initialisation of CPU features is accepted as a harmless race'], min_eval=1000)
REGEXQ = ['aarch64', 'armv7', 'armv6', 'armt2', 'riscv64', 'riscv64_ext', 'loongarch64', 'mips32el', 'mips64el', 'ppc64le', 'ppc32', 's390x']
def C18(ctx):
    cfgs = active(['x86_64', 'x86_32'] + REGEXQ); b = [(c, (lambda c=c: vb.regex(c))) for c in cfgs]
    b += [('x86_64+asan', lambda: vb.regex('x86_64', '+asan', flags=ASAN)), ('x86_64+rel', lambda: vb.regex('x86_64', '+rel', defs=REL))]
    exes = build_all(ctx, b); jobs = []
    for c in exes:
        q = vb.runner(c.split('+')[0]); asan = 'asan' in c; env = ASANENV if asan else None
        n = ctx.n(12000, 300000) if asan else ctx.n(1200, 30000) if q else ctx.n(120000 if c == 'x86_64' else 40000, 2000000)
        jobs += simple_jobs(ctx, exes[c], c, 'r', {'match': (n, max(200, n // 12))}, env=env, runner=q, weight=.1 if not q else 1)
        if not q: f = ctx.n(400 if asan else 1500, 20000); jobs += simple_jobs(ctx, exes[c], c + ' faults', 'f', {'faults': (f, max(50, f // 6))}, env=env, weight=3)
    run_jobs(ctx, jobs)
    ctx.sample('patterns such as ^(a{1!}b|[^x-z]{2,5}(c+|d?)*)+$ with random flags, matched against subjects fed in random chunks (exactly sized heap blocks), compared after each chunk')
    return finish(ctx, 'exploration', 'random patterns (grammar based, then mutated) are parsed and matched by an independent reference implementation working on sets of positions with the highest id; after each chunk of the subject the begin, end, id and finished state of the machine are compared with the reference result of the prefix; matches are reset and abandoned in the middle; memory requests of regex_compile fail one by one. distinct_nontrivial counts distinct (flags, result class, finished, position and length class, kind of pattern) and fault classes per configuration', ['subjects up to 95 characters, expanded patterns up to a few thousand terms', 'the meaning of an operator after a literal { at the start of an alternative and of numbers above INT_MAX is not documented and is not judged'], min_eval=2000, evalkey='results')
def C19(ctx):
    import variantcmp as vc
    names = active(HOSTALL); cfgs = active(['x86_64', 'x86_32', 'aarch64']); four = [c for c in names if c in ('x86_64', 'x86_32', 'aarch64', 'riscv64_ext')]
    W = {'mix': .5, 'frame': .6, 'mem': 1, 'jump': .5, 'far': .05, 'float': .8, 'simd': 1, 'patch': .4, 'int': .6, 'flags': .8}; n = ctx.n(100, 2500)
    VD = vb.VARIANTS; b = [((c, v), (lambda c=c, v=v: vb.variant(c, v))) for c in names for v in ['D', 'R'] + (['V', 'C'] if c in four else []) + (['B'] if c.startswith('x86') else [])]
    run = [('x86_64', 'R'), ('x86_64', 'V'), ('x86_64', 'C'), ('x86_64_prot', 'R'), ('x86_64_wx', 'R'), ('x86_32', 'R'), ('aarch64', 'R'), ('riscv64_ext', 'R')]
    run = [(c, v) for c, v in run if c in active([c])]
    b += [(('eng', c, v), (lambda c=c, v=v: vb.engine(c, '+' + v, defs=VD[v]))) for c, v in run] + [(('eng', c, 'D'), (lambda c=c: vb.engine(c))) for c in active(['x86_64', 'x86_64_prot', 'x86_64_wx'])]
    b += [(('calls', c), (lambda c=c: vb.calls(c, '+R', defs=VD['R']))) for c in cfgs]
    exes = build_all(ctx, b); jobs = []; cmp = []
    for c in names:
        x86 = c.startswith('x86')
        for prof, w in W.items():
            count = max(3, int(n * w)); chunk = 400; k = 0; base = 1000003 * ctx.seed + 7919 * (sum(map(ord, prof)) % 97)
            while k < count:
                m = min(chunk, count - k); pre = {}
                for v, verb in [('D', 0), ('D', 3), ('D', 1), ('R', 0)] + ([('V', 0), ('V', 3), ('C', 0)] if c in four else []) + ([('B', 0)] if x86 else []):
                    if verb == 1 and c not in four: continue
                    p = os.path.join(ctx.tmp, 'v_%s_%s%d_%s_%d' % (c, v, verb, prof, k)); pre[v, verb] = p; cmd = vc.cmd(c, v, prof, base + k, m, verb) + ['verbfile=/dev/null']
                    def single(f, cmd=cmd):
                        import re
                        return ([x for x in cmd if not x.startswith(('seed=', 'count='))] + ['seed=' + re.search(r'seed=(\d+)', f).group(1), 'count=1', 'print=0'], f.split(' kind=')[0])
                    e = vc.env(p + '.dig', x86 and p + '.raw', 1 + (ord(v) * 7 + verb * 31) % 127); jobs.append(Job('%s(%s%d) %s' % (c, v, verb, prof), cmd + ['forms=' + p + '.forms'], 300, weight=m * (8 if verb else 4), forms=p + '.forms' if (v, verb) == ('D', 3) else None, single=single, cfg='%s %s%s' % (c, v, {0: '', 1: '+verbose', 3: '+verbose toggled'}[verb]), env=dict(HOSTENV, **e)))
                cmp.append((c, prof, base + k, pre)); k += m
    for c, v in run: jobs += engine_jobs(ctx, {c: exes['eng', c, v]}, {c: {p: max(2, int((n * 3 if not vb.runner(c) else n * .5) * w)) for p, w in W.items()}}, tag='+' + v)
    for c in active(['x86_64', 'x86_64_prot', 'x86_64_wx']): jobs += engine_jobs(ctx, {c: exes['eng', c, 'D']}, {c: {p: max(2, int(n * 3 * w)) for p, w in W.items()}}, ['verb=2', 'verbfile=/dev/null'], tag='+verb')
    jobs += calls_jobs(ctx, {c: exes['calls', c] for c in cfgs}, {c: n * 5 if not vb.runner(c) else n * 2 for c in cfgs}, tag='+R')
    run_jobs(ctx, jobs); compared = 0
    for c, prof, base, pre in cmp:
        for (v, verb), p in pre.items():
            if (v, verb) in (('D', 0), ('B', 0)): continue
            m, r = vc.compare(pre['D', 0], p, pre.get(('B', 0))); compared += m
            if r:
                argv = ['python3', os.path.join(vb.VERIF, 'lib', 'variantcmp.py'), c, v, prof, str(base + r[0]), str(verb)]; rc, o = vrun.sh(argv, 120)
                if rc == 1: ctx.violation('%s profile=%s seed=%d %s%d' % (c, prof, base + r[0], v, verb), o.strip(), argv)
                else: ctx.inconclusive += 1; ctx.notes.append('not reproduced: %s %s %s' % (c, prof, r))
    ctx.add({'program_comparisons': compared}); ctx.sample('builds: D debug+checks+verbose, R nothing, V verbose only, C checks only; back ends ' + ' '.join(names))
    return finish(ctx, 'exploration', 'the same random programs are compiled by differently configured builds of the library (17 back ends on the host), without verbose output, with it, and with it turned on and off between instructions; the bytes of the code, sizes, label, jump and constant addresses must be equal (bytes which hold the address of library data are found by linking the build at a second address); each instruction must print to the given stream if and only if verbose output is on, and nothing to stdout; release, verbose-only, checks-only and other-allocator builds run programs against the reference interpreter. distinct_nontrivial counts instruction forms per configuration', ASSUME, min_eval=2000, evalkey='program_comparisons')
def C20(ctx):
    run = active(['x86_64', 'x86_32', 'aarch64', 'armv7', 'armv6', 'armt2', 'riscv64', 'riscv64_ext', 's390x', 'loongarch64', 'ppc64le', 'ppc32', 'mips32el', 'mips64el']); host = active(HOSTALL)
    exes = build_all(ctx, [(('n', c), (lambda c=c: vb.query(c))) for c in run] + [(('h', c), (lambda c=c: vb.queryhost(c))) for c in host]); jobs = []
    for c in run:
        nat = not vb.runner(c); m = 1 if nat else .1
        jobs += simple_jobs(ctx, exes['n', c], c, 'n', {'regs': (ctx.n(int(12000 * m), int(200000 * m)), 2000 if nat else 100), 'forms': (ctx.n(int(6000 * m), int(120000 * m)), 1000 if nat else 100)}, weight=1 if nat else 8, runner=vb.runner(c))
    for c in host: jobs += simple_jobs(ctx, exes['h', c], 'host-' + c, 'h', {'forms': (ctx.n(4000, 80000), 1000)}, weight=1, runner=vb.hostrunner(c))
    run_jobs(ctx, jobs); ctx.sample('run: %s; emission only: %s' % (' '.join(run), ' '.join(host)))
    return finish(ctx, 'exploration', 'each form of sljit_emit_mem, fmem, mem_update, SIMD and atomic functions is queried with its test flag and then emitted: both must agree, nothing may be emitted by a query, and the same program with queries inserted everywhere must give the same bytes; features and sljit_cmp_info are compared with the size and result of the emitted code; hand-encoded instructions built from sljit_get_register_index read and write registers whose values are checked, and must appear verbatim in the code. distinct_nontrivial counts forms and registers seen per configuration', ASSUME, min_eval=5000, evalkey='forms')
def C16(ctx):
    run = active(['x86_64', 'x86_32', 'aarch64', 'armv7', 'armv6', 'armt2', 'riscv64', 'riscv64_ext', 's390x', 'loongarch64', 'ppc64le', 'ppc32', 'mips32el', 'mips64el']); host = active(HOSTALL)
    exes = build_all(ctx, [(('n', c), (lambda c=c: vb.argchk(c))) for c in run] + [(('h', c), (lambda c=c: vb.argchkhost(c, flags=['-fsanitize=bounds', '-fsanitize-undefined-trap-on-error']))) for c in host]); jobs = []
    for c in run:
        nat = not vb.runner(c)
        jobs += simple_jobs(ctx, exes['n', c], c, 'n', {'args': (ctx.n(120000 if nat else 4000, 2000000 if nat else 60000), 5000 if nat else 250)}, weight=1 if nat else 8, runner=vb.runner(c))
    for c in host: jobs += simple_jobs(ctx, exes['h', c], 'host-' + c, 'h', {'args': (ctx.n(90000, 1000000), 5000)}, weight=1, runner=vb.hostrunner(c))
    run_jobs(ctx, jobs); ctx.sample('run: %s; emission only: %s' % (' '.join(run), ' '.join(host)))
    return finish(ctx, 'exploration', 'sequences of valid API calls (every function, operands on and next to each limit) are made on a compiler with argument checks: every valid call must return success; then one argument of a call is changed into a documented forbidden value and SLJIT_ERR_BAD_ARGUMENT must be returned and stored, every later call (with random arguments) must return the error without any effect, and no code may be generated; out-of-bounds accesses trap. distinct_nontrivial counts (function, kind of argument, verdict, configuration) combinations', ASSUME, min_eval=5000, evalkey='calls')
CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}
