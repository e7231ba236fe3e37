"""Configurations and builds. Everything is compiled from the current tree of /repo into a work directory."""
import os, subprocess, hashlib, sys
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, 'work')
X32 = ['-msse2', '-mfpmath=sse']
CONFIGS = {
 'x86_64':      ('gcc', None, [], ['-no-pie', '-fno-pie']),
 'x86_64_prot': ('gcc', None, ['-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1'], ['-no-pie', '-fno-pie']),
 'x86_64_wx':   ('gcc', None, ['-DSLJIT_WX_EXECUTABLE_ALLOCATOR=1'], ['-no-pie', '-fno-pie']),
 'x86_32':      ('i686-linux-gnu-gcc', None, [], ['-static'] + X32),
 'x86_32_prot': ('i686-linux-gnu-gcc', None, ['-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1'], ['-static'] + X32),
 'aarch64':     ('aarch64-linux-gnu-gcc', 'qemu-aarch64', [], ['-static']),
 'aarch64_lse': ('aarch64-linux-gnu-gcc', 'qemu-aarch64', [], ['-static', '-march=armv8.1-a']),
 'armv7':       ('arm-linux-gnueabihf-gcc', 'qemu-arm', [], ['-static', '-marm']),
 'armv6':       ('arm-linux-gnueabihf-gcc', 'qemu-arm', ['-DSLJIT_CONFIG_ARM_V6=1'], ['-static', '-marm']),
 'armt2':       ('arm-linux-gnueabihf-gcc', 'qemu-arm', [], ['-static', '-mthumb']),
 'riscv64':     ('riscv64-linux-gnu-gcc', 'qemu-riscv64', [], ['-static', '-march=rv64g']),
 'riscv64_ext': ('riscv64-linux-gnu-gcc', 'qemu-riscv64', [], ['-static', '-march=rv64gv_zba_zbb']),
 's390x':       ('s390x-linux-gnu-gcc', 'qemu-s390x', [], ['-static', '-march=z13']),
 'loongarch64': ('loongarch64-linux-gnu-gcc-14', 'qemu-loongarch64', [], ['-static', '-march=la464']),
 'ppc64le':     ('powerpc64le-linux-gnu-gcc', 'qemu-ppc64le', [], ['-static']),
 'ppc32':       ('powerpc-linux-gnu-gcc', 'qemu-ppc', [], ['-static']),
 'mips32el':    ('mipsel-linux-gnu-gcc', 'qemu-mipsel', [], ['-static']),
 'mips64el':    ('mips64el-linux-gnuabi64-gcc', 'qemu-mips64el', [], ['-static']),
}
ALL = list(CONFIGS)
def runner(cfg):
    r = CONFIGS[cfg.split('+')[0]][1]
    return [r] if r else []
def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
class BuildError(Exception): pass
def compile_(cfg, out, sources, defs=(), flags=(), opt='-O1', libobj=True, libdefs=(), compiler=None, extra_ld=()):
    """Compile harness sources together with sljitLir.c for a configuration."""
    cc, _, cpp, cf = CONFIGS[cfg]
    cc = compiler or cc
    os.makedirs(os.path.dirname(out), exist_ok=True)
    base = [cc, '-g1', opt, '-ffp-contract=off', '-fno-strict-aliasing', '-w', '-I', os.path.join(REPO, 'sljit_src'), '-I', os.path.join(VERIF, 'harness')] + cpp + cf + list(defs) + list(flags)
    srcs = [os.path.join(VERIF, 'harness', s) if not s.startswith('/') else s for s in sources]
    if libobj: srcs.append(os.path.join(REPO, 'sljit_src', 'sljitLir.c'))
    procs, objs = [], []
    for s in srcs:
        o = out + '.' + os.path.basename(s) + '.o'
        x = list(libdefs) if s.endswith('sljitLir.c') else []
        procs.append((s, subprocess.Popen(base + x + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        objs.append(o)
    bad = ''
    for s, p in procs:
        t = p.communicate()[0]
        if p.returncode: bad += '%s: %s\n' % (s, t[-3000:])
    if bad: raise BuildError('compile %s failed\n%s' % (cfg, bad))
    r = run([cc] + cf + list(flags) + objs + ['-o', out, '-lm', '-lpthread'] + list(extra_ld))
    for o in objs:
        try: os.unlink(o)
        except OSError: pass
    if r.returncode: raise BuildError('link %s failed\n%s' % (cfg, r.stdout[-3000:]))
    return out
ENG = ['gen.c', 'model.c', 'emit.c', 'print.c', 'main.c', 'tramp.S']
def engine(cfg, suffix='', defs=(), flags=(), opt='-O1', **k):
    return compile_(cfg, os.path.join(WORK, 'eng_' + cfg + suffix), ENG, defs, flags, opt, **k)
WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'free', 'mmap', 'mmap64', 'munmap', 'ftruncate', 'ftruncate64', 'memfd_create', 'mprotect'))]
def oom(cfg, suffix='', flags=(), **k):
    return compile_(cfg, os.path.join(WORK, 'oom_' + cfg + suffix), ['oom.c' if x == 'emit.c' else x for x in ENG], ['-DWITH_OOM'], list(flags), extra_ld=WRAP, **k)
AWRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'free', 'mmap', 'mmap64', 'munmap', 'ftruncate', 'ftruncate64', 'mprotect', 'madvise', 'posix_madvise'))]
def alloc(cfg, suffix='', defs=(), flags=(), **k):
    return compile_(cfg, os.path.join(WORK, 'alloc_' + cfg + suffix), ['alloc.c'], list(defs), list(flags), extra_ld=AWRAP, **k)
HOST = {  # back ends compiled for the host: emission only
 'x86_64': (64, ['-DSLJIT_CONFIG_X86_64=1']), 'x86_32': (32, ['-DSLJIT_CONFIG_X86_32=1']),
 'aarch64': (64, ['-DSLJIT_CONFIG_ARM_64=1']), 'armv7': (32, ['-DSLJIT_CONFIG_ARM_V7=1']), 'armv6': (32, ['-DSLJIT_CONFIG_ARM_V6=1']), 'armt2': (32, ['-DSLJIT_CONFIG_ARM_THUMB2=1']),
 'riscv64': (64, ['-DSLJIT_CONFIG_RISCV_64=1', '-DSLJIT_CONFIG_RISCV_ATOMIC=200']), 'riscv64_ext': (64, ['-DSLJIT_CONFIG_RISCV_64=1', '-DSLJIT_CONFIG_RISCV_ATOMIC=200', '-DSLJIT_CONFIG_RISCV_VECTOR=100', '-DSLJIT_CONFIG_RISCV_BITMANIP_A=93', '-DSLJIT_CONFIG_RISCV_BITMANIP_B=93']),
 'riscv64_c': (64, ['-DSLJIT_CONFIG_RISCV_64=1', '-DSLJIT_CONFIG_RISCV_COMPRESSED=200', '-DSLJIT_CONFIG_RISCV_VECTOR=100']), 'riscv32': (32, ['-DSLJIT_CONFIG_RISCV_32=1', '-DSLJIT_CONFIG_RISCV_ATOMIC=200']), 'riscv32_c': (32, ['-DSLJIT_CONFIG_RISCV_32=1', '-DSLJIT_CONFIG_RISCV_COMPRESSED=200', '-DSLJIT_CONFIG_RISCV_VECTOR=100']),
 's390x': (64, ['-DSLJIT_CONFIG_S390X=1']), 'loongarch64': (64, ['-DSLJIT_CONFIG_LOONGARCH_64=1']), 'ppc64': (64, ['-DSLJIT_CONFIG_PPC_64=1', '-U_CALL_ELF', '-D_CALL_ELF=2']), 'ppc32': (32, ['-DSLJIT_CONFIG_PPC_32=1']),
 'mips32': (32, ['-DSLJIT_CONFIG_MIPS_32=1', '-D__mips_hard_float=1', '-DSLJIT_MIPS_REV=2']), 'mips32r1': (32, ['-DSLJIT_CONFIG_MIPS_32=1', '-D__mips_hard_float=1', '-DSLJIT_MIPS_REV=1']), 'mips64': (64, ['-DSLJIT_CONFIG_MIPS_64=1', '-D__mips_hard_float=1', '-DSLJIT_MIPS_REV=2']), 'mips64r6': (64, ['-DSLJIT_CONFIG_MIPS_64=1', '-D__mips_hard_float=1', '-DSLJIT_MIPS_REV=6']), 'mips32r6': (32, ['-DSLJIT_CONFIG_MIPS_32=1', '-D__mips_hard_float=1', '-DSLJIT_MIPS_REV=6']),
}
UBSAN = ['-fsanitize=undefined', '-fno-sanitize=signed-integer-overflow,shift-base,alignment,pointer-overflow'] + ['-fsanitize-recover=undefined' if os.environ.get('UBREC') else '-fno-sanitize-recover=undefined']
def hostrunner(name):
    return [] if HOST[name][0] == 64 else ['/usr/i686-linux-gnu/lib/ld-linux.so.2', '--library-path', '/usr/i686-linux-gnu/lib']
def host(name, san='asan', suffix=''):
    bits, defs = HOST[name]; pre = ['-DWITH_EMIT', '-include', os.path.join(VERIF, 'harness', 'vemit.h'), '-fno-omit-frame-pointer']
    CONFIGS['_host64'] = ('gcc', None, [], ['-no-pie', '-fno-pie']); CONFIGS['_host32'] = ('i686-linux-gnu-gcc', None, [], X32)
    srcs = ['emitchk.c' if x == 'emit.c' else x for x in ENG]
    out = os.path.join(WORK, 'host_%s_%s%s' % (name, san, suffix))
    if san == 'asan': return compile_('_host%d' % bits, out, srcs, defs + pre, ['-fsanitize=address'], libdefs=UBSAN, extra_ld=['-fsanitize=undefined'])
    if san == 'msan': return compile_('_host64', out, srcs, defs + pre, ['-fsanitize=memory', '-fsanitize-memory-track-origins'], compiler='clang')
    return compile_('_host%d' % bits, out, srcs, defs + pre)
VARIANTS = {'D': [], 'R': ['-DSLJIT_DEBUG=0', '-DSLJIT_ARGUMENT_CHECKS=0', '-DSLJIT_VERBOSE=0'], 'V': ['-DSLJIT_DEBUG=0', '-DSLJIT_ARGUMENT_CHECKS=0', '-DSLJIT_VERBOSE=1'], 'C': ['-DSLJIT_DEBUG=0', '-DSLJIT_ARGUMENT_CHECKS=1', '-DSLJIT_VERBOSE=0']}
def variant(name, var):
    """var: D R V C, or B: D linked at another address (shows which bytes of the code depend on the address of library data)"""
    bits, d = HOST[name]; pre = ['-DWITH_EMIT', '-DWITH_VARIANT', '-include', os.path.join(VERIF, 'harness', 'vemit.h')]
    CONFIGS['_var64'] = ('gcc', None, [], ['-no-pie', '-fno-pie']); CONFIGS['_var32'] = ('i686-linux-gnu-gcc', None, [], X32 + ['-no-pie', '-fno-pie'])
    ld = ['-Wl,-Ttext-segment=' + ('0x1a000000' if var == 'B' else '0x0a000000')]
    if name.startswith('arm'): ld += ['-Wl,--defsym,__aeabi_uidivmod=0x08001000,--defsym,__aeabi_idivmod=0x08001040']
    return compile_('_var%d' % bits, os.path.join(WORK, 'var_%s_%s' % (name, var)), ['variant.c' if x == 'emit.c' else x for x in ENG], d + pre + VARIANTS['D' if var == 'B' else var], extra_ld=ld)
def thr(cfg, suffix='', flags=(), **k):
    return compile_(cfg, os.path.join(WORK, 'thr_' + cfg + suffix), ['thr.c'], [], list(flags), **k)
def thrhost(name, flags=(), suffix=''):
    bits, defs = HOST[name]; pre = ['-DWITH_EMIT', '-include', os.path.join(VERIF, 'harness', 'vemit.h')]
    CONFIGS['_host64'] = ('gcc', None, [], ['-no-pie', '-fno-pie']); CONFIGS['_host32'] = ('i686-linux-gnu-gcc', None, [], X32)
    return compile_('_host%d' % bits, os.path.join(WORK, 'thrh_%s%s' % (name, suffix)), ['thr.c'], defs + pre, list(flags))
def regex(cfg, suffix='', defs=(), flags=(), **k):
    return compile_(cfg, os.path.join(WORK, 'regex_' + cfg + suffix), ['regex.c', os.path.join(REPO, 'regex_src', 'regexJIT.c')], ['-I', os.path.join(REPO, 'regex_src')] + list(defs), list(flags), extra_ld=['-Wl,--wrap=malloc,--wrap=free'], **k)
QDEF = ['-DSLJIT_DEBUG=0', '-DSLJIT_ARGUMENT_CHECKS=1', '-DSLJIT_VERBOSE=0']
def query(cfg, suffix='', flags=(), **k):
    return compile_(cfg, os.path.join(WORK, 'query_' + cfg + suffix), ['query.c'], QDEF, list(flags), **k)
def queryhost(name, suffix='', flags=()):
    bits, defs = HOST[name]; pre = ['-DWITH_EMIT', '-include', os.path.join(VERIF, 'harness', 'vemit.h')] + QDEF
    CONFIGS['_host64'] = ('gcc', None, [], ['-no-pie', '-fno-pie']); CONFIGS['_host32'] = ('i686-linux-gnu-gcc', None, [], X32)
    return compile_('_host%d' % bits, os.path.join(WORK, 'queryh_%s%s' % (name, suffix)), ['query.c'], defs + pre, list(flags))
ADEF = QDEF
def argchk(cfg, suffix='', flags=(), **k):
    return compile_(cfg, os.path.join(WORK, 'argchk_' + cfg + suffix), ['argchk.c'], ADEF, list(flags), **k)
def argchkhost(name, suffix='', flags=()):
    bits, defs = HOST[name]; pre = ['-DWITH_EMIT', '-include', os.path.join(VERIF, 'harness', 'vemit.h')] + ADEF
    CONFIGS['_host64'] = ('gcc', None, [], ['-no-pie', '-fno-pie']); CONFIGS['_host32'] = ('i686-linux-gnu-gcc', None, [], X32)
    return compile_('_host%d' % bits, os.path.join(WORK, 'argchkh_%s%s' % (name, suffix)), ['argchk.c'], defs + pre, list(flags))
def atomic(cfg, suffix='', flags=(), **k):
    return compile_(cfg, os.path.join(WORK, 'atomic_' + cfg + suffix), ['atomic.c'], [], list(flags), **k)
def reach(cfg, suffix='', defs=(), **k):
    return compile_(cfg, os.path.join(WORK, 'reach_' + cfg + suffix), ['reach.c'], list(defs), **k)
def calls(cfg, suffix='', defs=(), **k):
    import gencalls
    src = os.path.join(WORK, 'callstubs_%s%s.c' % (cfg, suffix)); os.makedirs(WORK, exist_ok=True); gencalls.write(src)
    return compile_(cfg, os.path.join(WORK, 'calls_' + cfg + suffix), ['calls.c', src, 'tramp.S'], list(defs), **k)
if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    cs = sys.argv[1:] or ALL
    def b(c):
        try: return engine(c)
        except BuildError as e: return str(e)
    with ThreadPoolExecutor(8) as ex:
        for c, r in zip(cs, ex.map(b, cs)): print(c, r)
