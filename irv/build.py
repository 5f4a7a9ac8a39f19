"""Compile the real sources of /repo to LLVM IR, once per build configuration."""
import os, subprocess, hashlib, re, glob
from .ir import Module

REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
MPI_INC = ['/usr/lib/x86_64-linux-gnu/openmpi/include', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
CONFIGS = {
    'ref': ['-DVPIC_USE_PTHREADS'],
    'v4sse': ['-DVPIC_USE_PTHREADS', '-DUSE_V4_SSE', '-DVPIC_USE_LEGACY_SORT'],
    'v8avx2': ['-DVPIC_USE_PTHREADS', '-mavx2', '-mfma', '-DUSE_V4_AVX2', '-DUSE_V8_AVX2'],
    'v8omp': ['-DVPIC_USE_OPENMP', '-fopenmp', '-DUSE_V4_PORTABLE', '-DUSE_V8_PORTABLE'],
    'v8port': ['-DVPIC_USE_PTHREADS', '-DUSE_V4_PORTABLE', '-DUSE_V8_PORTABLE'],
    'v4port': ['-DVPIC_USE_PTHREADS', '-DUSE_V4_PORTABLE'],
    'v4avx': ['-DVPIC_USE_PTHREADS', '-mavx', '-DUSE_V4_AVX'],
    'v8avx': ['-DVPIC_USE_PTHREADS', '-mavx', '-DUSE_V4_AVX', '-DUSE_V8_AVX'],
    'v4avx2': ['-DVPIC_USE_PTHREADS', '-mavx2', '-mfma', '-DUSE_V4_AVX2'],
    'v16avx512': ['-DVPIC_USE_PTHREADS', '-mavx2', '-mfma', '-mavx512f', '-mavx512dq', '-DUSE_V4_AVX2', '-DUSE_V8_AVX2', '-DUSE_V16_AVX512'],
    'v16': ['-DVPIC_USE_PTHREADS', '-DUSE_V4_PORTABLE', '-DUSE_V8_PORTABLE', '-DUSE_V16_PORTABLE'],
}
CACHE = os.environ.get('VERIF_CACHE', '/tmp/irv_cache_%d' % os.getuid())


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-3000:]))
    return p.stdout


def incs():
    r = ['-I' + REPO, '-I' + REPO + '/src', '-idirafter', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'include')]
    for d in MPI_INC: r.append('-I' + d)
    return r


def flags(cfg):
    return ['-std=c++11', '-fno-strict-aliasing', '-w'] + incs() + CONFIGS[cfg]


LICM = ',function(loop-mssa(licm<no-allowspeculation>))'


def compile_ir(src, cfg='ref', extra=(), text=None, keep=None, post=''):
    """src: path relative to /repo, or absolute.  Returns the IR text.
    keep: None or regex of functions that are left as separate functions (not inlined)
    in addition to every function with external linkage."""
    if keep is None: keep = r'_pipeline_(scalar|v\d+)P13pipeline_args'
    path = src if src.startswith('/') else os.path.join(REPO, src)
    os.makedirs(CACHE, exist_ok=True)
    f = flags(cfg)
    pre = [LLVM + 'clang++', '-E', '-P'] + f + list(extra) + [path]
    pp = _run(pre)
    key = hashlib.sha256(('6|%s|%s|%s|%s|%s' % (cfg, extra, keep, path, post) + pp).encode()).hexdigest()
    out = os.path.join(CACHE, key + '.ll')
    if os.path.exists(out):
        return open(out).read()
    base = [LLVM + 'clang++', '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-fno-exceptions', '-fno-math-errno',
            '-fno-rtti' if False else '-frtti', '-S', '-emit-llvm'] + f + list(extra) + [path, '-o', '-']
    t = _run(base)
    lines = t.split('\n')
    for i, l in enumerate(lines):
        if l.startswith('define '):
            m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', l)
            nm = m.group(1)
            linkonce = ' linkonce_odr ' in l or ' internal ' in l or ' weak_odr ' in l
            if (not linkonce) or (keep and re.search(keep, nm)):
                l2 = re.sub(r'\) (local_unnamed_addr |unnamed_addr )?(#\d+)', lambda m: ') %snoinline %s' % (m.group(1) or '', m.group(2)), l, count=1)
                lines[i] = l2
    t = '\n'.join(lines)
    # drop attributes that conflict
    t = re.sub(r'\balwaysinline\b', '', t) if False else t
    p = subprocess.run([LLVM + 'opt', '-S', '-passes=function(sroa,early-cse),always-inline,cgscc(inline),function(sroa,early-cse<memssa>,instsimplify,simplifycfg,adce)' + post,
                        '-inline-threshold=100000', '-phi-node-folding-threshold=0', '-two-entry-phi-node-folding-threshold=0',
                        '-inlinehint-threshold=100000'],
                       input=t, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode: raise BuildError(p.stderr[-3000:])
    tmp = out + '.%d' % os.getpid()
    open(tmp, 'w').write(p.stdout)
    os.rename(tmp, out)
    return p.stdout


_mods = {}


def module(src, cfg='ref', extra=(), keep=None, post=''):
    k = (src, cfg, tuple(extra), keep, post)
    if k not in _mods:
        _mods[k] = Module(compile_ir(src, cfg, extra, keep=keep, post=post))
    return _mods[k]
