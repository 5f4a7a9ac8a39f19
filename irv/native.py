"""Replay of a contract on the compiled real code: the contract's pre-state is
materialised with random numbers, the real function is called, and the contract's
postconditions are evaluated on the memory it leaves behind."""
import os, ctypes, struct, random, math, subprocess, hashlib
from fractions import Fraction
from . import terms as T
from . import build
from .terms import P, F, B, Ptr, NULL, FnPtr, UNDEF, C, ZERO, ONE, TRUE, FALSE
from .engine import Engine, State, Region, SZ, demangle, Split
from .ir import Unsupported
from .ctx import Ctx, Mismatch, Undecided

STUB = '''#include <cstdio>
#include <cstdlib>
extern "C" __attribute__((weak)) void log_printf(const char *, ...) {}
'''


def build_so(srcs, cfg, extra='', noop=()):
    key = hashlib.sha256(repr([(x, build.compile_ir(x, cfg)) for x in srcs] + [extra, cfg, sorted(noop), 6]).encode()).hexdigest()[:32]
    out = os.path.join(build.CACHE, key + '.so')
    if os.path.exists(out): return out
    objs = []
    tmp = out + '.%d' % os.getpid()
    ps = []
    for i, x in enumerate(srcs):
        o = '%s.%d.o' % (tmp, i)
        path = x if x.startswith('/') else os.path.join(build.REPO, x)
        cmd = ['g++', '-O2', '-fPIC', '-c', '-fno-strict-aliasing', '-w'] + [f for f in build.flags(cfg)] + [path, '-o', o]
        ps.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), cmd)); objs.append(o)
    for p, cmd in ps:
        _, e = p.communicate()
        if p.returncode: raise Unsupported('native build failed: ' + e[-800:])
    for o in objs:      # static pipeline functions are called from the replay
        loc = [l.split()[2] for l in subprocess.run(['nm', o], stdout=subprocess.PIPE, text=True).stdout.split('\n') if len(l.split()) == 3 and l.split()[1] == 't' and l.split()[2].startswith('_Z')]
        loc = [x for x in loc if '.' not in x]
        if loc: subprocess.run(['objcopy'] + sum([['--globalize-symbol', x] for x in loc], []) + [o])
    st = tmp + '.stub.cc'
    u = subprocess.run(['nm', '-u'] + objs, stdout=subprocess.PIPE, text=True).stdout
    und = {l.split()[1] for l in u.split('\n') if l.strip().startswith('U ')}
    u = subprocess.run(['nm', '--defined-only'] + objs, stdout=subprocess.PIPE, text=True).stdout
    und -= {l.split()[2] for l in u.split('\n') if len(l.split()) == 3}
    miss = [x for x in sorted(und) if x.startswith('_Z') and not x.startswith(('_ZS', '_ZNS', '_ZNKS', '_ZTV', '_ZTI', '_Zna', '_Znw', '_Zd', '_ZN9__gnu')) and x not in extra]
    no = [x for x in sorted(und) if (x in noop or demangle('@' + x) in noop) and x not in extra]
    miss = [x for x in miss if x not in no]
    extra = extra + ''.join('asm(".globl %s\\n%s: ret\\n");\n' % (x, x) for x in no)
    extra = extra + ''.join('asm(".globl %s\\n%s: ud2\\n");\n' % (x, x) for x in miss)
    data = [x for x in sorted(und) if x in ('thread', 'serial', 'omp_helper', '_world_rank', '_world_size', 'rng_pool', 'mp', 'simulation')]
    open(st, 'w').write(STUB + extra + ''.join('extern "C" { extern long %s__[512] __asm__("%s"); long %s__[512] = {0}; }\n' % (x, x, x) for x in data if x not in extra))
    p = subprocess.run(['g++', '-O1', '-fPIC', '-w', '-shared'] + build.flags(cfg) + [st] + objs + ['-o', tmp, '-Wl,--unresolved-symbols=ignore-all', '-ldl', '-lpthread', '-lm'] + (['-fopenmp'] if 'omp' in cfg else []),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    for o in objs + [st]:
        try: os.remove(o)
        except OSError: pass
    if p.returncode: raise Unsupported('native link failed: ' + p.stderr[-800:])
    os.rename(tmp, out)
    return out


class NCtx(Ctx):
    def __init__(s, cfg, src, dims=None, extra_src=(), keep=None, opts=None, Pn=2, seed=1):
        super().__init__(cfg, src, dims=dims or (1, 1, 1), extra_src=extra_src, keep=keep, opts=opts, Pn=Pn)
        s.mode = 'native'
        s.seed = seed
        s.rng = random.Random(seed * 7919 + sum(dims or (0,)))
        s.E.__class__ = NEng
        s.E.X = s
        s.syms = {}; s.bufs = None; s.record = {}
        s.lib = None

    def reset(s):
        super().reset()
        s.E.__class__ = NEng; s.E.X = s; s.bufs = None; s._evm = {}

    def fval(s, name):
        if name not in s.syms:
            pos = any(name.startswith(x) for x in ('g.d', 'g.rd', 'g.cvac', 'g.eps', 'g.r8', 'q', 'm')) or s.opts.get('pos')
            s.syms[name] = struct.unpack('f', struct.pack('f', s.rng.uniform(0.3, 1.5) if pos else s.rng.uniform(-1, 1)))[0]
        return s.syms[name]

    def init(s):
        """materialise every region"""
        if s.bufs is not None: return
        s.bufs = {}; s.base = {}; s.init0 = {}
        for n, reg in list(s.E.regions.items()):
            if n[0] in '%@' or reg.additive and n not in s.sizes: continue
            if n not in s.sizes: continue
            sz = s.sizes[n]
            raw = ctypes.create_string_buffer(sz + 512)
            ad = (ctypes.addressof(raw) + 255) & ~127
            s.bufs[n] = (raw, ad, sz); s.base[n] = ad
        for n, (raw, ad, sz) in s.bufs.items():
            reg = s.E.regions[n]
            gen = s.opts.get('gen', {}).get(n)
            if reg.stride or (not reg.known and reg.dflt in ('f32', 'i32')):
                st = reg.stride or 4
                for e in range(0, sz, st):
                    o = 0
                    while o < st and e + o < sz:
                        k = reg.kinds.get(o, reg.dflt)
                        w = SZ.get(k, 4)
                        v = gen(s.rng, e, o, k) if gen else None
                        if v is None: v = {'f32': s.rng.uniform(-1, 1), 'f64': s.rng.uniform(-1, 1), 'i16': s.rng.randint(0, 1), 'i32': s.rng.randint(0, 3), 'i8': 0, 'i64': 0, 'ptr': 0}.get(k, 0.)
                        s.put(ad + e + o, v, k if k in SZ else 'f32'); o += w
            for o, v in reg.known.items():
                k = reg.kinds.get(o)
                if k is None: k = 'f32' if isinstance(v, F) else 'ptr' if isinstance(v, (Ptr,)) or v is NULL else 'i32'
                s.put(ad + o, s.cval(v), k)
        for n, (raw, ad, sz) in s.bufs.items(): s.init0[n] = ctypes.string_at(ad, sz)

    def put(s, a, v, k):
        fm = {'f32': 'f', 'f64': 'd', 'i16': 'h', 'i32': 'i', 'i64': 'q', 'i8': 'b', 'ptr': 'Q'}[k]
        b = struct.pack('<' + fm, v)
        ctypes.memmove(a, b, len(b))

    def cval(s, v):
        if isinstance(v, P):
            c = v.const()
            if c is None: raise Unsupported('native value of %r' % (v,))
            return c
        if isinstance(v, F): return s.ev(v)[0]
        if v is NULL: return 0
        if isinstance(v, Ptr):
            if v.r not in s.base: raise Unsupported('native pointer to %s' % v.r)
            return s.base[v.r] + v.o.const()
        raise Unsupported('native value of %r' % (v,))

    def run(s, fn, args, st=None):
        nm = [x for m in [s.mod] + s.E.link for x in m.fns if demangle(x) == fn]
        if fn.startswith('irv_'): nm = ['@' + fn]        # a driver in the replay's own stub
        if len(nm) != 1: raise Unsupported('function %s not found' % fn)
        if s.lib is None:
            # a host routine dispatches the vector pipelines of its sibling files
            sib = [s.src[:-3] + v + '.cc' for v in ('_v4', '_v8', '_v16')] if s.src.endswith('_pipeline.cc') else []
            sib = [x for x in sib if os.path.exists(os.path.join(build.REPO, x))]
            src = [s.src]
            for x in s.extra_src + list(getattr(s, 'nlink', [])) + sib:
                if x not in src: src.append(x)
            so = build_so(src, s.cfg, s.opts.get('stub', ''), [n for n, h in s.E.contracts.items() if getattr(h, 'snap', 0)])
            s.lib = ctypes.CDLL(so, mode=os.RTLD_LAZY if hasattr(os, 'RTLD_LAZY') else 1)
        s.init()
        f = getattr(s.lib, nm[0][1:].strip('"'))
        ar = []
        for a in args:
            if isinstance(a, F): ar.append(ctypes.c_float(s.ev(a)[0]))
            elif isinstance(a, P): ar.append(ctypes.c_int(s.cval(a)))
            else: ar.append(ctypes.c_void_p(s.cval(a)))
        rt = s.opts.get('ret', {}).get(fn)
        f.restype = {'f32': ctypes.c_float, 'f64': ctypes.c_double, 'i32': ctypes.c_int, None: None, 'ptr': ctypes.c_void_p}[rt]
        r = f(*ar)
        s.record.setdefault('calls', []).append([fn] + [repr(x) for x in ar])
        return [(st or s.st, None if rt is None else T.fc(Fraction(r)) if rt[0] == 'f' else C(r))]

    def rd(s, mem, off, size, k):
        fm = {'f32': 'f', 'f64': 'd', 'i16': 'h', 'i32': 'i', 'i64': 'q', 'i8': 'b', 'ptr': 'Q'}[k]
        return struct.unpack_from('<' + fm, mem, off)[0]

    # numeric value and magnitude of a term over the initial state
    def ev(s, x, memo=None):
        memo = s.__dict__.setdefault('_evm', {})
        st = [x]
        while st:
            n = st[-1]
            if n in memo: st.pop(); continue
            o = n.op
            if o == 'ite':
                y = n.a[1] if s.truth(n.a[0]) else n.a[2]
                if y not in memo: st.append(y); continue
                memo[n] = memo[y]; st.pop(); continue
            if o == 'c': memo[n] = (float(n.a[0]), abs(float(n.a[0])))
            elif o == 's': v = s.fval(n.a[0]); memo[n] = (v, abs(v))
            elif o == 'i2f': v = float(s.iv(n.a[0])); memo[n] = (v, abs(v))
            elif o == 'mem':
                if n.a[0] not in s.init0: raise Unsupported('native value of %r' % (n,))
                v = s.rd(s.init0[n.a[0]], s.iv(n.a[2]), 0, n.a[3]); memo[n] = (v, abs(v))
            else:
                ks = [y for y in n.a if isinstance(y, F) and y not in memo]
                if ks: st += ks; continue
                a = [memo[y] if isinstance(y, F) else y for y in n.a]
                if o == '+': r = (a[0][0] + a[1][0], a[0][1] + a[1][1])
                elif o == '*': r = (a[0][0] * a[1][0], a[0][1] * a[1][1])
                elif o == '/':
                    d = a[1][0]
                    r = (a[0][0] / d, a[0][1] / abs(d) * (a[1][1] / abs(d))) if d else (float('nan'), 0)
                elif o == 'sqrt': r = (math.sqrt(a[0][0]), math.sqrt(a[0][1])) if a[0][0] >= 0 else (float('nan'), 0)
                elif o == 'fn': v = s.fnval(n.a[0], [q[0] if isinstance(q, tuple) else q for q in a[1:]]); r = (v, abs(v) + sum(abs(q[1]) for q in a[1:] if isinstance(q, tuple)))
                else: raise Unsupported('native evaluation of ' + o)
                memo[n] = r
            st.pop()
        return memo[x]

    def fnval(s, name, a):
        f = {'fabs': abs, 'exp': math.exp, 'log': math.log, 'cos': math.cos, 'sin': math.sin, 'tan': math.tan, 'pow': math.pow, 'floor': math.floor, 'allsum': lambda x, i: 3 * x + 0.125 * (i + 1)}.get(name)
        if f is None: raise Unsupported('native evaluation of ' + name)
        return f(*a)

    def iv(s, p): return p.eval(s.ival)

    def ival(s, aid):
        at = T.Atom._byid[aid]
        m = at.meta or {}
        if at.kind == 'imem':
            v = s.rd(s.init0[m['reg']], s.iv(m['off']), 0, {1: 'i8', 2: 'i16', 4: 'i32', 8: 'i64'}[m['size']]); return v
        if at.kind == 'div': return s.iv(m['args'][0]) // s.iv(m['args'][1])
        if at.kind == 'f2i': return int(s.ev(m['f'])[0])
        raise Unsupported('native value of %r' % (at,))

    def rd(s, mem, off, size, k):
        fm = {'f32': 'f', 'f64': 'd', 'i16': 'h', 'i32': 'i', 'i64': 'q', 'i8': 'b', 'ptr': 'Q'}[k]
        return struct.unpack_from('<' + fm, mem, off)[0]

    def truth(s, b):
        o = b.op
        if o == 'const': return b.a[0]
        if o == 'not': return not s.truth(b.a[0])
        if o == 'and': return all(s.truth(x) for x in b.a)
        if o == 'or': return any(s.truth(x) for x in b.a)
        if o == 'le': return s.iv(b.a[0]) <= 0
        if o == 'eq': return s.iv(b.a[0]) == 0
        if o == 'flt': return s.ev(b.a[0])[0] < s.ev(b.a[1])[0]
        if o == 'feq': return s.ev(b.a[0])[0] == s.ev(b.a[1])[0]
        raise Unsupported('native truth of %r' % (b,))

    def equal(s, st, got, want, what):
        if isinstance(want, F) and isinstance(got, F):
            g = float(got.a[0]) if got.op == 'c' else s.ev(got)[0]
            w, m = s.ev(want)
            tol = s.opts.get('tol', 2e-5)
            if math.isnan(w): return
            if not abs(g - w) <= tol * max(m, 1e-30) + 1e-30:
                s.record['mismatch'] = {'where': what, 'got': g, 'expected': w, 'parameters': dict(s.syms), 'dims': str(s.dims)}
                raise Mismatch('%s: got %.9g, expected %.9g' % (what, g, w))
            return
        if isinstance(want, P):
            g = got.const() if isinstance(got, P) else None
            if isinstance(got, P) and g is None: g = s.iv(got)
            w = s.iv(want)
            if g != w:
                s.record['mismatch'] = {'where': what, 'got': g, 'expected': w, 'parameters': dict(s.syms)}
                raise Mismatch('%s: got %r, expected %r' % (what, g, w))
            return
        if isinstance(want, Ptr) or want is NULL:
            if isinstance(got, P) and got.const() == s.cval(want): return
            raise Mismatch('%s: got %r, expected %r' % (what, got, want))
        raise Unsupported('native comparison of %r with %r' % (got, want))

    feq = equal

    def prove(s, st, b, what=''):
        if not s.truth(b): raise Mismatch('%s: %r is false' % (what, b))
        return True

    def untouched(s, st, allowed, tag='frame'):
        def f():
            for n, (raw, ad, sz) in s.bufs.items():
                if n in allowed: continue
                if ctypes.string_at(ad, sz) != s.init0[n]: raise Mismatch('writes to %s, which its contract does not allow' % n)
        s.ob(tag + '/frame', f)

    def probe(s, st, region, off, size, want, what, leaves=None):
        v = s.E.lookup(st, region, off, size)
        w = want(st) if callable(want) else want
        if w is None:
            w = s.E.initval(st, s.E.regions[region], off, size, '', None)
        s.equal(st, v, w, what)
        return 1


class NEng(Engine):
    """memory = what the compiled code left behind; conditions are evaluated on the replayed input"""
    def decide(s, st, b): return s.X.truth(b)

    def lookup(s, st, r, off, size, ty=None):
        X = s.X
        if X.bufs is None or r not in X.bufs: raise Unsupported('native memory %s' % r)
        reg = s.regions[r]; o = X.iv(off)
        raw, ad, sz = X.bufs[r]
        if o < 0 or o + size > sz: raise Unsupported('native offset')
        k = reg.kind(C(o))
        if o in reg.known and not reg.stride:
            v = reg.known[o]
            k = reg.kinds.get(o) or ('f32' if isinstance(v, F) else 'ptr' if isinstance(v, Ptr) else 'i32')
        if SZ.get(k) != size: k = {1: 'i8', 2: 'i16', 4: 'i32', 8: 'i64'}[size]
        v = X.rd(ctypes.string_at(ad + o, size), 0, size, k)
        if k in ('f32', 'f64'):
            if v != v or abs(v) == float('inf'): raise Mismatch('%s+%d is %r' % (r, o, v))
            return T._F('c', Fraction(v))
        return C(v)
