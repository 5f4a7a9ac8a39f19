"""Vector classes (V01): every operation against its lane-by-lane definition, on the bits.

Each operation t_OP of contracts/harness/vec.h (the real class, as the build's headers select it) is
compared with its specification s_OP: started from the same arbitrary memory, the whole memory they
leave is the same, so that nothing but the stated words is touched."""
import re, os
from irv.reg import contract
from irv import bits, build, native
from irv.ctx import Mismatch, Undecided
from irv.ir import Unsupported
import z3

H = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness')
APPROX = {'rsqrt_approx': 'rsqrta', 'rcp_approx': 'rcpa', 'rsqrt': 'rsqrta', 'rcp': 'rcpa'}
ROUND = {'trilinear', 'f_neg'}     # equal as real expressions: products in another order; -0 and 0 - 0 (a zero of either sign)


def names(mod): return sorted({n[3:] for n in mod.fns if n.startswith('@t_') and '@s_' + n[3:] in mod.fns})


def vec(X):
    if X.mode == 'native': return bits_native(X)
    ns = names(X.mod); i, k = X.part
    for n in ns[i::k]: X.ob(n, lambda: one(X, n))


def one(X, n):
    Z = bits.Bits(X.mod); M = bits.Ptr('m', 0)
    m1, m2 = {}, {}
    Z.run('@t_' + n, [M], m1)
    if n in APPROX:
        # the other side: read from the memory the operation started from
        got = {k: v for k, v in m1.items() if k[0] == 'm' and not v.eq(z3.BitVec('m@%d' % k[1], 32))}
        N = int(re.search(r'vec(\d+)', X.src).group(1))
        if set(got) != {('m', 4 * l) for l in range(N)}: raise Mismatch('writes words %s' % sorted(k[1] // 4 for k in got))
        for l in range(N): approx(X, Z, n, got[('m', 4 * l)], z3.BitVec('m@%d' % (256 + 4 * l), 32), l)
    else:
        Z.run('@s_' + n, [M], m2)
        ks = sorted(k for k in set(m1) | set(m2) if k[0] == 'm'); bad = None; und = None
        for k in ks:
            a, b = Z.word(m1, *k), Z.word(m2, *k)
            if a.eq(b): continue
            if n in ROUND and same_real(Z, a, b): continue
            r = Z.decide(a == b)
            if r == 'ok': continue
            w = 'slot %d word %d' % (k[1] // 256, k[1] % 256 // 4)
            if r is None: und = und or '%s: solver gave up' % w
            else: bad = bad or '%s: the code leaves %s, the definition says %s' % (w, str(a)[:300], str(b)[:300])
        if bad: raise Mismatch(bad)
        if und: raise Undecided(und)
    X.E.notes.update({'bits-' + k: v for k, v in Z.notes.items()})
    from irv import solver
    solver.STATS['queries'] += Z.q; solver.STATS['time'] += Z.qt


def same_real(Z, a, b):
    import random
    from fractions import Fraction
    for seed in range(4):
        vals = {}

        def env(t):
            return vals.setdefault(str(t), Fraction(random.Random('%d%s' % (seed, t)).randrange(2, 10**6), 7919))
        x, y = bits.rational(Z, a, env, {}), bits.rational(Z, b, env, {})
        if x is None or x != y: return False
    return True


def approx(X, Z, n, t, a, l):
    """1/sqrt(a), 1/a: exactly, the machine's approximation itself (only for *_approx), or one Newton step from it"""
    import random
    from fractions import Fraction as Q
    sq = n.startswith('rsqrt'); op = APPROX[n]
    seen = set()

    def scan(x):
        if x.get_id() in seen: return
        seen.add(x.get_id())
        if x.decl().name() in ('rsqrta', 'rcpa', 'sqrt32', 'sqrt64'): kinds.add(x.decl().name())
        for i in range(x.num_args()): scan(x.arg(i))
    kinds = set(); scan(t)
    for seed in range(4):
        rnd = random.Random(seed); s = Q(rnd.randrange(2, 9999), 97); av = s * s if sq else s
        e = Q(rnd.randrange(1, 999), 100003)      # relative error of the approximation
        y = (1 / s) * (1 + e)

        def env(x):
            d = x.decl().name()
            if x.eq(a): return av
            if d == op and x.arg(0).eq(a): return y
            if d in ('sqrt32', 'sqrt64'):
                z = bits.rational(Z, x.arg(0), env, {})
                if z == av: return s
                if z is not None and z == 1 / av: return 1 / s
            return None
        v = bits.rational(Z, t, env, {})
        if v is None: raise Undecided('lane %d: %s' % (l, str(t)[:200]))
        # relative error allowed: none for the exact forms, the approximation's own, or its square (one Newton step)
        err = abs(v * s - 1)
        lim = Q(0) if op not in kinds else e if n.endswith('approx') else 2 * e * e
        if err > lim: raise Mismatch('lane %d: relative error %.3g from an approximation with relative error %.3g (allowed %.3g)' % (l, err, e, lim))


def bits_native(X):
    """the compiled operations and definitions on special and random bit patterns"""
    import ctypes, random, struct
    need = {'v16avx512': 'avx512dq', 'v8avx2': 'avx2', 'v4avx2': 'avx2', 'v4avx': 'avx', 'v8avx': 'avx'}.get(X.cfg)
    if need and need not in open('/proc/cpuinfo').read().split(): return   # this machine cannot run them
    so = bits.harness_so(X.src, X.cfg)
    L = ctypes.CDLL(so)
    ns = sorted(set(re.findall(r'\bt_(\w+)', bits.symbols(so))))
    rng = random.Random(X.seed)
    pool = [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x80000001, 0xffffffff, 0x7fffffff, 0x00800000, 2, 31, 0x40490fdb]
    W = 40 * 64

    def rnd(kind):
        z = rng.random()
        if kind == 'f': return struct.unpack('<I', struct.pack('<f', rng.uniform(-4, 4) if z < .6 else rng.uniform(0, 1) if z < .8 else rng.choice([1, -1, 0, .5, 2, -2.5])))[0]
        if kind == 'i': return rng.randrange(-9, 10) % 2**32
        if kind == 'p': return struct.unpack('<I', struct.pack('<f', 2 ** rng.uniform(-20, 20)))[0]
        return rng.getrandbits(32) if z < .5 else rng.choice(pool)

    def isn(u): return (u & 0x7fffffff) > 0x7f800000
    buf = (ctypes.c_char * (2 * W * 4 + 128))()
    b1 = (ctypes.addressof(buf) + 63) & ~63; b2 = b1 + W * 4

    def test(n):
        t, s_ = getattr(L, 't_' + n), getattr(L, 's_' + n)
        for trial in range(60):
            kind = 'p' if n in APPROX else ('f', 'i', 'b')[trial % 3]
            if n in ('i_div', 'ia_div', 'i_mod', 'ia_mod'): kind = 'd'
            if n in ('i_shl', 'ia_shl', 'i_shr', 'ia_shr'): kind = 's'
            ws = [rng.randrange(1, 60) if kind in 'ds' and kind == 'd' else rng.randrange(0, 32) if kind == 's' else rnd(kind) for _ in range(W)]
            if n in ('any', 'all') and trial % 2: ws = [0 if n == 'any' else -1 % 2**32] * W; ws[64 + rng.randrange(64)] = rng.choice([0, 1, 0x80000000, 0xffffffff, 4])
            raw = struct.pack('<%dI' % W, *ws)
            ctypes.memmove(b1, raw, W * 4); ctypes.memmove(b2, raw, W * 4)
            t(ctypes.c_void_p(b1)); s_(ctypes.c_void_p(b2))
            A = struct.unpack('<%dI' % W, ctypes.string_at(b1, W * 4)); B = struct.unpack('<%dI' % W, ctypes.string_at(b2, W * 4))
            if A == B: continue
            for j, (x, y) in enumerate(zip(A, B)):
                if x == y or isn(x) and isn(y): continue
                fx, fy = struct.unpack('<f', struct.pack('<I', x))[0], struct.unpack('<f', struct.pack('<I', y))[0]
                if n in APPROX and abs(fx - fy) <= abs(fy) * (3e-4 * 1.5 if n.endswith('approx') else 2e-6): continue
                if (n in ('fma', 'fms', 'fnms') or n in ROUND) and (fx == fy or kind != 'i' and abs(fx - fy) <= 1e-5 * (1 + abs(fy)) or kind == 'b'): continue
                if n in LIBMF and abs(fx - fy) <= 3e-7 * abs(fy): continue
                X.record['mismatch'] = {'where': '%s slot %d word %d' % (n, j // 64, j % 64), 'got': hex(x), 'expected': hex(y), 'arguments': [[hex(u) for u in ws[64 * k:64 * k + 16]] for k in range(4)]}
                raise Mismatch('%s slot %d word %d: got %#x, expected %#x' % (n, j // 64, j % 64, x, y))
    for n in ns: X.ob(n, lambda: test(n))


LIBMF = {'acos', 'asin', 'atan', 'atan2', 'cos', 'cosh', 'exp', 'log', 'log10', 'pow', 'sin', 'sinh', 'tan', 'tanh'}
KW = dict(bounded=False, native_dims=[None])
contract('V01', 'v4 operations', H + '/vec4.cc', ('v4sse', 'v4avx', 'v4avx2', 'v4port'), qproof=('v4sse', 'v4avx', 'v4avx2', 'v4port'), opts={'parts': 1}, Pn=(1,), **KW)(vec)
contract('V01', 'v8 operations', H + '/vec8.cc', ('v8avx', 'v8avx2', 'v8port'), qproof=('v8avx', 'v8avx2', 'v8port'), opts={'parts': 1}, Pn=(1,), **KW)(vec)
contract('V01', 'v16 operations', H + '/vec16.cc', ('v16', 'v16avx512'), qproof=('v16', 'v16avx512'), opts={'parts': 3}, Pn=(1,), **KW)(vec)
