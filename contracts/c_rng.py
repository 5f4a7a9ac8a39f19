"""Random number generator (R01), on the bits: the SFMT recursion, draws, fills, conversions, seeding, permutations."""
import ctypes, math, random, struct
from irv.reg import contract
from irv import bits, build, native, solver
from irv.bits import Ptr, bv, simp
from irv.ctx import Mismatch, Undecided
from irv.engine import demangle
from irv.ir import Unsupported
import z3

SRC = 'src/util/rng/rng.cc'
NB, NW = 1408, 352                      # state bytes and words: SFMT11213 has 88 vectors of 128 bits
M, L1, L2, R1, R2 = 68, 14, 3, 7, 3     # published parameter set of SFMT11213
MASK = (0xeffff7fb, 0xffffffef, 0xdfdfbfff, 0x7fffdbfd)
PARITY = (1, 0, 0xe8148000, 0xd0c7afa3)
INTS = {'c': (1, 1), 'uc': (1, 0), 'h': (2, 1), 'uh': (2, 0), 'i': (4, 1), 'ui': (4, 0), 'l': (8, 1), 'ul': (8, 0),
        'i8': (1, 1), 'u8': (1, 0), 'i16': (2, 1), 'u16': (2, 0), 'i32': (4, 1), 'u32': (4, 0), 'i64': (8, 1), 'u64': (8, 0)}
FLTS = ['%srand%s' % (p, v) for p in 'fd' for v in ('', '_c0', '_c1', '_c')]
AS = z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8))
NEXT = z3.Function('sfmt_next', AS, AS)
N0 = z3.BitVec('r@1408', 32)


def machine(X, contracts=True):
    mod = build.module(SRC, X.cfg, keep=r'sfmt_next')
    Z = bits.Loops(mod); Z.arrays = {'r': NB, 'x': None, 'p': None}
    Z.assume = [z3.ULE(N0, bv(NB, 32))]
    if contracts:
        nx = [n for n in mod.fns if demangle(n) == 'sfmt_next']
        if len(nx) != 1: raise Unsupported('sfmt_next not found')

        def step(A, mem, I):
            if A[0].r != 'r' or A[0].o != 0: raise Mismatch('sfmt_next is not given the state')
            mem[('r', 'arr')] = NEXT(Z.arr(mem, 'r'))
        Z.contracts[nx[0][1:]] = step
    return Z


def fn(Z, name):
    n = [x for x in Z.mod.fns if demangle(x) == name]
    if len(n) != 1: raise Unsupported('function %s not found' % name)
    return Z.mod.body(Z.mod.fns[n[0]])


def draw(a, n, size):
    """documented draw: align, refresh when exhausted, take the little-endian bytes: (bits, state, next)"""
    n1 = (n + bv(size - 1, 32)) & bv(~(size - 1) % 2**32, 32); ref = z3.UGE(n1, bv(NB, 32))
    a2 = z3.If(ref, NEXT(a), a); n2 = z3.If(ref, bv(0, 32), n1); o = z3.ZeroExt(32, n2)
    b = [z3.Select(a2, o + bv(i, 64)) for i in range(size)]
    return (z3.Concat(*b[::-1]) if size > 1 else b[0]), a2, n2 + bv(size, 32)


def must(Z, c, what, extra=()):
    r = Z.decide(c, list(Z.assume) + list(extra))
    if r is None: raise Undecided(what + ': solver gave up')
    if r != 'ok': raise Mismatch('%s: %s' % (what, str(r)[:400]))


def sides(Z):
    for w, c in Z.side: must(Z, c, w)
    del Z.side[:]


def state(Z, mem): return Z.arr(mem, 'r'), Z.word(mem, 'r', NB)


def one(X, name, size, post):
    """single draw: post(Z, returned, bits) and the state after it"""
    Z = machine(X); f = fn(Z, name); mem = {}; a0 = Z.arr(mem, 'r')
    v = Z.run('@' + f.name.lstrip('@'), [Ptr('r', 0)], mem)
    b, a1, n1 = draw(a0, N0, size); A, N = state(Z, mem)
    post(Z, v, b); must(Z, N == n1, 'position'); must(Z, A == a1, 'state'); sides(Z)
    only(Z, mem, {'r'}); return done(X, Z)


def done(X, Z): solver.STATS['queries'] += Z.q; solver.STATS['time'] += Z.qt


def only(Z, mem, regs):
    for k, v in mem.items():
        if k[0] in regs or k[0][0] in '@%' or isinstance(v, Ptr): continue
        if k[1] == 'arr' and v.eq(z3.Array('%s[]' % k[0], z3.BitVecSort(64), z3.BitVecSort(8))): continue
        if k[1] != 'arr' and v.eq(z3.BitVec('%s@%d' % k, 32)): continue
        raise Mismatch('writes %s' % (k,))


def exact(Z, t, memo=None):
    """(numerator, power of two) when the float operations of t are exact; numerators are 128-bit"""
    n = t.decl().name(); w = t.size()

    def fits(x, c):
        must(Z, z3.ULE(x, bv(1 << {32: 24, 64: 53}[w], 128)), 'float term not exact'); return x, c
    if z3.is_bv_value(t):
        q = struct.unpack('<f' if w == 32 else '<d', struct.pack('<I' if w == 32 else '<Q', t.as_long()))[0]
        if q < 0 or q != q: raise Undecided('constant %r' % q)
        m, e = math.frexp(q); m = int(m * 2**60); e -= 60
        while m and m % 2 == 0: m //= 2; e += 1
        return bv(m, 128), e
    if n.startswith('uitofp_') or n.startswith('sitofp_'):
        x = t.arg(0)
        if n[0] == 's': must(Z, x >= 0, 'conversion of a negative integer')
        return fits(z3.ZeroExt(128 - x.size(), x), 0)
    if n.startswith('fadd'):
        (x, a), (y, b) = exact(Z, t.arg(0)), exact(Z, t.arg(1)); c = min(a, b)
        return fits((x << (a - c)) + (y << (b - c)), c)
    if n.startswith('fmul'):
        for i in (0, 1):
            if z3.is_bv_value(t.arg(i)):
                m, e = exact(Z, t.arg(i))
                if m.as_long() == 1: x, c = exact(Z, t.arg(1 - i)); return x, c + e
    if n in ('fpext', 'fptrunc'): return exact(Z, t.arg(0))
    if n.startswith('fdiv') and z3.is_bv_value(t.arg(1)):
        m, e = exact(Z, t.arg(1))
        if m.as_long() == 1: x, c = exact(Z, t.arg(0)); return x, c - e
    raise Undecided('float term %s' % str(t)[:200])


def value(Z, t, b, kind):
    """t is the documented conversion of the random bits b"""
    K = 24 if b.size() == 32 else 53; u = z3.ZeroExt(128 - b.size(), b); sh = b.size() - K
    hi = z3.LShR(u, bv(sh, 128))
    want = {'': (2 * z3.LShR(u, bv(sh + 1, 128)) + 1, -K), '_c0': (hi, -K), '_c1': (hi + 1, -K), '_c': (hi + (u & 1), -K)}[kind]
    x, e = exact(Z, t); c = min(e, want[1])
    must(Z, (x << (e - c)) == (want[0] << (want[1] - c)), 'value')
    y = want[0]; top = bv(1 << K, 128)
    must(Z, z3.And(z3.ULE(y, top), *([y != 0] if kind in ('', '_c1') else []) + ([y != top] if kind in ('', '_c0') else [])), 'interval')


def fill(X, name, size, single):
    """bulk fill: no element, nothing happens; otherwise an arbitrary iteration puts one single draw in the next element"""
    Z = machine(X); f = fn(Z, name); L = Z.loops(f)
    if len(L) != 1: raise Unsupported('%d loops' % len(L))
    h, bl = L[0]; P = [p[1] for p in f.params]
    stride, count = z3.BitVec('str_ele', 64), z3.BitVec('n_ele', 64)
    args = lambda: dict(zip(P, [Ptr('r', 0), Ptr('x', 0), stride, count]))
    sv = list(Z.assume)
    Z.assume = sv + [count == 0]; mem = {}; f0 = [Z.arr(mem, 'r'), Z.arr(mem, 'x')]
    r = Z.go(f, f.entry, None, args(), mem, None)
    only(Z, mem, set())
    Z.assume = sv + [count != 0]; mem = {}; env = args()
    ph = Z.upto(f, h, env, mem); only(Z, mem, set())
    idx = [k for k, v in ph.items() if not isinstance(v, Ptr) and bits.is_c(simp(v)) and simp(v).as_long() == 0 and v.size() == 64]
    if len(ph) != 1 or len(idx) != 1: raise Unsupported('loop variables %r' % (ph,))
    n = z3.BitVec('n', 64); Z.assume = sv + [z3.ULT(n, count), count != 0]
    mem = {}; a0, x0 = Z.arr(mem, 'r'), Z.arr(mem, 'x')
    for nm, w in SUB.items():
        def sub(A, m, I, nm=nm, w=w):
            a, k = state(Z, m); g = lambda s, *so: z3.Function(nm + s, *so)
            v = g('.v', AS, z3.BitVecSort(32), z3.BitVecSort(w))(a, k); Z.word(m, 'r', NB)
            m[('r', 'arr')] = g('.a', AS, z3.BitVecSort(32), AS)(a, k); m[('r', NB)] = g('.n', AS, z3.BitVecSort(32), z3.BitVecSort(32))(a, k); return v
        Z.contracts[nm] = sub
    nxt, stay, athead = Z.body(f, h, bl, env, mem, {idx[0]: n})
    must(Z, nxt[idx[0]] == n + 1, 'loop counter')
    if athead:
        must(Z, stay, 'loop condition'); Z.assume = sv; must(Z, z3.Not(z3.substitute(stay, (n, count))), 'loop end'); Z.assume = sv + [z3.ULT(n, count), count != 0]
    else: must(Z, stay == (n + 1 != count), 'loop condition')
    # the single draw from the same state
    m1 = {}; m1[('r', 'arr')] = a0
    v = Z.run('@' + fn(Z, single).name.lstrip('@'), [Ptr('r', 0)], m1) if single not in SUB else Z.contracts[single]([Ptr('r', 0)], m1, None)
    off = n * stride * size; ax = x0
    if isinstance(v, list): raise Unsupported('vector value')
    for i in range(size): ax = z3.Store(ax, off + bv(i, 64), z3.Extract(8 * i + 7, 8 * i, v))
    must(Z, Z.arr(mem, 'x') == ax, 'element'); must(Z, z3.And(state(Z, mem)[1] == state(Z, m1)[1]), 'position'); must(Z, state(Z, mem)[0] == state(Z, m1)[0], 'state')
    sides(Z); only(Z, mem, {'r', 'x'}); done(X, Z)


SUB = {'frandn': 32, 'drandn': 64, 'frande': 32, 'drande': 64}


def rand(X):
    if X.mode == 'native': return rng_native(X)
    X.ob('sfmt_next', lambda: sfmt(X)); X.ob('seed_rng', lambda: seed(X))
    for k, (sz, sg) in INTS.items():
        def post(Z, v, b, sz=sz, sg=sg): must(Z, v == (z3.LShR(b, bv(1, b.size())) if sg else b), 'bits')
        X.ob(k + 'rand', lambda: one(X, k + 'rand', sz, post))
        X.ob(k + 'rand_fill', lambda: fill(X, k + 'rand_fill', sz, k + 'rand'))
    for n in FLTS:
        sz = 4 if n[0] == 'f' else 8
        X.ob(n, lambda: one(X, n, sz, lambda Z, v, b: value(Z, v, b, n[5:])))
        X.ob(n + '_fill', lambda: fill(X, n + '_fill', sz, n))
    for n in ('frande', 'drande'):
        def post(Z, v, b):
            y = Z.neg_of(v)
            if y is None or y.decl().name() not in ('log32', 'log64'): raise Mismatch('not minus a logarithm: %s' % str(v)[:200])
            value(Z, y.arg(0), b, '_c1')
        X.ob(n, lambda: one(X, n, 4 if n[0] == 'f' else 8, post))
    for n in SUB: X.ob(n + '_fill', lambda: fill(X, n + '_fill', SUB[n] // 8, n))


def sfmt(X):
    Z = machine(X, False); Z.arrays = {}; f = fn(Z, 'sfmt_next'); mem = {}; Z.cut = ('r', [])
    Z.run('@' + f.name.lstrip('@'), [Ptr('r', 0)], mem)
    u = lambda k: z3.BitVec('r@%d' % (4 * k), 32)
    cur = [u(k) for k in range(NW)]; W = lambda v: z3.Concat(*[cur[4 * v + j] for j in (3, 2, 1, 0)])
    want = []
    for n in range(NW // 4):
        a, b, c, d = W(n), (n + M) % 88, W((n - 2) % 88), (n - 1) % 88
        sh = lambda v, g: [g(cur[4 * v + j], j) for j in range(4)]
        e = a ^ (a << (8 * L2)) ^ z3.Concat(*sh(b, lambda q, j: z3.LShR(q, bv(R1, 32)) & bv(MASK[j], 32))[::-1]) ^ z3.LShR(c, bv(8 * R2, 128)) ^ z3.Concat(*sh(d, lambda q, j: q << bv(L1, 32))[::-1])
        for j in range(4): want.append((16 * n + 4 * j, z3.Extract(32 * j + 31, 32 * j, e)))
        for j in range(4): cur[4 * n + j] = z3.BitVec('cut@%d' % (16 * n + 4 * j), 32)
    got = dict(Z.cut[1])
    if len(Z.cut[1]) != NW or set(got) != set(range(0, NB, 4)): raise Mismatch('%d words written, %d distinct' % (len(Z.cut[1]), len(got)))
    for k, e in want:          # registers may carry the previous two vectors
        v = k // 16
        must(Z, got[k] == e, 'word %d' % (k // 4), [z3.BitVec('cut@%d' % q, 32) == got[q] for w in (v - 1, v - 2) if w >= 0 for q in range(16 * w, 16 * w + 16, 4)])
    done(X, Z)


def seed(X):
    Z = machine(X, False); Z.arrays = {}; Z.assume = []; mem = {}; sd = z3.BitVec('seed', 32)
    Z.run('@' + fn(Z, 'seed_rng').name.lstrip('@'), [Ptr('r', 0), sd], mem)
    u = [sd]
    for n in range(1, NW): u.append(bv(1812433253, 32) * (u[-1] ^ z3.LShR(u[-1], bv(30, 32))) + bv(n, 32))
    par = bv(0, 32)
    for j in range(4): par = par ^ (u[j] & bv(PARITY[j], 32))
    bit = bv(0, 1)
    for i in range(32): bit = bit ^ z3.Extract(i, i, par)
    uf = [z3.BitVec('u%d' % n, 32) for n in range(NW)]
    for n in range(NW):
        e = u[n] if n else z3.If(bit == 1, u[0], u[0] ^ 1); g = Z.word(mem, 'r', 4 * n)
        if simp(g).eq(simp(e)): continue
        must(Z, g == e, 'word %d' % n)
    must(Z, Z.word(mem, 'r', NB) == bv(NB, 32), 'position')
    for k in mem:
        if k[0] == 'r' and k[1] > NB: must(Z, mem[k] == z3.BitVec('r@%d' % k[1], 32), 'padding')
    done(X, Z)


# ---------------------------------------------------------------- permutations
def swapped(x0, i, j, w, st=None):
    """array of w-byte elements at byte positions i and j exchanged"""
    ld = lambda p: [z3.Select(x0, p + bv(k, 64)) for k in range(w)]
    a, b = ld(i), ld(j); x = x0
    for k in range(w): x = z3.Store(x, i + bv(k, 64), b[k])
    for k in range(w): x = z3.Store(x, j + bv(k, 64), a[k])
    return x


def randperm(X):
    Z = machine(X); f = fn(Z, 'randperm'); P = [p[1] for p in f.params]; n = z3.BitVec('n', 32)
    LL = Z.loops(f)
    if len(LL) != 2: raise Unsupported('%d loops' % len(LL))
    base = list(Z.assume) + [n > 0, n <= 2**29]
    Z.assume = base; mem = {}; env = dict(zip(P, [Ptr('r', 0), Ptr('x', 0), n]))
    # identity
    h, bl = LL[0]; ph = Z.upto(f, h, env, mem); only(Z, mem, set()); i = counter(Z, ph)
    k = z3.BitVec('k', 32); Z.assume = base + [k >= 0, k < n]; m1 = {}; x0 = Z.arr(m1, 'x')
    nxt, stay, athead = Z.body(f, h, bl, env, m1, {i: k})
    must(Z, nxt[i] == k + 1, 'counter'); cond(Z, stay, athead, k, n, base)
    ax = x0
    for b in range(4): ax = z3.Store(ax, z3.SignExt(32, k) * 4 + bv(b, 64), z3.Extract(8 * b + 7, 8 * b, k))
    must(Z, Z.arr(m1, 'x') == ax, 'initial permutation'); only(Z, m1, {'x'})
    # swaps: between the loops nothing happens
    h2, bl2 = LL[1]; Z.assume = base; m2 = {}; env2 = dict(env); env2[i] = n; ex = Z.exits(f, bl)[0]
    Z.force[(f.name, ex[0])] = 1 - ex[1]
    r = Z.go(f, h, '@set', env2, m2, h2); del Z.force[(f.name, ex[0])]
    ph2 = {I.res: Z.phival(I, r[1], env2) for I in f.blocks[h2].phis}; i2 = counter(Z, ph2); only(Z, m2, {'x'} if ex[0] != h else set())
    swap_loop(X, Z, f, h2, bl2, env2, i2, n, base, z3.BitVec('k', 32), 4, lambda q: z3.SignExt(32, q) * 4)
    done(X, Z)


def counter(Z, ph):
    c = [k for k, v in ph.items() if not isinstance(v, Ptr) and bits.is_c(simp(v)) and simp(v).as_long() == 0]
    if len(ph) != 1 or len(c) != 1: raise Unsupported('loop variables %r' % (ph,))
    return c[0]


def cond(Z, stay, athead, k, n, base, last=0):
    """the loop runs for k = 0 .. n-1-last"""
    if athead:
        sv = Z.assume
        Z.assume = base; must(Z, z3.substitute(stay, (k, n - 1 - last)) if False else z3.Implies(z3.And(k >= 0, k < n - last), stay), 'loop condition')
        must(Z, z3.Not(z3.substitute(stay, (k, n - last))), 'loop end'); Z.assume = sv
    else: must(Z, stay == (k + 1 != n - last), 'loop condition')


def swap_loop(X, Z, f, h, bl, env, i, n, base, k, draws, pos, elem=4):
    """an arbitrary iteration: the rejection loop ends with a position j in [k, n), and elements k and j are exchanged"""
    wd = n.size(); inner = Z.loops(f, (bl, h))
    if not inner: raise Unsupported('no rejection loop')
    hi, bi = inner[0]
    rng = [k >= 0, k < n - 1] if wd == 32 else [z3.ULT(k, n - 1)]
    Z.assume = base + rng
    # from the head of the iteration to the rejection loop
    e = dict(env); e[i] = k; mem = {}; x0, a0 = Z.arr(mem, 'x'), Z.arr(mem, 'r')
    ex = [q for q in Z.exits(f, bl)]
    if len(ex) != 1: raise Unsupported('%d exits' % len(ex))
    Z.force[(f.name, ex[0][0])] = ex[0][1]
    r = Z.go(f, h, '@set', e, mem, hi)
    if (f.name, ex[0][0]) in Z.taken:
        st = Z.taken.pop((f.name, ex[0][0])); sv = Z.assume; Z.assume = base
        must(Z, z3.Implies(z3.And(*rng), st), 'loop condition'); must(Z, z3.Not(z3.substitute(st, (k, n - 1))), 'loop end'); Z.assume = sv; seen = True
    else: seen = False
    if Z.decide(z3.And(Z.arr(mem, 'x') == x0), Z.assume) != 'ok': raise Mismatch('elements change before the draw')
    phi = {I.res: Z.phival(I, r[1], e) for I in f.blocks[hi].phis}
    if phi: raise Unsupported('rejection loop carries values')
    # one try
    n1 = N0; mem = {}; x0, a0 = Z.arr(mem, 'x'), Z.arr(mem, 'r'); exi = Z.exits(f, bi)
    if len(exi) != 1: raise Unsupported('rejection loop exits')
    e1 = dict(e); Z.force[(f.name, exi[0][0])] = exi[0][1]; m1 = dict(mem); Z.go(f, hi, '@set', e1, m1, hi)
    again = Z.taken.pop((f.name, exi[0][0])); b, a1, q1 = draw(a0, N0, draws)
    must(Z, z3.And(Z.word(m1, 'r', NB) == q1), 'position'); must(Z, Z.arr(m1, 'r') == a1, 'state'); must(Z, Z.arr(m1, 'x') == x0, 'elements')
    top = 2**(8 * draws) - 1; mm = n - k
    # j of the documented method is k + Q, Q = draw / (MAX / (n-k)); quotients are monotonic, so Q is bounded for n up to 2^29
    w = 8 * draws; Q = z3.BitVec('Q', w); lim = top // (top // 2**29); den = z3.UDiv(bv(top, w), mm)
    def absq(t, memo={}):
        memo = {}

        def go(x):
            i = x.get_id()
            if i in memo: return memo[i]
            r = None
            if x.decl().kind() in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and not bits.is_c(x.arg(1)):
                nm, dn = x.arg(0), x.arg(1)
                if not bits.is_c(nm):
                    g = go(dn) if False else dn
                    isd = z3.simplify(g).eq(z3.simplify(den)) or (g.num_args() == 2 and g.decl().kind() in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and Z.decide(z3.And(g.arg(0) == bv(top, w), g.arg(1) == mm), Z.assume) == 'ok')
                    if isd and Z.decide(nm == b, Z.assume) == 'ok': r = Q
            if r is None: r = x.decl()(*[go(x.arg(q)) for q in range(x.num_args())]) if x.num_args() else x
            memo[i] = (r); return r
        return go(t)
    j = k + Q
    Z.assume = Z.assume + [z3.ULE(Q, bv(lim, w)), z3.ULE(N0, bv(NB, 32))]
    ag = absq(again)
    must(Z, ag == (j >= n if wd == 32 else z3.UGE(j, n)), 'rejection test')
    must(Z, z3.Implies(z3.Not(ag), z3.And(j >= k, j < n) if wd == 32 else z3.And(z3.UGE(j, k), z3.ULT(j, n))), 'position of the other element')
    # the exchange
    Z.force[(f.name, exi[0][0])] = 1 - exi[0][1]; e2 = dict(e); m2 = dict(mem)
    r = Z.go(f, hi, '@set', e2, m2, h); Z.taken.pop((f.name, exi[0][0]), None)
    del Z.force[(f.name, exi[0][0])]; del Z.force[(f.name, ex[0][0])]
    nxt = {I.res: Z.phival(I, r[1], e2) for I in f.blocks[h].phis}
    if not seen: must(Z, Z.taken.pop((f.name, ex[0][0])) == (k + 1 != n - 1), 'loop condition')
    must(Z, nxt[i] == k + 1, 'counter')
    want = swapped(x0, pos(k), pos(j), elem)
    got = absq(Z.arr(m2, 'x')); Z.assume = Z.assume + [z3.Not(ag)]; Z.side = [(w_, absq(c)) for w_, c in Z.side]
    got, want = simp(got), simp(want)
    if not got.eq(want):
        # positions of the elements as variables: equal, or at least a stride (not below the element size) apart
        pa, pb = z3.BitVec('pa', 64), z3.BitVec('pb', 64); ab = [(simp(pos(k)), pa), (simp(pos(j)), pb)]
        if all(x.size() == 64 and not bits.is_c(x) for x, _ in ab): got, want = z3.substitute(got, *ab), z3.substitute(want, *ab)
        must(Z, got == want, 'exchange', [z3.ULT(pa, 2**59), z3.ULT(pb, 2**59), z3.Or(pa == pb, z3.UGE(pa, pb + elem), z3.UGE(pb, pa + elem))])
    sides(Z); only(Z, m2, {'x', 'r'})


def perm(X):
    if X.mode == 'native': X.ob('see draws', lambda: None); return
    X.ob('randperm', lambda: randperm(X))
    for sz in (1, 2, 4, 8, 3, 5): X.ob('shuffle of %d-byte elements' % sz, lambda: shuffle(X, sz))


def shuffle(X, sz):
    Z = machine(X); f = fn(Z, 'shuffle'); P = [p[1] for p in f.params]; n = z3.BitVec('n', 64); lg = {1: 0, 2: 1, 4: 2, 8: 3}.get(sz, 0)
    q = z3.BitVec('q', 64 - lg); st = z3.Concat(q, bv(0, lg)) if lg else q; q = z3.ZeroExt(lg, q); odd = sz not in (1, 2, 4, 8)
    base = list(Z.assume) + [z3.UGE(n, 2), z3.ULE(n, 2**29), z3.UGE(q, sz if odd else 1), z3.ULE(q, 2**29)] + ([z3.URem(q, bv(sz, 64)) != 0] if odd else [])
    Z.assume = base; mem = {}; env = dict(zip(P, [Ptr('r', 0), Ptr('x', 0), bv(sz, 64), st, n]))
    h, bl, ph = Z.first(f, env, mem); e, m = env, mem; only(Z, m, set()); i = counter(Z, ph)
    swap_loop(X, Z, f, h, bl, e, i, n, base, z3.BitVec('k', 64), 8, (lambda p: p * q) if odd else (lambda p: p * q * sz), sz)
    done(X, Z)


# ---------------------------------------------------------------- compiled code against a reference implementation
class Ref:
    def __init__(s, sd):
        u = [sd % 2**32]
        for n in range(1, NW): u.append((1812433253 * (u[-1] ^ (u[-1] >> 30)) + n) % 2**32)
        p = 0
        for j in range(4): p ^= u[j] & PARITY[j]
        if bin(p).count('1') % 2 == 0: u[0] ^= 1
        s.u = u; s.n = NB

    def next(s):
        u = s.u; W = lambda v: sum(u[4 * v + j] << (32 * j) for j in range(4)); Q = 2**128 - 1
        for n in range(88):
            a, c = W(n), W((n - 2) % 88); b, d = (n + M) % 88, (n - 1) % 88
            e = a ^ ((a << (8 * L2)) & Q) ^ (c >> (8 * R2))
            for j in range(4): e ^= (((u[4 * b + j] >> R1) & MASK[j]) ^ ((u[4 * d + j] << L1) & 0xffffffff)) << (32 * j)
            for j in range(4): u[4 * n + j] = (e >> (32 * j)) & 0xffffffff

    def draw(s, size):
        n = (s.n + size - 1) & ~(size - 1)
        if n >= NB: s.next(); n = 0
        s.n = n + size
        return int.from_bytes(struct.pack('<%dI' % NW, *s.u)[n:n + size], 'little')

    def flt(s, name):
        d = name[0] == 'd'; b = s.draw(8 if d else 4); K = 53 if d else 24; w = 64 if d else 32; hi = b >> (w - K)
        return {'': 2 * (b >> (w - K + 1)) + 1, '_c0': hi, '_c1': hi + 1, '_c': hi + (b & 1)}[name[5:]] / 2.**K


STUB = 'extern "C" {' + ' '.join('void %s(void) { abort(); }' % x for x in ('_nanodelay', 'util_malloc_aligned', 'util_free_aligned', 'checkpt_data', 'restore_data', 'register_object', 'unregister_object', '_cxx_illegal_ptr_copy')) + '}\n'


def rng_native(X):
    so = native.build_so([SRC, SRC.replace('rng.cc', 'frandn_table.cc'), SRC.replace('rng.cc', 'drandn_table.cc')], X.cfg, STUB); L = ctypes.CDLL(so)
    rs = random.Random(X.seed); raw = ctypes.create_string_buffer(4096); st = (ctypes.addressof(raw) + 255) & ~127
    ty = {('i', s): t for s, t in ((1, ctypes.c_int8), (2, ctypes.c_int16), (4, ctypes.c_int32), (8, ctypes.c_int64))}
    ut = {1: ctypes.c_uint8, 2: ctypes.c_uint16, 4: ctypes.c_uint32, 8: ctypes.c_uint64}
    def fail(what, got, want, sd):
        X.record['mismatch'] = {'where': what, 'seed': sd, 'got': str(got)[:400], 'expected': str(want)[:400]}
        raise Mismatch('%s (seed %d): got %s, expected %s' % (what, sd, str(got)[:200], str(want)[:200]))

    def seq():
        for sd in [0, 1, -1, 7, 2**31 - 1, -2**31] + [rs.randrange(-2**31, 2**31) for _ in range(10)]:
            L.seed_rng(ctypes.c_void_p(st), ctypes.c_int(sd)); R = Ref(sd)
            if list(struct.unpack('<%dI' % NW, ctypes.string_at(st, NB))) != R.u: fail('seed_rng', 'state', 'reference', sd)
            for _ in range(600):
                k = rs.choice(list(INTS) + FLTS * 2 + ['fill'] * 4 + ['ffill'] * 3 + ['e'])
                if k == 'fill':
                    k = rs.choice(list(INTS)); sz, sg = INTS[k]; n, s_ = rs.randrange(0, 40), rs.randrange(1, 4); T = ut[sz]; a = (T * (n * s_ + 8))(*[5] * (n * s_ + 8))
                    getattr(L, k + 'rand_fill')(ctypes.c_void_p(st), ctypes.byref(a), ctypes.c_size_t(s_), ctypes.c_size_t(n))
                    w = [5] * (n * s_ + 8)
                    for j in range(n): w[j * s_] = R.draw(sz) >> sg
                    if list(a) != w: fail(k + 'rand_fill', list(a), w, sd)
                elif k == 'ffill':
                    k = rs.choice(FLTS); n, s_ = rs.randrange(0, 20), rs.randrange(1, 4); T = ctypes.c_float if k[0] == 'f' else ctypes.c_double; a = (T * (n * s_ + 8))()
                    getattr(L, k + '_fill')(ctypes.c_void_p(st), ctypes.byref(a), ctypes.c_size_t(s_), ctypes.c_size_t(n))
                    w = [0.] * (n * s_ + 8)
                    for j in range(n): w[j * s_] = R.flt(k)
                    if list(a) != w: fail(k + '_fill', list(a), w, sd)
                elif k == 'e':
                    g = L.frande; g.restype = ctypes.c_float; v = g(ctypes.c_void_p(st)); w = -math.log(R.flt('frand_c1'))
                    if abs(v - w) > 1e-5 * (abs(w) + 1e-3): fail('frande', v, w, sd)
                    g = L.drande; g.restype = ctypes.c_double; v = g(ctypes.c_void_p(st)); w = -math.log(R.flt('drand_c1'))
                    if abs(v - w) > 1e-12 * (abs(w) + 1e-3): fail('drande', v, w, sd)
                elif k in INTS:
                    sz, sg = INTS[k]; g = getattr(L, k + 'rand'); g.restype = ut[sz]; v = g(ctypes.c_void_p(st)); w = R.draw(sz) >> sg
                    if v != w: fail(k + 'rand', v, w, sd)
                else:
                    g = getattr(L, k); g.restype = ctypes.c_float if k[0] == 'f' else ctypes.c_double; v = g(ctypes.c_void_p(st)); w = R.flt(k)
                    if v != w: fail(k, v, w, sd)
                if struct.unpack('<I', ctypes.string_at(st + NB, 4))[0] != R.n: fail(k + ' position', struct.unpack('<I', ctypes.string_at(st + NB, 4))[0], R.n, sd)

    def perms():
        for t in range(200):
            sd = rs.randrange(1000); L.seed_rng(ctypes.c_void_p(st), ctypes.c_int(sd)); R = Ref(sd); n = rs.randrange(0, 30)
            a = (ctypes.c_int * (n + 4))(*[99] * (n + 4)); L.randperm(ctypes.c_void_p(st), ctypes.byref(a), n)
            w = list(range(n)) + [99] * 4
            for i in range(n - 1):
                while True:
                    j = i + R.draw(4) // ((2**32 - 1) // (n - i))
                    if j < n: break
                w[i], w[j] = w[j], w[i]
            if list(a) != w: fail('randperm of %d' % n, list(a), w, sd)
            sz = rs.choice([1, 2, 4, 8, 3, 12]); ex = rs.choice([0, sz, 1, 2]); stc = sz + ex; b = bytes(rs.randrange(256) for _ in range(stc * n + 8)); buf = ctypes.create_string_buffer(b, len(b))
            L.shuffle(ctypes.c_void_p(st), buf, ctypes.c_size_t(sz), ctypes.c_size_t(stc), ctypes.c_size_t(n)); w = bytearray(b)
            for i in range(n - 1):
                while True:
                    j = i + R.draw(8) // ((2**64 - 1) // (n - i))
                    if j < n: break
                x, y = w[i * stc:i * stc + sz], w[j * stc:j * stc + sz]; w[i * stc:i * stc + sz] = y; w[j * stc:j * stc + sz] = x
            if buf.raw != bytes(w): fail('shuffle of %d elements of %d bytes every %d' % (n, sz, stc), buf.raw.hex(), bytes(w).hex(), sd)
    X.ob('sequences', seq); X.ob('permutations', perms)


contract('R01', 'draws', SRC, ('ref',), qproof=('ref',), bounded=False, native_dims=[None], Pn=(1,))(rand)
contract('R01', 'permutations', SRC, ('ref',), qproof=('ref',), bounded=False, native=False, native_dims=[None], Pn=(1,))(perm)
