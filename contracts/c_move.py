"""Moving one particle through its cells (P02): per-segment contract of move_p.

The segment loop is verified for an arbitrary iteration: whatever position, displacement, momentum
and cell the particle has when a segment starts, the segment's fraction, current, end point and the
outcome (finished, reflected, entered the neighbour, stopped at a boundary) are those of the
definition, and only this particle, this mover and the accumulator of its cell are touched."""
from irv.reg import contract
from partlib import *
from irv.engine import Store, Fam, Havoc, bits2float
from irv.ctx import Undecided
from irv import solver as S
from irv.terms import FALSE
from irv.engine import Split
from c_advance import quadrants, MF

MP = SA + 'standard/move_p.cc'
GR = ('src/grid/grid.h',)
COMP = ['dx', 'dy', 'dz', 'i', 'ux', 'uy', 'uz', 'w']
STUB = '''
#include "src/species_advance/species_advance.h"
extern "C" int move_p(particle_t *, particle_mover_t *, accumulator_t *, const grid_t *, const float);
extern "C" void irv_moves(particle_t *p0, particle_mover_t *m, accumulator_t *a0, const grid_t *g, const float qsp, int n, int *ret) {
  for (int k=0;k<n;k++) ret[k] = move_p(p0, m+k, a0, g, qsp);
}
'''


def segment(need, d, m, eps):
    """(axis or 3, fraction of the remaining displacement) of the straight segment from d with half displacement m:
    up to the first face of the cell the track meets, or the whole of it"""
    cur = F1; ax = 3; sg = {}
    for n, a in enumerate('xyz'):
        if need(T.bflt(F0, m[a])): sg[a] = F1
        elif need(T.bflt(m[a], F0)): sg[a] = T.fc(-1)
        else: sg[a] = None; continue
        den = m[a] + m[a]
        if eps is not None: den = den + sg[a] * eps
        t = (sg[a] - d[a]) / den
        if need(T.bflt(t, cur)): cur = t; ax = n
    return ax, cur, sg


def outcome(need, S0, q, nb, rangel, rangeh, reflect, eps, toi=lambda v: v):
    """the state after one segment: ('end' | 'stop' | 'on', new state, deposits)"""
    d = {a: S0['d' + a] for a in 'xyz'}; m = {a: S0['m' + a] for a in 'xyz'}
    ax, f, sg = segment(need, d, m, eps)
    s = {a: f * m[a] for a in 'xyz'}; mid = {a: d[a] + s[a] for a in 'xyz'}
    dep = quadrants(q, mid, s)
    N = dict(S0)
    for a in 'xyz': N['d' + a] = mid[a] + s[a]; N['m' + a] = m[a] - s[a]
    if ax == 3: return 'end', N, dep
    a = 'xyz'[ax]; N['d' + a] = sg[a]; face = ax + (3 if sg[a] is F1 else 0)
    to = nb(S0['i'] * 6 + face)
    if need(T.beq(to, reflect)):
        N['u' + a] = T.fneg(S0['u' + a]); N['m' + a] = T.fneg(N['m' + a]); return 'on', N, dep
    if need(T.blt(to, rangel)) or need(T.blt(rangeh, to)):
        N['i'] = S0['i'] * 8 + face; return 'stop', N, dep
    N['i'] = to - rangel; N['d' + a] = T.fneg(sg[a])
    return 'on', N, dep


def move(X):
    nat = X.mode == 'native'; E = X.E
    X.np = C(2 * X.i(X.nx)) if nat else None
    p = particles(X, n=X.np if nat else T.sym('npart', 1)); g = X.grid()
    X.ML = slay(X, 'particle_mover_t', MF); X.AL = slay(X, 'accumulator_t', ['jx', 'jy', 'jz'])
    R = C(slay(X, 'grid_t', ['=reflect_particles'], GR)['=reflect_particles'])
    G = E.regions['g']; G.known.update({X.G['neighbor']: Ptr('nb', ZERO)})
    E.region('nb', stride=8, dflt='i64', kinds={0: 'i64'}); E.region('a0', stride=X.AL['#'], additive=not nat)
    qsp = T.fsym('q.sp')
    tiny = None
    if nat: return native(X, p, g, qsp, R)
    E.region('pm', kinds={X.ML['i']: 'i32'})
    v4 = X.cfg != 'ref'
    eps = bits2float(34086122, 32) if v4 else None      # 1e-37f
    k = T.imem('pm', '', C(X.ML['i']), 4)
    x0 = X.st.copy(); x0.assume(T.ble(0, k))
    st0 = pv(X, k, 'i'); x0.assume(T.ble(0, st0))
    rl, rh = T.imem('g', '', C(X.G['rangel']), 8), T.imem('g', '', C(X.G['rangeh']), 8)
    loops = []
    E.iter_cb = lambda E, lp: loops.append(lp)
    outs = X.run('move_p', [p, Ptr('pm', ZERO), Ptr('a0', ZERO), g, qsp], x0)
    if len(loops) != 1: raise Unsupported('%d segment loops' % len(loops))
    lp = loops[0]; X.okver.add(lp.ver)

    def where(c): return ('pm', C(X.ML['disp' + c[1]])) if c[0] == 'm' else ('p', k * X.PL['#'] + X.PL[c])
    ALL = COMP + ['mx', 'my', 'mz']

    def mem(x, c): r, o = where(c); return E.lookup(x, r, o, 4)
    ent = {c: mem(X.st, c) for c in ALL}
    head = lp.pre.copy()
    for b in lp.latch + lp.exits:
        for r in ('p', 'pm', 'a0'):
            h_ = trim(b, r)
            if any(isinstance(e, Havoc) and e.ver == lp.ver for e in h_): head.mem[r] = h_
    # where the loop keeps each component: the first loop variable (lane) that starts with its value, else memory
    loc = {}
    for c in ALL:
        for n in lp.names:
            v = lp.entry[n]
            if isinstance(v, list):
                j = next((j for j, y in enumerate(v) if T.same(lane(y, c), ent[c])), None)
                if j is not None: loc[c] = (n, j); break
            elif T.same(lane(v, c), ent[c]): loc[c] = (n, None); break

    def at(vals, c):
        n, j = loc[c]; v = vals[n]
        return lane(v if j is None else v[j], c)
    hmem = {c: mem(head, c) for c in ALL}
    S0 = {c: at(lp.place, c) if c in loc else hmem[c] for c in ALL}
    used = set()

    def minv():
        for c in ALL: X.equal(lp.pre, mem(lp.pre, c), ent[c], 'p.%s when the first segment starts' % c)
    X.ob('start of the path', minv)
    q = qsp * pv(X, k, 'w')
    nb = lambda o: T.imem('nb', '', o * 8, 8)

    def spec(x):
        return outcome(lambda b: E.need(x, b), S0, q, nb, rl, rh, R, eps)

    def inmem(x, c, want, what):
        got = mem(x, c)
        if T.same(got, hmem[c]) and c in loc: used.add(c); got = S0[c]
        X.equal(x, got, want, what)

    def pre(x):
        if v4:      # displacement components are not exactly zero (zero ones: replay only)
            for a in 'xyz': x.assume(T.bnot(T.bfeq(S0['m' + a], F0)))
        x.assume(T.ble(0, S0['i'])); return x

    def both(kind, b, val):
        """outcome, final values and currents of one path through the segment"""
        n = [0]

        def one(x):
            r = spec(x)
            k2, N, dep = r
            if k2 != kind: raise Mismatch('the segment should be %r, the code goes %r' % (k2, kind))
            val(x, N)
            n[0] += 1
        c = X.cases(pre(b.copy()), one)
        return '%d cases' % c

    def currents(b):
        lg = b.log('a0')[len(trim(b, 'a0')):]
        if any(e[0] == 'overwrite' for e in b.ev): raise Mismatch('an accumulator is overwritten')
        if any(not isinstance(e, Store) for e in lg): raise Unsupported('accumulator log')

        def one(x):
            r = spec(x)
            _, N, dep = r; left = list(lg); cell = S0['i'] * X.AL['#']
            for comp, n, v in dep:
                off = cell + X.AL[comp] + 4 * n
                es = [e for e in left if T.same(e.off, off) or E.decide(x, T.beq(e.off, off)) is True]; left = [e for e in left if e not in es]
                s = F0
                for e in es: s = s + e.val
                X.equal(x, s, v, 'current %s[%d]' % (comp, n))
            for e in left: X.equal(x, e.val, F0, 'contribution to %r' % (e.off,))
        return '%d cases' % X.cases(pre(b.copy()), one)

    def frame(b):
        for r, base, size in (('p', k * X.PL['#'], X.PL['#']), ('pm', ZERO, X.ML['#'])):
            for e in b.log(r)[len(trim(b, r)):]:
                if not isinstance(e, Store): raise Unsupported('log of ' + r)
                d = (e.off - base).const()
                if d is None or d < 0 or d + e.size > size: raise Mismatch('writes %s at %r' % (r, e.off))
        for r in b.mem:
            if r[0] not in '%@' and r not in ('p', 'pm', 'a0') and len(b.log(r)): raise Mismatch('writes %s' % r)

    nl = 0
    for b, nx in zip(lp.latch, lp.next):
        tag = 'segment/goes on[%d]' % nl; nl += 1

        def val(x, N):
            for c in ALL:
                if c in loc: X.equal(x, at(nx, c), N[c], c)
                else: X.equal(x, mem(x, c), N[c], c)
        X.ob(tag + ' state', lambda: both('on', b, val))
        X.ob(tag + ' currents', lambda: currents(b))
        X.ob(tag + ' frame', lambda: frame(b))
    ne = 0
    for o, r in outs:
        tag = 'segment/last[%d]' % ne; ne += 1
        rc = r.const() if isinstance(r, P) else None

        def val(x, N):
            for c in ALL:
                if rc == 0 and c[0] == 'm': continue          # the mover is no longer in use
                inmem(x, c, N[c], c)
            X.equal(x, E.lookup(x, 'pm', C(X.ML['i']), 4), k, 'mover.i')
        if rc not in (0, 1): X.ob(tag + ' result', lambda: X._und('returns %r' % (r,))); continue
        X.ob(tag + ' state', lambda: both('end' if rc == 0 else 'stop', o, val))
        X.ob(tag + ' currents', lambda: currents(o))
        X.ob(tag + ' frame', lambda: frame(o))
    n2 = 0
    for b, nx in zip(lp.latch, lp.next):
        def keep():
            def one(x):
                r = spec(x)
                for c in used: inmem(x, c, r[1][c], 'stored ' + c)
            return '%d cases' % X.cases(pre(b.copy()), one)
        X.ob('segment/memory agrees with the carried state[%d]' % n2, keep); n2 += 1
    X.ob('segment/outcomes reached', lambda: None if lp.latch and {(r.const() if isinstance(r, P) else None) for o, r in outs} == {0, 1} else X._vac())


def lane(v, c):
    if c == 'i': return v if isinstance(v, P) else None
    return v.f if isinstance(v, T.Bits) else v


def trim(b, r):
    lg = b.log(r); n = max([i for i, e in enumerate(lg) if isinstance(e, Havoc)] or [-1])
    return lg[:n + 1]


def near(X, o, r, off, want, what):
    if isinstance(want, P): X.probe(o, r, C(off), 4, want, what); return
    g = X.E.lookup(o, r, C(off), 4); w = X.ev(want)[0]
    if abs(float(g.a[0]) - w) > 3e-5:
        X.record['mismatch'] = {'where': what, 'got': float(g.a[0]), 'expected': w, 'dims': str(X.dims)}; raise Mismatch('%s: got %.9g, expected %.9g' % (what, g.a[0], w))


def native(X, p, g, qsp, R):
    """every particle is moved by the compiled routine and by the definition"""
    E = X.E; ny = X.i(X.ny); N = X.i(X.np); nx = X.i(X.nx)
    M = C(N); cells_ = ny
    E.region('pm', stride=X.ML['#'], kinds={X.ML['i']: 'i32'})
    E.region('ret', stride=4, dflt='i32', kinds={0: 'i32'})
    RL = 1000 + ny
    E.regions['g'].known.update({X.G['rangel']: C(RL), X.G['rangeh']: C(RL + ny - 1)})
    X.sizes.update(pm=X.ML['#'] * N, a0=X.AL['#'] * ny, nb=8 * 6 * ny, ret=4 * N)
    gen = X.opts['gen']

    def gnb(rng, e, o, kd):
        z = rng.random()
        return RL + rng.randrange(ny) if z < .7 else R.const() if z < .85 else RL - 1 - rng.randrange(3) if z < .9 else RL + ny + rng.randrange(3) if z < .95 else -2

    def gpm(rng, e, o, kd):
        if kd == 'i32': return (e // X.ML['#'] * 7 + 3) % N if N % 7 else e // X.ML['#']
        z = rng.random()
        return 0. if z < .08 else rng.uniform(-.2, .2) if z < .5 else rng.uniform(-1.7, 1.7)
    gen.update(nb=gnb, pm=gpm)
    X.opts['stub'] = STUB
    X.run('irv_moves', [p, Ptr('pm', ZERO), Ptr('a0', ZERO), g, qsp, C(N), Ptr('ret', ZERO)])
    o = X.st; acc = {}; exp = []
    rd = lambda v: X.truth(v)
    nbv = lambda off: C(X.iv(T.imem('nb', '', off * 8, 8)))
    for j in range(N):
        k = C(X.iv(T.imem('pm', '', C(j * X.ML['#'] + X.ML['i']), 4)))
        S0 = {c: pv(X, k, c) for c in COMP}; S0['i'] = C(X.iv(S0['i']))
        for a in 'xyz': S0['m' + a] = T.fmem('pm', '', C(j * X.ML['#'] + X.ML['disp' + a]), 'f32')
        q = qsp * S0['w']
        for it in range(200):
            kind, N_, dep = outcome(rd, S0, q, nbv, C(RL), C(RL + ny - 1), R, None)
            for comp, n, v in dep: acc.setdefault(S0['i'].const() * X.AL['#'] + X.AL[comp] + 4 * n, []).append(v)
            S0 = N_
            for c in S0:
                if c != 'i' and c[0] in 'dm': S0[c] = T.fc(Fr(X.ev(S0[c])[0]))       # keep terms small
            if kind != 'on': break
        exp.append((k.const(), kind, S0))
    # a cell whose exact crossing order is decided by rounding is outside what the replay can judge: none of the generated ones is
    def state():
        for j, (k, kind, S1) in enumerate(exp):
            X.probe(o, 'ret', C(4 * j), 4, C(0 if kind == 'end' else 1), 'result of mover %d' % j)
            for c in COMP: near(X, o, 'p', k * X.PL['#'] + X.PL[c], S1[c], 'p[%d].%s' % (k, c))
            if kind == 'stop':
                for a in 'xyz': near(X, o, 'pm', j * X.ML['#'] + X.ML['disp' + a], S1['m' + a], 'mover[%d].disp%s' % (j, a))
            X.probe(o, 'pm', C(j * X.ML['#'] + X.ML['i']), 4, C(k), 'mover[%d].i' % j)
    X.ob('move_p/state', state)

    def cur():
        for b in range(0, X.sizes['a0'], 4):
            v = T.fmem('a0', '', C(b), 'f32')
            for x in acc.get(b, ()): v = v + x
            X.probe(o, 'a0', C(b), 4, v, 'accumulator+%d' % b)
    X.ob('move_p/currents', cur)
    X.untouched(o, {'p', 'a0', 'pm', 'ret'}, 'move_p')


contract('P02', 'move_p', MP, ('ref', 'v4sse', 'v4port', 'v4avx2', 'v8avx2', 'v16'), dims=[(1, 1, 1)], Pn=(1,), bounded=False, qproof=QALL, native_dims=[(40, 6, 0), (200, 3, 0), (500, 30, 0)])(move)
