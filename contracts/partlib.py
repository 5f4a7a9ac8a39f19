"""Shared vocabulary of the particle contracts: particle, mover, species and interpolator
layouts, the interpolated fields, the Boris rotation, and per-particle frames over 1-D arrays."""
from fractions import Fraction as Fr
from irv import terms as T
from irv.terms import C, P, F0, F1, TRUE, Ptr, ZERO
from irv.layout import layout
from irv.ctx import Mismatch
from irv.host import Host
from irv.ir import FLOAT, DOUBLE, PTR, INT, Unsupported
from irv.engine import SZ, Spec
from fieldlib import allsum

SA = 'src/species_advance/'
SP = SA + 'standard/pipeline/'
PF = 'dx dy dz i ux uy uz w'.split()
IA = 'ex dexdy dexdz d2exdydz ey deydz deydx d2eydzdx ez dezdx dezdy d2ezdxdy cbx dcbxdx cby dcbydy cbz dcbzdz'.split()
SPF = 'name q m np max_np p nm max_nm pm last_sorted sort_interval sort_out_of_place partition g id next pb_diag_write pb_diag'.split()
SPF = 'q m np max_np p nm max_nm pm partition g id'.split()
HS = ('src/grid/grid.h', 'src/sf_interface/sf_interface.h', 'src/species_advance/species_advance.h')
NPS = [(n, c, 0) for n, c in ((37, 5), (16, 3), (3, 4), (0, 1), (70, 9))]     # (particles, cells, -)


def slay(X, s, fs, hdr=HS, pre=''): return layout(X.cfg, hdr, {s: fs}, pre=pre)[s]


def cells(X): return X.ny if X.dims is not None else T.sym('ncell', 1)


def particles(X, name='p', n=None, extra=0):
    """particle array; the particles of the precondition are inside their cell of the local mesh"""
    X.PL = slay(X, 'particle_t', PF)
    X.np = (X.nx if X.dims is not None else T.sym('npart', 0)) if n is None else n
    X.E.region(name, stride=X.PL['#'], kinds={X.PL['i']: 'i32'})
    if X.dims is not None: X.sizes[name] = X.PL['#'] * (X.i(X.np) + extra) or 32
    X.opts = dict(X.opts); g = dict(X.opts.get('gen', {}))
    g[name] = lambda rng, e, o, k: rng.randrange(max(1, X.i(X.ny))) if k == 'i32' else rng.uniform(0.2, 1.5) if o == X.PL['w'] else None
    X.opts['gen'] = g
    return Ptr(name, ZERO)


def interp(X, name='f0'):
    X.IL = slay(X, 'interpolator_t', IA)
    X.E.region(name, stride=X.IL['#'])
    if X.dims is not None: X.sizes[name] = X.IL['#'] * X.i(X.ny)
    return Ptr(name, ZERO)


def pv(X, k, c, name='p', ver=''):
    o = k * X.PL['#'] + X.PL[c]
    return T.imem(name, ver, o, 4) if c == 'i' else T.fmem(name, ver, o, 'f32')


def iv(X, i, c, name='f0'): return T.fmem(name, '', i * X.IL['#'] + X.IL[c], 'f32')


def fields_at(X, k, name='p', ver=''):
    """E and cB interpolated to particle k"""
    d = {c: pv(X, k, 'd' + c, name, ver) for c in 'xyz'}; i = pv(X, k, 'i', name, ver)
    v = lambda n: iv(X, i, n)
    E = {}; B = {}
    for a, b, c in (('x', 'y', 'z'), ('y', 'z', 'x'), ('z', 'x', 'y')):
        E[a] = v('e' + a) + d[b] * v('de%sd%s' % (a, b)) + d[c] * v('de%sd%s' % (a, c)) + d[b] * d[c] * v('d2e%sd%sd%s' % (a, b, c))
        B[a] = v('cb' + a) + d[a] * v('dcb%sd%s' % (a, a))
    return E, B


def cross(u, v): return {a: u[b] * v[c] - u[c] * v[b] for a, b, c in (('x', 'y', 'z'), ('y', 'z', 'x'), ('z', 'x', 'y'))}


def dot(u, v): return u['x'] * v['x'] + u['y'] * v['y'] + u['z'] * v['z']


def lorentz(u): return T.fsqrt(F1 + dot(u, u))


def boris(u, B, half):
    """Boris rotation by the field B; `half` is q dt/2mc (full step) or q dt/4mc (half step).
    the tangent of half the rotation angle is its fifth-order series, as documented"""
    t0 = half / lorentz(u)
    b2 = dot(B, B); s = t0 * t0 * b2
    t = t0 * (F1 + s * (T.fc(Fr(1, 3)) + s * T.fc(Fr(2, 15))))
    w = cross(u, B); up = {a: u[a] + t * w[a] for a in 'xyz'}
    w = cross(up, B); k = (t + t) / (F1 + b2 * t * t)
    return {a: u[a] + k * w[a] for a in 'xyz'}


def per_particle(X, o, n, words, want, tag, name='p', lanes=4, stride=None, lay=None):
    """each word of each element of a 1-D array: want(state, word, index) -> value or None (unchanged)"""
    lay = lay or X.PL; stride = lay['#']
    if X.mode == 'proof':
        ks = []
        for j in range(lanes):
            K = T.sym('px', 0) * lanes + j; x = o.copy(); x.assume(T.blt(K, n)); ks.append((K, x))
    else: ks = [(C(k), o) for k in range(X.i(n))]
    reg = X.E.regions[name]
    for c in words:
        def one(c=c):
            m = 0; off = lay[c]; sz = SZ[reg.kinds.get(off, reg.dflt)]
            for k, x in ks:
                if X.mode == 'proof' and not X.maywrite(x, name, off, sz, stride):
                    x = x.copy(); x.mem[name] = ()
                m += X.probe(x, name, k * stride + off, sz, lambda st, k=k: want(st, c, k), '%s[%r].%s' % (name, k, c))
            return '%d cases' % m
        X.ob('%s/%s' % (tag, c), one)


def species(X, p, g, extra=None, name='sp'):
    L = slay(X, 'species_t', SPF); X.SL = L
    X.q, X.m = T.fsym('q.sp'), T.fsym('m.sp')
    v = {L['q']: X.q, L['m']: X.m, L['np']: T.as_p(X.np), L['p']: p, L['g']: g}
    v.update({L[k]: w for k, w in (extra or {}).items()})
    kinds = {L[k]: 'ptr' for k in ('p', 'pm', 'partition', 'g')}; kinds.update({L[k]: 'i32' for k in ('np', 'max_np', 'nm', 'max_nm', 'id')})
    return X.struct(name, v, L['#'], kinds=kinds)


def rows(lo, n, w, body):
    """sum of body(row) over n rows lo, lo+w, ... (ghost sum; same normal form as the loop rule's)"""
    from irv.loops import SUMI
    return T._F('sum', 'row', T.as_p(lo), T.as_p(n), w, 0, body)


def SUMROW():
    from irv.loops import SUMI
    return T.A(SUMI)


def width(fn):
    import re
    m = re.search(r'_v(\d+)$', fn); return int(m.group(1)) if m else 1


def total(ts):
    t = F0
    for x in ts: t = t + x
    return t


def gk(X, n): return X.E.regions['g'].known[X.G[n]]


# ---- accumulations: the ledger of additive contributions
def group(X, items, what):
    d = {}
    for off, v in items:
        if v is F0: continue
        d.setdefault(off.id, [off, F0])
        d[off.id][1] = d[off.id][1] + v
    return d


def match(X, o, got, want, what):
    """the contributions made equal the contributions required, address by address"""
    g, w = group(X, got, what), group(X, want, what)
    for k in list(g):
        if k in w: continue
        if all(same_zero(X, o, g[k][1]) for _ in (0,)): g.pop(k)
    if set(g) - set(w):
        off = g[(set(g) - set(w)).pop()]
        raise Mismatch('%s: contribution to %r that the contract does not have: %s' % (what, off[0], T.fstr(off[1], 6)[:300]))
    n = 0
    for k, (off, v) in w.items():
        have = g[k][1] if k in g else F0
        n += 1
        X.equal(o, have, v, '%s: contribution to %r' % (what, off))
    return '%d addresses' % n


def same_zero(X, o, v):
    try: X.equal(o, v, F0, '')
    except Mismatch: return False
    return True


def ledger(X, o, region, spec, n, inwin, tag, at=None):
    """everything accumulated into `region` by the items of this rank's window is exactly the sum of spec(item)"""
    E = X.E
    if X.mode == 'native':
        acc = {}
        for k in range(X.i(n)):
            for off, v in spec(C(k)): acc.setdefault(X.iv(off), []).append(v)
        def f():
            for b in range(0, X.sizes[region], 4):
                w = T.fmem(region, '', C(b), 'f32') if b in acc else None
                for v in acc.get(b, ()): w = w + v
                X.probe(o, region, C(b), 4, w, '%s+%d' % (region, b))
            return '%d words' % (X.sizes[region] // 4)
        X.ob(tag + '/accumulated', f); return
    log = o.log(region)
    from irv.engine import Store, Fam

    def over():
        e = [e for e in o.ev if e[0] == 'overwrite' and e[1] == region]
        if e: raise Mismatch('%s+%r is overwritten, not accumulated to' % (region, e[0][2]))
    X.ob(tag + '/only accumulated to', over)
    if X.mode == 'bounded':
        def f():
            if any(not isinstance(e, Store) for e in log): raise Unsupported('accumulation log')
            return match(X, o, [(e.off, e.val) for e in log], [c for k in range(X.i(n)) for c in spec(C(k))], tag)
        X.ob(tag + '/accumulated', f); return

    def f():
        lo, hi = (inwin.lo if at is None else at), inwin.hi
        fams = [e for e in log]
        if any(not isinstance(e, Fam) for e in fams):
            raise Unsupported('accumulation log of %r' % ([type(e).__name__ for e in fams][:4],))
        if not fams: raise Mismatch('nothing is accumulated')
        kb = fams[0].bound[-1]; got = []
        for e in fams:
            if len(e.bound) != 1 or e.bound[0] is not kb: raise Unsupported('accumulation by several loops')
            gs = [q for q in e.guards if q not in fams[0].guards[:2]]
            if gs: raise Unsupported('conditional accumulation %r' % (gs,))
            got += [(x.off, x.val) for v in e.entries.values() for x in v]
        K = fams[0].loop.K; x = o.copy(); x.assume(T.ble(0, T.A(kb))); x.assume(T.blt(T.A(kb), K))
        for w in (1, 2, 4, 8, 16):
            if E.decide(o, T.beq(hi - lo, K * w)) is True: break
        else: raise Mismatch('the loop runs %r times for items %r..%r' % (K, lo, hi))
        want = [c for j in range(w) for c in spec(lo + T.A(kb) * w + j)]
        return match(X, x, got, want, tag)
    X.ob(tag + '/accumulated', f)
QALL = tuple(__import__('irv.build', fromlist=['x']).CONFIGS)
