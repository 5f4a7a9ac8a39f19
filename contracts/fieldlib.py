"""Shared vocabulary of the field contracts."""
from irv import terms as T
from irv.terms import C, P, F0, F1, TRUE, Ptr, ZERO
from irv.layout import layout
from irv.ctx import Mismatch
from irv.ir import FLOAT, PTR, INT

PIPE = 'src/field_advance/standard/pipeline/'
MCF = 'decayx drivex decayy drivey decayz drivez rmux rmuy rmuz nonconductive epsx epsy epsz'.split()
DIMS = [(5, 4, 3), (1, 6, 3), (17, 1, 2)]
EDIR = {'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1)}


def sfa(X, damp=None):
    """sfa_params_t and its material coefficient table"""
    lay = layout(X.cfg, ('src/field_advance/standard/sfa_private.h',), {'material_coefficient_t': MCF, 'sfa_params_t': ['mc', 'n_mc', 'damp']}, pre='#define IN_sfa\n')
    X.MC = lay['material_coefficient_t']; sp = lay['sfa_params_t']
    X.array('mc', X.MC['#'], n=2)
    X.damp = T.fsym('p.damp')
    p = X.struct('sfap', {sp['mc']: Ptr('mc', ZERO), sp['n_mc']: C(2), sp['damp']: X.damp}, sp['#'])
    X.sfapL = sp
    return p


def fa_struct(X, f, g, p=None):
    lay = layout(X.cfg, ('src/field_advance/field_advance.h',), {'field_array_t': ['f', 'g', 'params', 'kernel']})['field_array_t']
    v = {lay['f']: f, lay['g']: g}
    if p is not None: v[lay['params']] = p
    return X.struct('fa', v, lay['#'])


def mat(X, st, idname, p, field):
    """coefficient `field` of the material whose id is stored in field `idname` of voxel p"""
    idv = T.imem('f', '', X.vox(*p) * X.FL['#'] + X.FL[idname], 2)
    return T.fmem('mc', '', idv * X.MC['#'] + X.MC[field], 'f32')


def mat0(X, field): return T.fmem('mc', '', C(X.MC[field]), 'f32')


def gk(X, n): return X.E.regions['g'].known[X.G[n]]


def thin(X, st, ax):
    """True when the mesh has more than one cell along ax"""
    n = {'x': X.nx, 'y': X.ny, 'z': X.nz}[ax]
    return X.E.need(st, T.bgt(n, 1))


def box(X, st, p, lo, hi):
    """lo <= p <= n+hi-offset componentwise; hi are offsets relative to (nx,ny,nz)"""
    dom = T.band(*[T.band(T.ble(l, q), T.ble(q, m + h)) for q, l, m, h in zip(p, lo, (X.nx, X.ny, X.nz), hi)])
    return X.E.need(st, dom)


def add(p, d, s=1): return tuple(q + s * e for q, e in zip(p, d))


NEXT = {'x': ('y', 'z'), 'y': ('z', 'x'), 'z': ('x', 'y')}


def radix(X, st, p, lo, n):
    """rank of p in the box lo..lo+n-1; assumes (lemma: mixed radix) 0 <= rank < product when p is in the box"""
    k = (p[0] - lo) + n[0] * ((p[1] - lo) + n[1] * (p[2] - lo))
    if X.mode == 'proof': st.assume(T.ble(0, k)); st.assume(T.blt(k, n[0] * n[1] * n[2]))
    return k


def exchange(X, what, ghost, extra=(), fields=('f', 'g')):
    """contracts of a split ghost exchange begin/local/end: reads the field at begin; the ghost
    entities get their new values once both local and end have been called.
    ghost(comp, p) -> condition that (comp, p) is a ghost entity, or None"""
    from irv.host import effect
    E = X.E

    def name(c, p): return T.fmem('ghost', '', X.vox(*p) * X.FL['#'] + X.FL[c], 'f32')

    def done(st):
        n = [e[1] for e in st.ev if e[0] == 'call']
        if 'local' in n and 'end' in n:
            if 'begin' not in n or n.index('begin') > n.index('end'): raise Mismatch('ghost exchange ended before it began')

            def spec(st, comp, p, old):
                c = ghost(comp, p)
                if c is None or not E.need(st, c): return None
                return name(comp, p)
            effect(X, st, 'f', X.FL, spec, [c for c in X.FL if c != '#' and ghost(c, (C(0), C(0), C(0))) is not None])

    def mk(k, fin):
        def h(E, st, a, I):
            st.event('call', k, tuple(a), dict(st.mem))
            if fin: done(st)
        return h
    E.contracts['begin_remote_ghost_' + what] = mk('begin', 0)
    E.contracts['local_ghost_' + what] = mk('local', 1)
    E.contracts['end_remote_ghost_' + what] = mk('end', 1)

    def after(comp, p, st):
        """value of an entity once the ghosts are valid"""
        c = ghost(comp, p) if X.mode != 'native' else None
        if c is not None and E.need(st, c): return name(comp, p)
        return X.fld(comp, *p)
    return after


def stubs(*names): return ''.join('extern "C" void %s(void *, void *) {}\n' % n for n in names)


def ghost_stubs(what): return stubs('begin_remote_ghost_' + what, 'local_ghost_' + what, 'end_remote_ghost_' + what)


def protocol(X, o, f, g, tag, last):
    """begin, local, end and the closing adjustment are each called once, on the field and grid of the array"""
    if X.mode == 'native': return
    from irv.host import calls, nothing_after
    ev = [e[1] for e in o.ev if e[0] == 'call']
    X.ob(tag + '/exchange protocol', lambda: sorted(ev) == sorted((['begin', 'local', 'end'] if 'begin' in ev else []) + [last] if last else ev) or Mismatch_(ev))
    X.ob(tag + '/callees get the same field and grid', lambda: all(e[2] == (f, g) for e in o.ev if e[0] == 'call'))
    if last:
        for e in calls(o, last): nothing_after(X, o, e, ['f'], tag + '/nothing after the boundary adjustment')


def Mismatch_(x): raise Mismatch('calls %r' % (x,))


def outside(X, p, axes):
    """p lies on a ghost plane (0 or n+1) of one of the axes"""
    c = []
    for d, q, n in zip('xyz', p, (X.nx, X.ny, X.nz)):
        if d in axes: c.append(T.bor(T.beq(q, C(0)), T.beq(q, n + 1)))
    return T.bor(*c)


def allsum(X):
    """mp_allsum_d by contract: every result is the global sum of the corresponding local value"""
    from irv.ir import INT
    from irv.ir import DOUBLE as DBL
    if X.mode == 'native':
        X.opts = dict(X.opts)
        X.opts['stub'] = X.opts.get('stub', '') + 'extern "C" void mp_allsum_d(double *l, double *g, int n) { for(int i=0;i<n;i++) g[i] = 3*l[i] + 0.125*(i+1); }\n'
        return

    def h(E, st, a, I):
        src, dst, n = a
        vals = [E.tof(E.load(st, Ptr(src.r, src.o + 8 * i), DBL)) for i in range(n.const())]
        for i, v in enumerate(vals): E.store(st, Ptr(dst.r, dst.o + 8 * i), T.ffn('allsum', v, T.fc(i)), DBL)
        st.event('call', 'allsum', n.const())
    X.E.contracts['mp_allsum_d'] = h


def wsum(ts):
    t = F0
    for a in ts: t = t + a
    return t


def allcells(X, lo, hi):
    n = [X.i(q) for q in (X.nx, X.ny, X.nz)]
    return [(C(x), C(y), C(z)) for z in range(lo, n[2] + hi[2] + 1) for y in range(lo, n[1] + hi[1] + 1) for x in range(lo, n[0] + hi[0] + 1)]
