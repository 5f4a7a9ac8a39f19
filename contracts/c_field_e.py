"""Electric field advance (Ampere's law), general and one-material, and the curl-only initialisation."""
from irv.reg import contract
from irv.host import Host, effect, snap, calls, nothing_after
from fieldlib import *

CF = ('ref', 'v4sse', 'v8avx2', 'v8omp', 'v16')
HD = [(4, 3, 3), (1, 4, 2), (3, 1, 1)]


class Law:
    """kind: (vacuum, curl only)"""
    def __init__(s, X, base):
        s.X = X; s.vac = base.startswith('vacuum'); s.curl = 'curl' in base

    def tca(s, st, ax, p, f):
        X = s.X; b, c = NEXT[ax]        # tca_a = p_b (H_c - H_c[-b]) - p_c (H_b - H_b[-c]) - damp tca_a
        one = F1 if s.curl else F1 + X.damp

        def rate(d): return one * gk(X, 'cvac') * gk(X, 'dt') * gk(X, 'rd' + d) if thin(X, st, d) else F0

        def H(d, q):
            m = mat0(X, 'rmu' + d) if s.vac else mat(X, st, 'fmat' + d, q, 'rmu' + d)
            return f('cb' + d, *q) * m
        r = rate(b) * (H(c, p) - H(c, add(p, EDIR[b], -1))) - rate(c) * (H(b, p) - H(b, add(p, EDIR[c], -1)))
        return r if s.curl else r - X.damp * f('tca' + ax, *p)

    def e(s, st, ax, p, f):
        X = s.X
        de = mat0(X, 'decay' + ax) if s.vac else mat(X, st, 'emat' + ax, p, 'decay' + ax)
        dr = mat0(X, 'drive' + ax) if s.vac else mat(X, st, 'emat' + ax, p, 'drive' + ax)
        return de * f('e' + ax, *p) + dr * (s.tca(st, ax, p, f) - gk(X, 'dt') / gk(X, 'eps0') * f('jf' + ax, *p))

    def value(s, st, comp, p, f):
        if comp in ('tcax', 'tcay', 'tcaz'): return s.tca(st, comp[3], p, f)
        return s.e(st, comp[1], p, f)

    def comps(s): return ('tcax', 'tcay', 'tcaz') if s.curl else ('tcax', 'tcay', 'tcaz', 'ex', 'ey', 'ez')


def inner(X, p):
    return T.band(*[T.band(T.ble(2, q), T.ble(q, m)) for q, m in zip(p, (X.nx, X.ny, X.nz))])


def inrank(X, p): return (p[0] - 2) + (X.nx - 1) * ((p[1] - 2) + (X.ny - 1) * (p[2] - 2))


def bulk(L, st, comp, p, inwin, f):
    X = L.X
    if comp not in L.comps(): return None
    if not X.E.need(st, inner(X, p)): return None
    if not X.E.need(st, inwin(radix(X, st, p, 2, (X.nx - 1, X.ny - 1, X.nz - 1)))): return None
    return L.value(st, comp, p, f)


def nin(X): return (X.nx - 1) * (X.ny - 1) * (X.nz - 1)


def body(X, base, suf, straggle):
    L = Law(X, base)
    g = X.grid(); f = X.fields(); p = sfa(X)
    a = X.struct('args', {0: f, 8: p, 16: g}, 24)

    def post(o, inwin, tag):
        X.frame(o, 'f', X.FL, lambda st, comp, q: bulk(L, st, comp, q, inwin, X.fld), tag)
        X.untouched(o, {'f'}, tag)
    X.pipe(base + suf, a, post, N=nin(X), straggle=straggle)


def pipe_effect(L):
    def eff(H, st, args, inwin, what):
        X = H.X; E = X.E
        v = [E.load(st, Ptr(args.r, args.o + k), PTR) for k in (0, 8, 16)]
        if v != [Ptr('f', ZERO), Ptr('sfap', ZERO), Ptr('g', ZERO)]: raise Mismatch('pipelines are given %r' % (v,))
        effect(X, st, 'f', X.FL, lambda st, comp, p, old: bulk(L, st, comp, p, inwin, old), L.comps())
    return eff


STUB = ''.join('extern "C" void %s(void *, void *) {}\n' % n for n in ('begin_remote_ghost_tang_b', 'local_ghost_tang_b', 'end_remote_ghost_tang_b', 'local_adjust_tang_e'))


def tang_ghost(X, comp, p):
    """voxels whose cb<ax> is a ghost value (outside the domain along a transverse axis)"""
    if not comp.startswith('cb'): return None
    c = []
    for d, q, n in zip('xyz', p, (X.nx, X.ny, X.nz)):
        if d != comp[2]: c.append(T.bor(T.beq(q, C(0)), T.beq(q, n + 1)))
    return T.bor(*c)


def ghosts(X):
    """contracts of the exchange: begin reads the field, local sets local faces, end makes the ghosts valid"""
    E = X.E

    def begin(E, st, a, I): st.event('call', 'begin', tuple(a), dict(st.mem))

    def done(st):
        n = [e[1] for e in st.ev if e[0] == 'call']
        if 'local' in n and 'end' in n:
            if 'begin' not in n or n.index('begin') > n.index('end'): raise Mismatch('ghost exchange ended before it began')

            def spec(st, comp, p, old):
                c = tang_ghost(X, comp, p)
                if c is None or not E.need(st, c): return None
                return T.fmem('ghost', '', X.vox(*p) * X.FL['#'] + X.FL[comp], 'f32')
            effect(X, st, 'f', X.FL, spec, ('cbx', 'cby', 'cbz'))

    def local(E, st, a, I): st.event('call', 'local', tuple(a), dict(st.mem)); done(st)

    def end(E, st, a, I): st.event('call', 'end', tuple(a), dict(st.mem)); done(st)
    E.contracts['begin_remote_ghost_tang_b'] = begin
    E.contracts['local_ghost_tang_b'] = local
    E.contracts['end_remote_ghost_tang_b'] = end
    E.contracts['local_adjust_tang_e'] = snap('adjust')


def host(base):
    def run(X):
        L = Law(X, base)
        for late in ((False, True) if X.mode != 'native' else (False,)):
            if late: X.reset()
            g = X.grid(); f = X.fields(); p = sfa(X); fa = fa_struct(X, f, g, p)
            H = Host(X, {base: pipe_effect(L)}, N=nin(X), late=late)
            if X.mode == 'native': X.opts['stub'] += STUB
            ghosts(X)
            n = 0
            for o, r in X.run(base, [fa] + ([] if L.curl else [F1])):
                tag = '%s(host, pipelines run %s)' % (base, 'at wait' if late else 'at dispatch'); n += 1

                def fb(comp, *q, st=None): raise 0

                def spec(st, comp, q):
                    def f0(cc, *r):
                        if X.mode != 'native':
                            c = tang_ghost(X, cc, r)
                            if c is not None and X.E.need(st, c): return T.fmem('ghost', '', X.vox(*r) * X.FL['#'] + X.FL[cc], 'f32')
                        return X.fld(cc, *r)
                    if comp[:2] == 'cb' and X.mode != 'native': return f0(comp, *q)
                    if comp not in L.comps(): return None
                    d = EDIR[comp[-1]]
                    if not box(X, st, q, (1, 1, 1), tuple(1 - k for k in d)): return None
                    return L.value(st, comp, q, f0)
                if X.mode != 'native':
                    ev = [e[1] for e in o.ev if e[0] == 'call']
                    X.ob(tag + '/exchange protocol', lambda: sorted(ev) == sorted(['begin', 'local', 'end', 'adjust']))
                    X.ob(tag + '/callees get the same field and grid', lambda: all(e[2] == (f, g) for e in o.ev if e[0] == 'call'))
                    for e in calls(o, 'adjust'): nothing_after(X, o, e, ['f'], tag + '/nothing after the boundary adjustment')
                    for e in calls(o, 'begin'): X.ob(tag + '/exchange begins on unmodified fields', lambda e=e: not e[3].get('f'))
                X.frame(o, 'f', X.FL, spec, tag)
                X.untouched(o, {'f'}, tag)
            X.ob('reached', lambda: n > 0 or X._vac())
    return run


for b in ('advance_e', 'vacuum_advance_e', 'compute_curl_b', 'vacuum_compute_curl_b'):
    base = b + '_pipeline'; src = PIPE + base + '.cc'
    contract('F02', base + ' (host)', src, CF, dims=HD, qproof=('ref',), opts={'variants': '2xyz'})(host(base))
    contract('F02', base + '_scalar', src, CF, dims=DIMS, opts={'variants': '2xyz'})(lambda X, base=base: body(X, base, '_scalar', None))
    for w, cfgs in ((4, ('v4sse',)), (8, ('v8avx2', 'v8port')), (16, ('v16',))):
        contract('F02', '%s_v%d' % (base, w), PIPE + base + '_v%d.cc' % w, cfgs, dims=DIMS, opts={'variants': '2xyz'}, extra_src=(src,))(lambda X, base=base, w=w: body(X, base, '_v%d' % w, {16}))
