"""Magnetic field half-advance (Faraday's law)."""
from irv.reg import contract
from irv.terms import *
from irv import terms as T
from irv.terms import C, P, F0, F1, TRUE, Ptr, ZERO
from irv.host import Host, effect, snap, calls, nothing_after
from irv.ctx import Mismatch

DIMS = [(5, 4, 3), (1, 6, 3), (17, 1, 2)]
PIPE = 'src/field_advance/standard/pipeline/'


def coef(X, n, rd, scale):
    """scale*rd when there is more than one cell along the axis, 0 otherwise"""
    return lambda st: scale * rd if X.E.need(st, T.bgt(n, 1)) else F0


def rates(X, st, frac):
    g = X.E.regions['g'].known; G = X.G
    s = frac * g[G['cvac']] * g[G['dt']]
    return [s * g[G['rd' + a]] if X.E.need(st, T.bgt(n, 1)) else F0 for a, n in zip('xyz', (X.nx, X.ny, X.nz))]


def faraday(X, st, comp, p, frac, f):
    """c*B after c*B -= frac*c*dt * curl E on the Yee mesh; f(comp,x,y,z) gives the fields before"""
    px, py, pz = rates(X, st, frac)
    x, y, z = p
    if comp == 'cbx': return f('cbx', *p) - (py * (f('ez', x, y + 1, z) - f('ez', *p)) - pz * (f('ey', x, y, z + 1) - f('ey', *p)))
    if comp == 'cby': return f('cby', *p) - (pz * (f('ex', x, y, z + 1) - f('ex', *p)) - px * (f('ez', x + 1, y, z) - f('ez', *p)))
    if comp == 'cbz': return f('cbz', *p) - (px * (f('ey', x + 1, y, z) - f('ey', *p)) - py * (f('ex', x, y + 1, z) - f('ex', *p)))


def bulk(X, st, comp, p, frac, inwin, f):
    if comp not in ('cbx', 'cby', 'cbz'): return None
    if not X.E.need(st, X.interior(p)): return None
    if not X.E.need(st, inwin(X.rank3(p))): return None
    return faraday(X, st, comp, p, frac, f)


def body(X, fn, straggle):
    g = X.grid(); f = X.fields(); frac = T.fsym('frac')
    a = X.struct('args', {0: f, 8: g, 16: frac}, 24)

    def post(o, inwin, tag):
        X.frame(o, 'f', X.FL, lambda st, comp, p: bulk(X, st, comp, p, frac, inwin, X.fld), tag)
        X.untouched(o, {'f'}, tag)
    X.pipe(fn, a, post, straggle=straggle)


def pipe_effect(H, st, args, inwin, what):
    """contract of advance_b_pipeline_* seen by its caller"""
    X = H.X; E = X.E
    from irv.ir import FLOAT, PTR
    f = E.load(st, args, PTR); g = E.load(st, Ptr(args.r, args.o + 8), PTR); frac = E.load(st, Ptr(args.r, args.o + 16), FLOAT)
    if f != Ptr('f', ZERO) or g != Ptr('g', ZERO): raise Mismatch('pipelines are given %r, %r' % (f, g))
    effect(X, st, 'f', X.FL, lambda st, comp, p, old: bulk(X, st, comp, p, frac, inwin, old))


def host(X):
    for late in ((False, True) if X.mode != 'native' else (False,)):
        if late: X.reset()
        g = X.grid(); f = X.fields(); frac = T.fsym('frac')
        fa = X.struct('fa', {0: f, 8: g}, 64)
        H = Host(X, {'advance_b_pipeline': pipe_effect}, late=late)
        X.E.contracts['local_adjust_norm_b'] = snap('local_adjust_norm_b')
        n = 0
        for o, r in X.run('advance_b_pipeline', [fa, frac]):
            tag = 'advance_b(host, pipelines run %s)' % ('at wait' if late else 'at dispatch'); n += 1

            def spec(st, comp, p):
                if comp not in ('cbx', 'cby', 'cbz'): return None
                d = {'cbx': (1, 0, 0), 'cby': (0, 1, 0), 'cbz': (0, 0, 1)}[comp]
                dom = T.band(*[T.band(T.ble(1, q), T.ble(q, m + e)) for q, m, e in zip(p, (X.nx, X.ny, X.nz), d)])
                if not X.E.need(st, dom): return None
                return faraday(X, st, comp, p, frac, X.fld)
            if X.mode != 'native':
                es = calls(o, 'local_adjust_norm_b')
                X.ob(tag + '/local boundary adjustment once, last', lambda: len(es) == 1 and es[0][2] == (f, g))
                for e in es: nothing_after(X, o, e, ['f'], tag + '/nothing after the boundary adjustment')
            X.frame(o, 'f', X.FL, spec, tag)
            X.untouched(o, {'f'}, tag)
        X.ob('reached', lambda: n > 0 or X._vac())


contract('F01', 'advance_b_pipeline (host)', PIPE + 'advance_b_pipeline.cc', ('ref', 'v4sse', 'v8avx2', 'v8omp', 'v16'), dims=DIMS)(host)


@contract('F01', 'advance_b_pipeline_scalar', PIPE + 'advance_b_pipeline.cc', ('ref', 'v4sse', 'v8avx2', 'v8omp', 'v16'), dims=DIMS)
def _(X): body(X, 'advance_b_pipeline_scalar', None)


for w, cfgs in ((4, ('v4sse',)), (8, ('v8avx2', 'v8port')), (16, ('v16',))):
    def mk(w):
        @contract('F01', 'advance_b_pipeline_v%d' % w, PIPE + 'advance_b_pipeline_v%d.cc' % w, cfgs, dims=DIMS, extra_src=(PIPE + 'advance_b_pipeline.cc',))
        def _(X): body(X, 'advance_b_pipeline_v%d' % w, {16})
    mk(w)
