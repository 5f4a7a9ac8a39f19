"""Divergence errors, bound charge, Marder cleaning and rms norms."""
from fractions import Fraction
from irv.reg import contract
from irv.host import Host, effect, snap, calls, nothing_after
from fieldlib import *

HD = [(4, 3, 3), (1, 4, 2), (3, 1, 1), (1, 1, 1)]
AX = 'xyz'
CF = ('ref', 'v4sse', 'v8omp')


def rd(X, st, a): return gk(X, 'rd' + a) if thin(X, st, a) else F0


def div_eps_e(X, st, p, f, vac):
    """discrete divergence of eps_r E at node p"""
    r = F0
    for a in AX:
        q = add(p, EDIR[a], -1)

        def D(q):
            m = mat0(X, 'eps' + a) if vac else mat(X, st, 'emat' + a, q, 'eps' + a)
            return m * f('e' + a, q)
        r = r + rd(X, st, a) * (D(p) - D(q))
    return r


def nonc(X, st, p, vac): return mat0(X, 'nonconductive') if vac else mat(X, st, 'nmat', p, 'nonconductive')


def law_div_e(X, st, comp, p, f, vac): return nonc(X, st, p, vac) * (div_eps_e(X, st, p, f, vac) - (f('rhof', p) + f('rhob', p)) / gk(X, 'eps0'))
def law_rhob(X, st, comp, p, f, vac): return nonc(X, st, p, vac) * (gk(X, 'eps0') * div_eps_e(X, st, p, f, vac) - f('rhof', p))


def law_div_b(X, st, comp, p, f, vac):
    r = F0
    for a in AX: r = r + rd(X, st, a) * (f('cb' + a, add(p, EDIR[a])) - f('cb' + a, p))
    return r


def marder(X, st, a):
    many = T.bor(*[T.bgt(n, 1) for n in (X.nx, X.ny, X.nz)])
    if not X.E.need(st, many): return F0            # a single cell has no gradient
    k = T.fc(Fraction(0.3888889)); s = F0
    for b in AX: s = s + rd(X, st, b) * rd(X, st, b)
    return k / s * rd(X, st, a)


def law_clean_e(X, st, comp, p, f, vac):
    a = comp[1]
    dr = mat0(X, 'drive' + a) if vac else mat(X, st, 'emat' + a, p, 'drive' + a)
    return f(comp, p) + dr * marder(X, st, a) * (f('div_e_err', add(p, EDIR[a])) - f('div_e_err', p))


def law_clean_b(X, st, comp, p, f, vac):
    a = comp[2]
    return f(comp, p) + marder(X, st, a) * (f('div_b_err', p) - f('div_b_err', add(p, EDIR[a], -1)))


E3 = ('ex', 'ey', 'ez'); B3 = ('cbx', 'cby', 'cbz')


def hi_node(c): return (1, 1, 1)
def hi_edge(c): return tuple(0 if a == c[1] else 1 for a in AX)
def hi_cell(c): return (0, 0, 0)
def hi_face(c): return tuple(1 if a == c[2] else 0 for a in AX)


def g_norm_e(X): return lambda c, p: outside(X, p, c[-1]) if c in E3 + ('tcax', 'tcay', 'tcaz') else None
def g_div_b(X): return lambda c, p: outside(X, p, 'xyz') if c == 'div_b_err' else None


# name: comps, law, pipelines' box (lo, hi offset), host domain hi, args, exchange, closing adjustment
K = {
    'compute_div_e_err': (('div_e_err',), law_div_e, (2, 0), hi_node, 'fpg', ('norm_e', g_norm_e), 'local_adjust_div_e'),
    'compute_rhob': (('rhob',), law_rhob, (2, 0), hi_node, 'fpg', ('norm_e', g_norm_e), 'local_adjust_rhob'),
    'clean_div_e': (E3, law_clean_e, (1, 0), hi_edge, 'fpg', None, 'local_adjust_tang_e'),
    'clean_div_b': (B3, law_clean_b, (2, 0), hi_face, 'fg', ('div_b', g_div_b), 'local_adjust_norm_b'),
    'compute_div_b_err': (('div_b_err',), law_div_b, (1, 0), hi_cell, 'fg', None, None),
}


def ext(X, lo): return [n + 1 - lo for n in (X.nx, X.ny, X.nz)]


def bulk(X, st, k, comp, p, inwin, f, vac):
    comps, law, (lo, _), *_r = K[k]
    if comp not in comps: return None
    if not box(X, st, p, (lo,) * 3, (0, 0, 0)): return None
    if not X.E.need(st, inwin(radix(X, st, p, lo, ext(X, lo)))): return None
    return law(X, st, comp, p, f, vac)


def pargs(X, k, f, p, g): return X.struct('args', {8 * i: {'f': f, 'p': p, 'g': g}[c] for i, c in enumerate(K[k][4])}, 24)


def body(X, base, k, suf, straggle):
    vac = base.startswith('vacuum')
    g = X.grid(); f = X.fields(); p = sfa(X)
    a = pargs(X, k, f, p, g)
    lo = K[k][2][0]; e = ext(X, lo)

    def post(o, inwin, tag):
        X.frame(o, 'f', X.FL, lambda st, comp, q: bulk(X, st, k, comp, q, inwin, lambda c, r: X.fld(c, *r), vac), tag)
        X.untouched(o, {'f'}, tag)
    X.pipe(base + '_pipeline' + suf, a, post, N=e[0] * e[1] * e[2], straggle=straggle)


def pipe_effect(k, vac):
    def eff(H, st, args, inwin, what):
        X = H.X; E = X.E
        v = [E.load(st, Ptr(args.r, args.o + 8 * i), PTR) for i in range(len(K[k][4]))]
        w = [Ptr({'f': 'f', 'p': 'sfap', 'g': 'g'}[c], ZERO) for c in K[k][4]]
        if v != w: raise Mismatch('pipelines are given %r' % (v,))
        effect(X, st, 'f', X.FL, lambda st, comp, p, old: bulk(X, st, k, comp, p, inwin, lambda c, r: old(c, *r), vac), K[k][0])
    return eff


def host(base, k):
    comps, law, (lo, _), hi, ar, exch, last = K[k]
    vac = base.startswith('vacuum')

    def run(X):
        for late in ((False, True) if X.mode != 'native' else (False,)):
            X.reset()
            g = X.grid(); f = X.fields(); p = sfa(X); fa = fa_struct(X, f, g, p)
            e = ext(X, lo)
            H = Host(X, {base + '_pipeline': pipe_effect(k, vac)}, N=e[0] * e[1] * e[2], late=late)
            if X.mode == 'native': X.opts['stub'] += (ghost_stubs(exch[0]) if exch else '') + (stubs(last) if last else '')
            after = exchange(X, exch[0], exch[1](X)) if exch else (lambda c, q, st: X.fld(c, *q))
            if last: X.E.contracts[last] = snap('adjust')
            n = 0
            for o, r in X.run(base + '_pipeline', [fa]):
                tag = '%s(host, pipelines run %s)' % (base, 'at wait' if late else 'at dispatch'); n += 1

                def spec(st, comp, q):
                    f0 = lambda c, r: after(c, r, st)
                    if comp in comps and box(X, st, q, (1, 1, 1), hi(comp)): return law(X, st, comp, q, f0, vac)
                    if X.mode != 'native' and exch and exch[1](X)(comp, (C(0),) * 3) is not None: return f0(comp, q)
                    return None
                protocol(X, o, f, g, tag, 'adjust' if last else None)
                X.frame(o, 'f', X.FL, spec, tag)
                X.untouched(o, {'f'}, tag)
            X.ob('reached', lambda: n > 0 or X._vac())
    return run


for k in K:
    for vac in ((False, True) if k in ('compute_div_e_err', 'compute_rhob', 'clean_div_e') else (False,)):
        base = ('vacuum_' if vac else '') + k; src = PIPE + base + '_pipeline.cc'
        V = {'variants': '2xyz'}
        contract('F05', base + '_pipeline (host)', src, CF, dims=HD, opts=dict(V), qproof=('ref', 'v8omp') if k == 'compute_div_e_err' else ('ref',))(host(base, k))
        contract('F05', base + '_pipeline_scalar', src, CF, dims=DIMS, opts=dict(V))(lambda X, base=base, k=k: body(X, base, k, '_scalar', None))
for w, cfgs in ((4, ('v4sse',)), (8, ('v8avx2', 'v8port')), (16, ('v16',))):
    contract('F05', 'clean_div_b_pipeline_v%d' % w, PIPE + 'clean_div_b_pipeline_v%d.cc' % w, cfgs, dims=DIMS, opts={'variants': '2xyz'}, extra_src=(PIPE + 'clean_div_b_pipeline.cc',))(
        lambda X, w=w: body(X, 'clean_div_b', 'clean_div_b', '_v%d' % w, {16}))
