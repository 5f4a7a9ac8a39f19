"""Reductions over the mesh: field energies (F06) and rms divergence errors (F05)."""
import itertools
from irv.reg import contract
from irv.host import Host, effect, calls
from irv.ir import DOUBLE, PTR
from irv import loops as LP
from fieldlib import *

AX = 'xyz'


def dens(X, st, c, p, vac):
    """discrete energy density of component c (0-2 electric, 3-5 magnetic) of cell p, without the factor eps0 dV/2"""
    a = AX[c % 3]; t = F0
    if c < 3:
        b, d = NEXT[a]
        for i, j in ((0, 0), (1, 0), (0, 1), (1, 1)):
            q = add(add(p, EDIR[b], i), EDIR[d], j)
            e = X.fld('e' + a, *q)
            t = t + (mat0(X, 'eps' + a) if vac else mat(X, st, 'emat' + a, q, 'eps' + a)) * e * e
        return T.fc(Fr(1, 4)) * t
    for i in (0, 1):
        q = add(p, EDIR[a], i); b = X.fld('cb' + a, *q)
        t = t + (mat0(X, 'rmu' + a) if vac else mat(X, st, 'fmat' + a, q, 'rmu' + a)) * b * b
    return T.fc(Fr(1, 2)) * t


from fractions import Fraction as Fr


def sq(name):
    def f(X, st, c, p): 
        v = X.fld(name, *p); return v * v
    return f


def exterior_e(X):
    """weighted squares of the div E errors on the surface nodes of the domain"""
    n = [X.i(q) for q in (X.nx, X.ny, X.nz)]; t = F0
    for p in itertools.product(*[range(1, m + 2) for m in n]):
        k = sum(q in (1, m + 1) for q, m in zip(p, n))
        if k:
            v = X.fld('div_e_err', *[C(q) for q in p]); t = t + T.fc(Fr(1, 2 ** k)) * v * v
    return t


# base -> number of sums, term, lowest voxel, whether args hold the material table
R = {
    'energy_f': (6, lambda X, st, c, p: dens(X, st, c, p, 0), 1, True),
    'vacuum_energy_f': (6, lambda X, st, c, p: dens(X, st, c, p, 1), 1, True),
    'compute_rms_div_e_err': (1, sq('div_e_err'), 2, False),
    'compute_rms_div_b_err': (1, sq('div_b_err'), 1, False),
}


def ext(X, lo): return [n + 1 - lo for n in (X.nx, X.ny, X.nz)]


def total(X, st, base, c):
    n, term, lo, _ = R[base]
    return wsum(term(X, st, c, p) for p in allcells(X, lo, (0, 0, 0)))


def args(X, base, f, p, g):
    o = 24 if R[base][3] else 16; n = R[base][0]
    size = o + 8 * n * 300
    k = {i: 'f64' for i in range(o, size, 8)}
    X.E.region('args', known={0: f, 8: p, 16: g} if o == 24 else {0: f, 8: g}, kinds=k, dflt='f64')
    X.sizes['args'] = size
    return Ptr('args', ZERO), o, n


def pipe(base):
    n, term, lo, _ = R[base]

    def run(X):
        g = X.grid(); f = X.fields(); p = sfa(X)
        a, o0, n = args(X, base, f, p, g)
        e = ext(X, lo); N = e[0] * e[1] * e[2]

        def post(o, inwin, tag):
            if X.mode == 'proof':
                for c in range(n):
                    S_ = [T.A(q) for q in LP.SUMX]; pt = (C(lo), S_[0], S_[2]) if X.thin == 'x' else (S_[0], C(lo), S_[2]) if X.thin == 'y' else tuple(S_)
                    at = getattr(inwin, 'at', None)
                    if at is not None: X.ob(tag + '/remainder start', lambda: X.prove(o, T.beq(at, inwin.lo)))
                    l = inwin.lo if at is None else at
                    want = F0 if N.const() == 0 else T._F('sum', 'vox', l, inwin.hi - l, 1, 0, term(X, o, c, pt))
                    X.ob('%s/sum %d' % (tag, c), lambda c=c, want=want: X.probe(o, 'args', C(o0) + inwin.rank * (8 * n) + 8 * c, 8, want, 'partial sum %d of rank' % c))
                # nothing but this rank's own sums is written
                def own():
                    for s in o.log('args'):
                        from irv.engine import Store
                        if not isinstance(s, Store) or (s.off - inwin.rank * (8 * n)).const() is None or not o0 <= (s.off - inwin.rank * (8 * n)).const() < o0 + 8 * n: raise Mismatch('writes args at %r' % (s,))
                X.ob(tag + '/own slot only', own)
            else:
                for c in range(n):
                    def tot(c=c):
                        s = wsum(X.E.tof(X.E.lookup(o, 'args', C(o0 + 8 * (n * r + c)), 8)) for r in range(X.Pn + 1))
                        X.equal(o, s, total(X, o, base, c), 'sum over ranks of partial sum %d' % c)
                    X.ob('%s/sum %d' % (tag, c), tot)
            X.untouched(o, {'args'}, tag)
        X.pipe(base + '_pipeline_scalar', a, post, N=N)
    return run


def host(base):
    n, term, lo, mt = R[base]

    def run(X):
        g = X.grid(); f = X.fields(); p = sfa(X); fa = fa_struct(X, f, g, p)
        e = ext(X, lo); N = e[0] * e[1] * e[2]
        E = X.E
        lam = lambda k: T.fsym('part.%s' % (k,))

        def eff(H, st, a, inwin, what):
            v = [E.load(st, Ptr(a.r, a.o + 8 * i), PTR) for i in range(3 if mt else 2)]
            if v != ([f, Ptr('sfap', ZERO), g] if mt else [f, g]): raise Mismatch('pipelines are given %r' % (v,))
            o = a.o + (24 if mt else 16); P = X.Pn
            for r in (range(P) if what == 'ranks' else [P]):
                if N.const() == 0 and 0: continue
                for c in range(n): E.store(st, Ptr(a.r, o + 8 * (n * r + c)), lam('%d.%d' % (r, c)), DOUBLE)
        if X.mode == 'proof': raise Unsupp('sum over a symbolic number of pipelines')
        H = Host(X, {base + '_pipeline': eff}, N=N)
        allsum(X)
        if X.mode != 'native': k = 'late'
        dV, eps = gk(X, 'dV'), gk(X, 'eps0')

        def tot(st, c):
            if X.mode == 'native': return total(X, st, base, c)
            return wsum(lam('%d.%d' % (r, c)) for r in range(X.Pn + 1))
        if n == 6:
            X.E.region('out', kinds={8 * i: 'f64' for i in range(6)}, dflt='f64'); X.sizes['out'] = 48
            out = Ptr('out', ZERO)
            for o, r in X.run(base + '_pipeline', [out, fa]):
                for c in range(6):
                    X.ob('%s/energy %d' % (base, c), lambda c=c: X.probe(o, 'out', C(8 * c), 8, T.ffn('allsum', T.fc(Fr(1, 2)) * eps * dV * tot(o, c), T.fc(c)), 'energy %d' % c))
                X.untouched(o, {'out'}, base)
        else:
            for o, r in X.run(base + '_pipeline', [fa]):
                t = tot(o, 0) + (exterior_e(X) if base == 'compute_rms_div_e_err' else F0)
                want = eps * T.fsqrt(T.ffn('allsum', t * dV, T.fc(0)) / T.ffn('allsum', T.fc(X.i(X.N)) * dV, T.fc(1)))
                X.ob(base + '/norm', lambda: X.equal(o, r, want, 'rms norm'))
                X.untouched(o, set(), base)
    return run


from irv.ir import Unsupported as Unsupp
HD = [(3, 2, 4), (1, 4, 2), (2, 1, 1)]
for base in R:
    pr = 'F06' if R[base][0] == 6 else 'F05'
    src = PIPE + base + '_pipeline.cc'
    contract(pr, base + '_pipeline_scalar', src, ('ref', 'v8omp'), dims=[(5, 4, 3), (1, 6, 3), (17, 1, 2)], opts={'variants': '2xyz'})(pipe(base))
    contract(pr, base + '_pipeline (host)', src, ('ref', 'v4sse', 'v8omp'), dims=HD, Pn=(1, 3), proof=False,
             opts={'ret': {base + '_pipeline': None if R[base][0] == 6 else 'f64'}})(host(base))
