"""Particle/field interface: interpolator load (S01), accumulator and hydro arrays (S02, S03)."""
from irv.reg import contract
from irv.host import Host, effect
from irv.ir import FLOAT, DOUBLE, PTR, INT
from fieldlib import *
from fractions import Fraction as Fr

SF = 'src/sf_interface/'
HH = ('src/grid/grid.h', 'src/sf_interface/pipeline/sf_interface_pipeline.h')
PRE = '#define IN_sf_interface\n'
IA = 'ex dexdy dexdz d2exdydz ey deydz deydx d2eydzdx ez dezdx dezdy d2ezdxdy cbx dcbxdx cby dcbydy cbz dcbzdz'.split()
AC = 'xyz'


def lay(X, s, fs): return layout(X.cfg, HH, {s: fs}, pre=PRE)[s]


def ia_struct(X):
    L = lay(X, 'interpolator_t', IA); X.IL = L
    X.E.region('fi', stride=L['#'], grid=(X.sx, X.sy))
    if X.dims is not None: X.sizes['fi'] = L['#'] * X.i(X.nv)
    return Ptr('fi', ZERO)


def coeff(X, name, p):
    """interpolation coefficient `name` of cell p"""
    i = IA.index(name)
    if i < 12:
        a = AC[i // 4]; b, c = NEXT[a]
        w = [X.fld('e' + a, *add(add(p, EDIR[b], m), EDIR[c], n)) for m, n in ((0, 0), (1, 0), (0, 1), (1, 1))]
        s = ((1, 1, 1, 1), (-1, 1, -1, 1), (-1, -1, 1, 1), (1, -1, -1, 1))[i % 4]
        t = F0
        for k, q in zip(s, w): t = t + q if k > 0 else t - q
        return T.fc(Fr(1, 4)) * t
    a = AC[(i - 12) // 2]
    w0, w1 = X.fld('cb' + a, *p), X.fld('cb' + a, *add(p, EDIR[a]))
    return T.fc(Fr(1, 2)) * (w1 - w0 if i % 2 else w1 + w0)


def bulk_i(X, st, comp, q, inwin):
    if not box(X, st, q, (1, 1, 1), (0, 0, 0)): return None
    if not X.E.need(st, inwin(radix(X, st, q, 1, (X.nx, X.ny, X.nz)))): return None
    return coeff(X, comp, q)


def s01(X, suf):
    g = X.grid(); f = X.fields(); fi = ia_struct(X)
    A_ = lay(X, 'load_interpolator_pipeline_args_t', 'fi f nb nx ny nz'.split())
    a = X.struct('args', {A_['fi']: fi, A_['f']: f, A_['nx']: X.nx, A_['ny']: X.ny, A_['nz']: X.nz}, A_['#'], kinds={A_['nb']: 'ptr'})

    def post(o, inwin, tag):
        if 'remainder' not in tag: X.frame(o, 'fi', X.IL, lambda st, c, q: bulk_i(X, st, c, q, inwin), tag, words=IA)
        X.untouched(o, {'fi'} if 'remainder' not in tag else set(), tag)
    X.pipe('load_interpolator_pipeline' + suf, a, post)


def s01_host(X):
    for late in ((False, True) if X.mode != 'native' else (False,)):
        X.reset()
        g = X.grid(); f = X.fields(); fi = ia_struct(X)
        A_ = lay(X, 'load_interpolator_pipeline_args_t', 'fi f nb nx ny nz'.split())
        J = lay(X, 'interpolator_array_t', ['i', 'g'])
        ia = X.struct('ia', {J['i']: fi, J['g']: g}, J['#']); fa = fa_struct(X, f, g)

        def eff(H, st, args, inwin, what):
            E = X.E
            v = [E.load(st, Ptr(args.r, args.o + A_[k]), PTR if k in ('fi', 'f') else INT(32)) for k in 'fi f nx ny nz'.split()]
            if v[:2] != [fi, f] or any(not T.same(x, y) for x, y in zip(v[2:], (X.nx, X.ny, X.nz))): raise Mismatch('pipelines are given %r' % (v,))
            effect(X, st, 'fi', X.IL, lambda st, c, q, old: bulk_i(X, st, c, q, inwin) if c in IA else None)
        Host(X, {'load_interpolator_pipeline': eff}, late=late, whole=True)
        for o, r in X.run('load_interpolator_array_pipeline', [ia, fa]):
            tag = 'load_interpolator(host, %s)' % ('wait' if late else 'dispatch')
            X.frame(o, 'fi', X.IL, lambda st, c, q: bulk_i(X, st, c, q, lambda k: TRUE), tag, words=IA)
            X.untouched(o, {'fi'}, tag)
            X.ob(tag + '/ranks dispatched', lambda: X.mode == 'native' or 'omp' in X.cfg or sum(e[0] == 'dispatch' for e in o.ev) == 1)


IP = SF + 'pipeline/interpolator_array_pipeline.cc'
HD = [(3, 2, 4), (1, 4, 2), (2, 1, 1), (1, 1, 1)]
contract('S01', 'load_interpolator_pipeline_scalar', IP, ('ref', 'v8omp'), dims=DIMS, opts={'variants': '2xyz'})(lambda X: s01(X, '_scalar'))
contract('S01', 'load_interpolator_pipeline_v4', IP, ('v4sse', 'v4port', 'v8avx2'), dims=DIMS, opts={'variants': '2xyz'}, qproof=('v4sse', 'v4port'))(lambda X: s01(X, '_v4'))
contract('S01', 'load_interpolator_array_pipeline (host)', IP, ('ref', 'v4sse', 'v8omp'), dims=HD, opts={'variants': '2xyz'})(s01_host)


# ---- S02: clear / reduce / unload
RA = 'a n n_array s_array n_block'.split()


def lin_args(X, N, Sx, na, blk):
    L = lay(X, 'reduce_pipeline_args_t', RA)
    X.E.region('a')
    if X.dims is not None: X.sizes['a'] = 4 * (X.i(N) + na * X.i(Sx))
    return X.struct('args', {L['a']: Ptr('a', ZERO), L['n']: N, L['n_array']: C(na), L['s_array']: Sx, L['n_block']: C(blk)}, L['#'])


def linear(X, fn, spec, blks=(1,), w=1, arrs=range(1, 13), straggle=None):
    """a[k + r*s_array], 0 <= k < n, 0 <= r < n_array: every float of the arrays after the call"""
    for blk in blks:
        for na in (arrs if X.mode == 'proof' else (X.i(X.ny),)):
            X.reset()
            if X.mode == 'proof':
                M = T.sym('n', 0); Sx = T.sym('S', 0) * w; N = M * w
                X.E.facts.append(T.ble(N, Sx))
            else: N = X.nx; Sx = X.nx + X.nz
            a = lin_args(X, N, Sx, na, blk)

            def post(o, inwin, tag):
                tag = '%s arrays=%d' % (tag, na)
                if X.mode == 'proof':
                    
                    ks = []
                    for j in range(w):
                        K = T.sym('px', 0) * w + j; x = o.copy(); x.assume(T.blt(K, Sx)); ks.append((K, x))
                else: ks = [(C(k), o) for k in range(X.i(Sx))]
                for r in range(na):
                    def one(r=r):
                        n = 0
                        for k, x in ks:
                            def want(st, k=k):
                                old = [T.fmem('a', '', 4 * k + 4 * q * Sx, 'f32') for q in range(na)]
                                if not X.E.need(st, T.blt(k, N)) or not X.E.need(st, inwin(k)): return old[r]
                                return spec(r, old)
                            n += X.probe(x, 'a', 4 * k + 4 * r * Sx, 4, want, 'a[%d][%r]' % (r, k))
                        return '%d cases' % n
                    X.ob('%s/array %d' % (tag, r), one)
                X.untouched(o, {'a'}, tag)
            X.pipe(fn, a, post, N=N, straggle=straggle)


def reduced(r, old): return wsum(old) if r == 0 else old[r]


CL = SF + 'pipeline/clear_array_pipeline.cc'; RE = SF + 'pipeline/reduce_array_pipeline.cc'
contract('S02', 'clear_array_pipeline_scalar', CL, ('ref', 'v8omp'), dims=[(600, 2, 7), (1537, 3, 0), (5, 1, 3)])(lambda X: linear(X, 'clear_array_pipeline_scalar', lambda r, old: F0, blks=(1, 256), arrs=(1, 2, 3, 9)))
LD = [(48, n, 16) for n in (1, 2, 3, 5, 6, 8, 9, 10, 11, 12, 20)]
contract('S02', 'reduce_array_pipeline_scalar', RE, ('ref', 'v8omp'), dims=LD)(lambda X: linear(X, 'reduce_array_pipeline_scalar', reduced))
# precondition of the vector versions (established by the callers): element count and array stride are multiples of the vector width
for w, cf in ((4, ('v4sse', 'v4port')), (8, ('v8avx2', 'v8port')), (16, ('v16',))):
    contract('S02', 'reduce_array_pipeline_v%d' % w, SF + 'pipeline/reduce_array_pipeline_v%d.cc' % w, cf, dims=LD, extra_src=(RE,), qproof=('v4sse', 'v8avx2'))(lambda X, w=w: linear(X, 'reduce_array_pipeline_v%d' % w, reduced, w=w))
contract('S02', 'reduce_array_pipeline_scalar (13..273 arrays)', RE, ('ref',), dims=(), native=False, quick=False)(lambda X: linear(X, 'reduce_array_pipeline_scalar', reduced, arrs=list(range(13, 64)) + [64, 96, 128, 200, 256, 273]))


def acc(X):
    L = lay(X, 'accumulator_t', ['jx', 'jy', 'jz']); X.AL = L
    X.E.region('acc', stride=L['#'], grid=(X.sx, X.sy))
    if X.dims is not None: X.sizes['acc'] = L['#'] * X.i(X.nv)
    return Ptr('acc', ZERO)


def av(X, c, i, p): return T.fmem('acc', '', X.vox(*p) * X.AL['#'] + X.AL['j' + c] + 4 * i, 'f32')


def unloaded(X, st, comp, q, inwin, old, cc):
    if comp not in ('jfx', 'jfy', 'jfz'): return None
    if not box(X, st, q, (1, 1, 1), (1, 1, 1)): return None
    if not X.E.need(st, inwin(radix(X, st, q, 1, (X.nx + 1, X.ny + 1, X.nz + 1)))): return None
    c = comp[2]; b, d = NEXT[c]
    m = lambda *ax: tuple(u - sum(EDIR[e][i] for e in ax) for i, u in enumerate(q))
    s = av(X, c, 0, q) + av(X, c, 1, m(b)) + av(X, c, 2, m(d)) + av(X, c, 3, m(b, d))
    return old(comp, *q) + cc[c] * s


UA = 'f a nx ny nz cx cy cz'.split()


def s02_unload(X):
    g = X.grid(); f = X.fields(); a = acc(X)
    L = lay(X, 'unload_accumulator_pipeline_args_t', UA)
    cc = {c: T.fsym('p.c' + c) for c in 'xyz'}
    ar = X.struct('args', {L['f']: f, L['a']: a, L['nx']: X.nx, L['ny']: X.ny, L['nz']: X.nz, **{L['c' + c]: cc[c] for c in 'xyz'}}, L['#'])

    def post(o, inwin, tag):
        if 'remainder' not in tag: X.frame(o, 'f', X.FL, lambda st, c, q: unloaded(X, st, c, q, inwin, X.fld, cc), tag)
        X.untouched(o, {'f'} if 'remainder' not in tag else set(), tag)
    X.pipe('unload_accumulator_pipeline_scalar', ar, post, N=(X.nx + 1) * (X.ny + 1) * (X.nz + 1))


def s02_unload_host(X):
    for late in ((False, True) if X.mode != 'native' else (False,)):
        X.reset()
        g = X.grid(); f = X.fields(); a = acc(X)
        L = lay(X, 'unload_accumulator_pipeline_args_t', UA)
        J = lay(X, 'accumulator_array_t', ['a', 'n_pipeline', 'stride', 'g'])
        aa = X.struct('aa', {J['a']: a, J['g']: g}, J['#']); fa = fa_struct(X, f, g)
        r = lambda a, b: T.fc(Fr(1, 4)) * gk(X, a) * gk(X, b) / gk(X, 'dt')
        cc = {'x': r('rdy', 'rdz'), 'y': r('rdz', 'rdx'), 'z': r('rdx', 'rdy')}

        def eff(H, st, args, inwin, what):
            E = X.E
            ld = lambda k, t: E.load(st, Ptr(args.r, args.o + L[k]), t)
            v = [ld('f', PTR), ld('a', PTR)] + [ld(k, INT(32)) for k in ('nx', 'ny', 'nz')]
            if v[:2] != [f, a] or any(not T.same(x, y) for x, y in zip(v[2:], (X.nx, X.ny, X.nz))): raise Mismatch('pipelines are given %r' % (v,))
            for c in 'xyz': X.equal(st, ld('c' + c, FLOAT), cc[c], 'coupling constant c' + c)
            effect(X, st, 'f', X.FL, lambda st, c, q, old: unloaded(X, st, c, q, inwin, old, cc), ['jfx', 'jfy', 'jfz'])
        Host(X, {'unload_accumulator_pipeline': eff}, late=late, whole=True, N=(X.nx + 1) * (X.ny + 1) * (X.nz + 1))
        for o, rv in X.run('unload_accumulator_array_pipeline', [fa, aa]):
            tag = 'unload(host, %s)' % ('wait' if late else 'dispatch')
            X.frame(o, 'f', X.FL, lambda st, c, q: unloaded(X, st, c, q, lambda k: TRUE, X.fld, cc), tag)
            X.untouched(o, {'f'}, tag)


UP = SF + 'pipeline/unload_accumulator_pipeline.cc'
contract('S02', 'unload_accumulator_pipeline_scalar', UP, ('ref', 'v8omp'), dims=DIMS, opts={'variants': '2xyz'})(s02_unload)
contract('S02', 'unload_accumulator_array_pipeline (host)', UP, ('ref', 'v4sse', 'v8omp'), dims=HD, opts={'variants': '2xyz'})(s02_unload_host)


def array_host(kind, op):
    """clear / reduce of a whole accumulator or hydro array: what the pipelines are asked to handle covers every interior cell of every array and nothing outside the allocation"""
    fn = '%s_%s_array_pipeline' % (op, kind)

    def run(X):
        g = X.grid()
        at, st_ = kind + '_array_t', kind + '_t'
        ptr = 'a' if kind == 'accumulator' else 'h'
        J = lay(X, at, [ptr, 'n_pipeline', 'stride', 'g'])
        sz = lay(X, st_, ['jx'])['#']
        L = lay(X, 'reduce_pipeline_args_t', RA)
        P = X.Pn if X.mode != 'proof' else T.sym('NP', 1)
        half = X.E.fresh_half = None
        stride = T.idiv(X.nv + 1, C(2)) * 2 if X.mode != 'proof' else T.sym('strd', 1) * 2
        if X.mode == 'proof':
            X.E.facts.append(T.ble(X.nv, stride)); X.E.facts.append(T.ble(stride, X.nv + 1))
        arr = X.array('arr', sz, n=stride * (X.Pn + 1) if X.mode != 'proof' else None)
        h = X.struct('ha', {J[ptr]: arr, J['n_pipeline']: T.as_p(P), J['stride']: stride, J['g']: g}, J['#'])
        E = X.E; got = []

        def eff(H, st, args, inwin, what):
            ld = lambda k, t: E.load(st, Ptr(args.r, args.o + L[k]), t)
            a = ld('a', PTR)
            got.append((st, what, a, [ld(k, INT(32)) for k in RA[1:]]))
        N = (X.nv * sz)
        Host(X, {op + '_array_pipeline': eff}, N=T.sym('NN', 0) if X.mode == 'proof' else X.i(stride) * sz // 4 // 256 * 256)
        outs = X.run(fn, [h])
        if X.mode == 'native':
            # every float of the arrays
            for o, r in outs:
                for v in X_interior(X):
                    for k in range(sz // 4):
                        old = [T.fmem('arr', '', X.vox(*v) * sz + 4 * k + q * stride * sz, 'f32') for q in range(X.Pn + 1)]
                        for q in range(X.Pn + 1):
                            w = F0 if op == 'clear' else wsum(old) if q == 0 else old[q]
                            X.ob('array %d' % q, lambda: X.probe(o, 'arr', X.vox(*v) * sz + 4 * k + q * stride * sz, 4, w, 'float %d of %r of array %d' % (k, v, q)))
            return
        whats = [w for _, w, _, _ in got]
        X.ob('ranks and remainder are dispatched', lambda: 'ranks' in whats and 'remainder' in whats)
        nf = sz // 4
        for st, what, a, (n, narr, sarr, blk) in got:
            t = what + '/'
            X.ob(t + 'array pointer', lambda: a.r == 'arr' or Mismatch_(a))
            X.ob(t + 'number of arrays', lambda: X.prove(st, T.beq(narr, T.as_p(P) + 1), 'n_array'))
            X.ob(t + 'stride', lambda: X.prove(st, T.beq(sarr, stride * nf), 's_array'))
            X.ob(t + 'starts on or before the first cell', lambda: X.prove(st, T.ble(a.o, X.vox(1, 1, 1) * sz)))
            X.ob(t + 'starts inside the array', lambda: X.prove(st, T.ble(0, a.o)))
            X.ob(t + 'ends on or after the last cell', lambda: X.prove(st, T.ble((X.vox(X.nx, X.ny, X.nz) + 1) * sz, a.o + n * 4)))
            X.ob(t + 'ends inside the array', lambda: X.prove(st, T.ble(a.o + n * 4, stride * sz)))
            X.ob(t + 'block', lambda: X.prove(st, T.ble(1, blk)))
            w = 16 if X.cfg == 'v16' else 8 if X.cfg.startswith('v8') else 4 if X.cfg.startswith('v4') else 1
            if op == 'reduce' and w > 1: X.ob(t + 'count is a multiple of the vector width', lambda: X.prove(st, T.beq(T.imod(n, C(w)), 0)))
            if op == 'reduce' and w > 1: X.ob(t + 'stride is a multiple of the vector width', lambda: X.prove(st, T.beq(T.imod(sarr, C(w)), 0)))
        for o, r in outs: X.untouched(o, set(), fn)
    return run


def X_interior(X): return [(C(x), C(y), C(z)) for z in range(1, X.i(X.nz) + 1) for y in range(1, X.i(X.ny) + 1) for x in range(1, X.i(X.nx) + 1)]


for kind, pr in (('accumulator', 'S02'), ('hydro', 'S03')):
    for op, src in (('clear', CL), ('reduce', RE)):
        contract(pr, '%s_%s_array_pipeline (host)' % (op, kind), src, ('ref', 'v4sse', 'v8avx2', 'v8omp', 'v16'), dims=HD, Pn=(1, 3), qproof=('ref', 'v4sse', 'v8avx2', 'v8omp', 'v16'))(array_host(kind, op))
