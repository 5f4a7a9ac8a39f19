"""Charge and moment accumulation from particles (P04)."""
from irv.reg import contract
from partlib import *
from c_push import VCF, QP, SPRE, HSP, centred

HY = 'jx jy jz rho px py pz ke txx tyy tzz tyz tzx txy'.split()
MD = [(3, 2, 4), (1, 4, 2), (2, 1, 1)]


def mesh_particles(X, n=None):
    """particles in interior cells of the local mesh"""
    p = particles(X, n=T.sym('npart', 0) if X.dims is None else C(n or (X.dims[0] * 13 + X.dims[1])))
    g = X.opts['gen']['p']

    def gen(rng, e, o, k):
        if k == 'i32': return X.i(X.vox(C(rng.randint(1, X.i(X.nx))), C(rng.randint(1, X.i(X.ny))), C(rng.randint(1, X.i(X.nz)))))
        return g(rng, e, o, k)
    X.opts['gen'] = dict(X.opts['gen'], p=gen)
    return p


def trilin(X, k, p='p'):
    """the eight nodes of particle k's cell and its normalised trilinear weights"""
    i = pv(X, k, 'i', p); out = []
    for c in (0, 1):
        for b in (0, 1):
            for a in (0, 1):
                w = T.fc(1)
                for d, s in (('dx', a), ('dy', b), ('dz', c)): w = w * (F1 + pv(X, k, d, p) if s else F1 - pv(X, k, d, p))
                out.append(((a, b, c), i + a + b * X.sx + c * X.sx * X.sy, w))
    return out


def hydro_terms(X, k, h, msp):
    u = centred(X, k, 'center', h); c = gk(X, 'cvac'); g = lorentz({a: pv(X, k, 'u' + a) + h * fields_at(X, k)[0][a] for a in 'xyz'})
    v = {a: c * u[a] / g for a in 'xyz'}; w = gk(X, 'r8V') * pv(X, k, 'w'); pc = {a: msp * c * u[a] for a in 'xyz'}
    val = {'rho': X.q}
    for a in 'xyz': val['j' + a] = X.q * v[a]; val['p' + a] = pc[a]; val['t' + a + a] = pc[a] * v[a]
    val['ke'] = msp * c * c * (g - F1)
    for a, b in ('yz', 'zx', 'xy'): val['t' + a + b] = pc[a] * v[b]
    out = []
    for _, i, t in trilin(X, k):
        for f in HY: out.append((i, f, w * t * val[f]))
    return out


def p04_hydro(X, suf):
    fn = 'accumulate_hydro_p_pipeline' + suf
    X.fnw = width(fn)
    f = interp(X); X.sizes.pop('f0', None)
    if X.dims is not None: X.sizes['f0'] = X.IL['#'] * X.i(X.nv)
    p = mesh_particles(X); g = X.grid(); sp = species(X, p, g)
    L = slay(X, 'accumulate_hydro_p_pipeline_args_t', 'sp f h h_size qdt_2mc msp np'.split(), HSP, SPRE)
    H = slay(X, 'hydro_t', HY)
    h, msp = T.fsym('p.qdt_2mc'), T.fsym('msp')
    S = T.sym('hsize', 1) if X.dims is None else C(X.i(X.nv) + 1)
    if X.mode == 'proof': X.E.facts.append(T.ble(X.nv, S))
    X.E.region('h', stride=H['#'], additive=True)
    if X.dims is not None: X.sizes['h'] = H['#'] * X.i(S) * (X.Pn + 1)
    a = X.struct('args', {L['sp']: sp, L['f']: f, L['h']: Ptr('h', ZERO), L['h_size']: S, L['qdt_2mc']: h, L['msp']: msp, L['np']: T.as_p(X.np)}, L['#'])

    def post(o, inwin, tag):
        if X.mode == 'proof' and 'remainder' in tag and suf != '_scalar': X.untouched(o, set(), tag); return
        at = getattr(inwin, 'at', None)
        rk = inwin.rank if X.mode == 'proof' else None
        if at is not None: X.ob(tag + '/remainder start', lambda: X.prove(o, T.beq(at, inwin.lo)))
        sc = lambda k: [((i + S * (rk if rk is not None else T.as_p(who(X, k, suf)))) * H['#'] + H[c], v) for i, c, v in hydro_terms(X, k, h, msp)]
        if X.mode == 'proof' or tag.endswith(',%d]' % X.Pn): ledger(X, o, 'h', sc, X.np, inwin, tag, at)
        X.untouched(o, {'h'}, tag)
    X.pipe(fn, a, post, N=X.np)


def who(X, k, suf):
    """rank that handles particle k (bounded / native): the documented block distribution"""
    n, P = X.i(X.np), X.Pn; nb = n // 16; k = X.i(k)
    for r in range(P):
        b = lambda q: int(float(nb) / P * q + 0.5) * 16
        if b(r) <= k < b(r + 1): return r
    return P


for suf, cf in VCF.items():
    contract('P04', 'accumulate_hydro_p_pipeline%s' % suf, SP + 'hydro_p_pipeline%s.cc' % ('' if suf == '_scalar' else suf), cf, dims=MD, qproof=QALL,
             extra_src=() if suf == '_scalar' else (SP + 'hydro_p_pipeline.cc',))(lambda X, suf=suf: p04_hydro(X, suf))


def p04_rho(X):
    f = X.fields(); p = mesh_particles(X); g = X.grid(); sp = species(X, p, g)
    X.E.regions['f'].additive = True
    J = slay(X, 'field_array_t', ['f', 'g'], HS + ('src/field_advance/field_advance.h',)); fa = X.struct('fa', {J['f']: f, J['g']: g}, J['#'])
    for o, r in X.run('accumulate_rho_p', [fa, sp]):
        w = X.q * gk(X, 'r8V')
        sc = lambda k: [(i * X.FL['#'] + X.FL['rhof'], w * pv(X, k, 'w') * t) for _, i, t in trilin(X, k)]
        inwin = lambda k: TRUE
        inwin.lo, inwin.hi = ZERO, T.as_p(X.np)
        ledger(X, o, 'f', sc, X.np, inwin, 'accumulate_rho_p')
        X.untouched(o, {'f'}, 'accumulate_rho_p')


contract('P04', 'accumulate_rho_p', SA + 'standard/rho_p.cc', ('ref', 'v4sse'), dims=MD, native_link={'*': ()})(p04_rho)


def p04_hydro_host(X):
    base = 'accumulate_hydro_p_pipeline'
    f = interp(X)
    if X.dims is not None: X.sizes['f0'] = X.IL['#'] * X.i(X.nv)
    p = mesh_particles(X); g = X.grid(); sp = species(X, p, g)
    L = slay(X, 'accumulate_hydro_p_pipeline_args_t', 'sp f h h_size qdt_2mc msp np'.split(), HSP, SPRE)
    H = slay(X, 'hydro_t', HY)
    J = slay(X, 'interpolator_array_t', ['i', 'g']); ia = X.struct('ia', {J['i']: f, J['g']: g}, J['#'])
    S = T.sym('hsize', 1) if X.dims is None else C(X.i(X.nv) + 1)
    X.E.region('h', stride=H['#'], additive=True)
    if X.dims is not None: X.sizes['h'] = H['#'] * X.i(S) * (X.Pn + 1)
    K = slay(X, 'hydro_array_t', ['h', 'n_pipeline', 'stride', 'g'])
    ha = X.struct('ha', {K['h']: Ptr('h', ZERO), K['n_pipeline']: C(X.Pn), K['stride']: S, K['g']: g}, K['#'])
    h = T.fc(Fr(1, 2)) * X.q * gk(X, 'dt') / (X.m * gk(X, 'cvac')); seen = []

    def eff(Hs, st, a, inwin, what):
        ld = lambda k, t: X.E.load(st, Ptr(a.r, a.o + L[k]), t)
        if [ld('sp', PTR), ld('f', PTR), ld('h', PTR)] != [sp, f, Ptr('h', ZERO)] or not T.same(ld('np', INT(32)), T.as_p(X.np)) or not T.same(ld('h_size', INT(32)), S): raise Mismatch('pipelines are given %r' % ([ld('sp', PTR), ld('f', PTR), ld('h', PTR), ld('np', INT(32)), ld('h_size', INT(32))],))
        X.equal(st, ld('qdt_2mc', FLOAT), h, 'qdt_2mc'); X.equal(st, ld('msp', FLOAT), X.m, 'msp'); seen.append(what)
    Host(X, {base: eff}, N=X.np)
    outs = X.run(base, [ha, sp, ia])
    if X.mode == 'native': ledger(X, X.st, 'h', lambda k: [((i + S * C(who(X, k, ''))) * H['#'] + H[c], v) for i, c, v in hydro_terms(X, k, h, X.m)], X.np, None, base)
    else: X.ob(base + '/ranks and remainder dispatched', lambda: set(seen) == {'ranks', 'remainder'})
    for o, r in outs: X.untouched(o, {'h'} if X.mode == 'native' else set(), base)


contract('P04', 'accumulate_hydro_p_pipeline (host)', SP + 'hydro_p_pipeline.cc', ('ref', 'v4sse', 'v8avx2', 'v16', 'v8omp'), dims=MD, Pn=(1, 3), qproof=('ref', 'v4sse', 'v8avx2', 'v16', 'v8omp'))(p04_hydro_host)


def p04_rhob(X):
    """bound charge of one particle in any interior cell; weights doubled once for every axis on which the node is the outermost of the domain"""
    f = X.fields(); g = X.grid()
    pts = [(C(x), C(y), C(z)) for z in (1, X.i(X.nz)) for y in (1, X.i(X.ny)) for x in (1, X.i(X.nx))] if X.dims is not None else [None]
    for pt in pts:
        X.reset(); f = X.fields(); g = X.grid(); X.E.regions['f'].additive = True
        X.PL = slay(X, 'particle_t', PF)
        if pt is None:
            x, y, z = T.sym('cx', 1), T.sym('cy', 1), T.sym('cz', 1)
            for a, b in ((x, X.nx), (y, X.ny), (z, X.nz)): X.st.assume(T.ble(a, b))
            # mixed-radix bounds of the cell index (products of the inequalities above)
            X.st.assume(T.blt(x + X.sx * y, X.sx * X.sy)); X.st.assume(T.ble(0, x + X.sx * y + X.sx * X.sy * z))
        else: x, y, z = pt
        X.E.region('p1', known={X.PL['i']: X.vox(x, y, z)}); X.sizes['p1'] = X.PL['#']
        for c in 'dx dy dz ux uy uz w'.split(): X.E.regions['p1'].known[X.PL[c]] = T.fsym('p1.' + c)
        q = T.fsym('q.sp'); v = lambda c: T.fsym('p1.' + c)
        for o, r in X.run('accumulate_rhob', [f, Ptr('p1', ZERO), g, q]):
            tag = 'accumulate_rhob' + ('' if pt is None else repr(tuple(X.i(u) for u in pt)))

            def sc(k, o=o):
                out = []
                for c in (0, 1):
                    for b in (0, 1):
                        for a in (0, 1):
                            w = q * gk(X, 'r8V') * v('w')
                            for d, s in (('dx', a), ('dy', b), ('dz', c)): w = w * (F1 + v(d) if s else F1 - v(d))
                            for u, n, s in ((x, X.nx, a), (y, X.ny, b), (z, X.nz, c)):
                                if X.E.need(o, T.beq(u, n if s else 1)): w = w * T.fc(2)
                            out.append((X.vox(x + a, y + b, z + c) * X.FL['#'] + X.FL['rhob'], w))
                return out
            one(X, o, 'f', sc, tag)
            X.untouched(o, {'f'}, tag)


def one(X, o, region, sc, tag):
    """ledger of a function that handles a single item"""
    if X.mode == 'native': return ledger(X, o, region, sc, C(1), None, tag)
    def f():
        e = [e for e in o.ev if e[0] == 'overwrite']
        if e: raise Mismatch('%r is overwritten' % (e[0],))
        if any(type(e).__name__ != 'Store' for e in o.log(region)): raise Unsupported('accumulation log')
        n = X.cases(o, lambda st: match(X, st, [(e.off, e.val) for e in st.log(region)], sc(C(0), st), tag))
        return '%d cases' % n
    X.ob(tag + '/accumulated', f)


contract('P04', 'accumulate_rhob', SA + 'standard/rho_p.cc', ('ref', 'v4sse'), dims=MD + [(3, 3, 3)], opts={'variants': '2xyz'})(p04_rhob)
