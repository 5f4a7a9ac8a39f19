"""Particle momentum kernels: centering, uncentering, energy (P01, P04)."""
from irv.reg import contract
from partlib import *
from irv.build import LICM

VCF = {'_scalar': ('ref', 'v8omp'), '_v4': ('v4sse', 'v4port', 'v4avx2'), '_v8': ('v8avx2', 'v8port'), '_v16': ('v16',)}
QP = ('ref', 'v4sse', 'v8avx2', 'v16')
SPRE = '#define IN_spa\n'
HSP = HS + ('src/species_advance/standard/pipeline/spa_private.h',)


def centred(X, k, op, qdt_2mc):
    u = {a: pv(X, k, 'u' + a) for a in 'xyz'}
    E, B = fields_at(X, k)
    quarter = T.fc(Fr(1, 2)) * qdt_2mc
    if op == 'center': return boris({a: u[a] + qdt_2mc * E[a] for a in 'xyz'}, B, quarter)
    u = boris(u, B, T.fc(-1) * quarter)
    return {a: u[a] - qdt_2mc * E[a] for a in 'xyz'}


def p01_center(X, op, suf):
    p = particles(X); f = interp(X)
    L = slay(X, 'center_p_pipeline_args_t', 'p0 f0 qdt_2mc np'.split(), HSP, SPRE)
    h = T.fsym('p.qdt_2mc')
    a = X.struct('args', {L['p0']: p, L['f0']: f, L['qdt_2mc']: h, L['np']: T.as_p(X.np)}, L['#'])

    def post(o, inwin, tag):
        def want(st, c, k):
            if c[0] != 'u' or not X.E.need(st, inwin(k)): return None
            return centred(X, k, op, h)[c[1]]
        if not (X.mode == 'proof' and 'remainder' in tag and suf != '_scalar'): per_particle(X, o, X.np, PF, want, tag, lanes={'_v8': 8, '_v16': 16, '_scalar': 1}.get(suf, 4))
        X.untouched(o, {'p'}, tag)
    X.pipe('%s_p_pipeline%s' % (op, suf), a, post, N=X.np)


for op in ('center', 'uncenter'):
    for suf, cf in VCF.items():
        contract('P01', '%s_p_pipeline%s' % (op, suf), SP + '%s_p_pipeline%s.cc' % (op, '' if suf == '_scalar' else suf), cf, dims=NPS[:3], qproof=QALL,
                 extra_src=() if suf == '_scalar' else (SP + '%s_p_pipeline.cc' % op,))(lambda X, op=op, suf=suf: p01_center(X, op, suf))


def p01_host(X, op):
    """the pipelines get this species' particles, the interpolator array and q dt / 2 m c, and cover all particles"""
    base = op + '_p_pipeline'
    p = particles(X); f = interp(X); g = X.grid(); sp = species(X, p, g)
    L = slay(X, 'center_p_pipeline_args_t', 'p0 f0 qdt_2mc np'.split(), HSP, SPRE)
    J = slay(X, 'interpolator_array_t', ['i', 'g']); ia = X.struct('ia', {J['i']: f, J['g']: g}, J['#'])
    h = T.fc(Fr(1, 2)) * X.q * gk(X, 'dt') / (X.m * gk(X, 'cvac')); seen = []

    def eff(H, st, a, inwin, what):
        ld = lambda k, t: X.E.load(st, Ptr(a.r, a.o + L[k]), t)
        if [ld('p0', PTR), ld('f0', PTR)] != [p, f] or not T.same(ld('np', INT(32)), T.as_p(X.np)): raise Mismatch('pipelines are given %r' % ([ld('p0', PTR), ld('f0', PTR), ld('np', INT(32))],))
        X.equal(st, ld('qdt_2mc', FLOAT), h, 'qdt_2mc'); seen.append(what)
    Host(X, {base: eff}, N=X.np)
    outs = X.run(base, [sp, ia])
    if X.mode == 'native': per_particle(X, X.st, X.np, PF, lambda st, c, k: centred(X, k, op, h)[c[1]] if c[0] == 'u' else None, base)
    else: X.ob(base + '/ranks and remainder dispatched', lambda: set(seen) == {'ranks', 'remainder'})
    for o, r in outs: X.untouched(o, {'p'} if X.mode == 'native' else set(), base)


for op in ('center', 'uncenter'):
    contract('P01', op + '_p_pipeline (host)', SP + op + '_p_pipeline.cc', ('ref', 'v4sse', 'v8avx2', 'v16', 'v8omp'), dims=NPS[:3], Pn=(1, 3), qproof=('ref', 'v4sse', 'v8avx2', 'v16', 'v8omp'))(lambda X, op=op: p01_host(X, op))


def p01_lemma(X):
    """over the reals: uncentring inverts centring, and the rotation preserves the momentum's magnitude"""
    u = {a: T.fsym('u' + a) for a in 'xyz'}; B = {a: T.fsym('B' + a) for a in 'xyz'}; h = T.fsym('h')
    v = boris(u, B, h); w = boris(v, B, T.fc(-1) * h)
    X.ob('rotation preserves |u|', lambda: X.equal(X.st, dot(v, v), dot(u, u), '|u|^2'))
    for a in 'xyz': X.ob('inverse rotation ' + a, lambda a=a: X.equal(X.st, w[a], u[a], 'u' + a))


contract('P01', 'lemma: centring and uncentring are inverse', SP + 'center_p_pipeline.cc', ('ref',), native=False)(p01_lemma)


# ---- P04: kinetic energy
def kin(X, k, h, msp):
    E, _ = fields_at(X, k)
    u = {a: pv(X, k, 'u' + a) + h * E[a] for a in 'xyz'}
    return msp * pv(X, k, 'w') * (lorentz(u) - F1)


def p04_energy(X, suf):
    fn = 'energy_p_pipeline' + suf
    p = particles(X); f = interp(X)
    L = slay(X, 'energy_p_pipeline_args_t', 'p f en qdt_2mc msp np'.split(), HSP, SPRE)
    h, msp = T.fsym('p.qdt_2mc'), T.fsym('msp')
    X.E.region('en', stride=8, dflt='f64'); X.sizes['en'] = 8 * 64
    a = X.struct('args', {L['p']: p, L['f']: f, L['en']: Ptr('en', ZERO), L['qdt_2mc']: h, L['msp']: msp, L['np']: T.as_p(X.np)}, L['#'])

    def post(o, inwin, tag):
        if X.mode == 'proof':
            w = 1 if 'remainder' in tag else width(fn)
            at = getattr(inwin, 'at', None); l = inwin.lo if at is None else at
            if at is not None: X.ob(tag + '/remainder start', lambda: X.prove(o, T.beq(at, inwin.lo)))
            if 'remainder' in tag and w != width(fn): X.untouched(o, set(), tag); return
            n = T.idiv(inwin.hi - l, C(w))
            want = total(rows(l + j, n, w, kin(X, SUMROW(), h, msp)) for j in range(w))
            X.ob(tag + '/energy', lambda: X.probe(o, 'en', inwin.rank * 8, 8, want, 'energy of the rank'))
        elif tag.endswith('[P=%d,%d]' % (X.Pn, X.Pn)):
            def tot():
                s = total(X.E.tof(X.E.lookup(o, 'en', C(8 * r), 8)) for r in range(X.Pn + 1))
                X.equal(o, s, total(kin(X, C(k), h, msp) for k in range(X.i(X.np))), 'sum of the ranks\' energies')
            X.ob(fn + '/total energy', tot)
        X.untouched(o, {'en'}, tag)
    X.pipe(fn, a, post, N=X.np)


for suf, cf in VCF.items():
    contract('P04', 'energy_p_pipeline%s' % suf, SP + 'energy_p_pipeline%s.cc' % ('' if suf == '_scalar' else suf), cf, dims=NPS[:4], qproof=QALL,
             extra_src=() if suf == '_scalar' else (SP + 'energy_p_pipeline.cc',))(lambda X, suf=suf: p04_energy(X, suf))


def p04_energy_host(X):
    for late in ((False, True) if X.mode != 'native' else (False,)):
        X.reset()
        base = 'energy_p_pipeline'
        p = particles(X); f = interp(X); g = X.grid(); sp = species(X, p, g)
        L = slay(X, 'energy_p_pipeline_args_t', 'p f en qdt_2mc msp np'.split(), HSP, SPRE)
        J = slay(X, 'interpolator_array_t', ['i', 'g']); ia = X.struct('ia', {J['i']: f, J['g']: g}, J['#'])
        h = T.fc(Fr(1, 2)) * X.q * gk(X, 'dt') / (X.m * gk(X, 'cvac')); seen = []
        part = lambda r: T.ffn('part', T.i2f(T.as_p(r)))

        def eff(H, st, a, inwin, what):
            ld = lambda k, t: X.E.load(st, Ptr(a.r, a.o + L[k]), t)
            if [ld('p', PTR), ld('f', PTR)] != [p, f] or not T.same(ld('np', INT(32)), T.as_p(X.np)): raise Mismatch('pipelines are given %r' % ([ld('p', PTR), ld('f', PTR), ld('np', INT(32))],))
            X.equal(st, ld('qdt_2mc', FLOAT), h, 'qdt_2mc'); X.equal(st, ld('msp', FLOAT), X.m, 'msp'); seen.append(what)
            en = ld('en', PTR)

            def val(E, s1, off, size):
                d = off - en.o
                return (TRUE, part(P({m: v // 8 for m, v in d.t.items()}))) if all(v % 8 == 0 for v in d.t.values()) else None
            st.mem[en.r] = st.log(en.r) + (Spec(val),)
        Host(X, {base: eff}, N=X.np, late=late); allsum(X)
        NP = X.E.regions['@omp_helper' if 'omp' in X.cfg else '@thread'].known if X.mode != 'native' else None
        outs = X.run(base, [sp, ia])
        from irv.loops import SUMI
        for o, r in outs:
            if X.mode == 'native': s = total(kin(X, C(k), h, X.m) for k in range(X.i(X.np)))
            elif X.mode == 'bounded': s = total(part(C(k)) for k in range(X.Pn + 1))
            else: s = T._F('sum', 'iv', ZERO, T.sym('NP', 1) + 1, 1, 0, part(T.A(SUMI)))
            X.ob(base + '/energy', lambda: X.equal(o, X.E.tof(r) if X.mode != 'native' else r, gk(X, 'cvac') * gk(X, 'cvac') * T.ffn('allsum', s, T.fc(0)), 'returned energy'))
            X.untouched(o, set(), base)
        if X.mode != 'native': X.ob(base + '/ranks and remainder dispatched', lambda: set(seen) == {'ranks', 'remainder'})


contract('P04', 'energy_p_pipeline (host)', SP + 'energy_p_pipeline.cc', ('ref', 'v4sse', 'v8avx2', 'v16', 'v8omp'), dims=NPS[:3], Pn=(1, 3), qproof=('ref', 'v4sse', 'v8avx2', 'v16', 'v8omp'), opts={'ret': {'energy_p_pipeline': 'f64'}, 'post': LICM})(p04_energy_host)
