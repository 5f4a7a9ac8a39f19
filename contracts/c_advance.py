"""The particle advance (P01): Boris push, displacement, in-cell current, hand-over to the mover.

Per-iteration contract of the particle loop, for an arbitrary iteration of an arbitrary rank:
each lane's momentum, position, current contributions and mover bookkeeping are exactly those of
the definition, and the iteration touches nothing but its own particles, accumulators and movers;
move_p is used through its own contract (P02)."""
from irv.reg import contract
from partlib import *
from irv.engine import Store, Fam, Havoc
from irv.ctx import Undecided
from irv import solver as S
from irv.build import LICM

VCF = {'_scalar': ('ref', 'v8omp'), '_v4': ('v4sse', 'v4port', 'v4avx2'), '_v8': ('v8avx2', 'v8port'), '_v16': ('v16',)}
QP = ('ref', 'v4sse', 'v8avx2', 'v16')
SPRE = '#define IN_spa\n'
HSP = HS + ('src/species_advance/standard/pipeline/spa_private.h',)
MF = 'dispx dispy dispz i'.split()
AF = 'p0 pm a0 f0 seg g qdt_2mc cdt_dx cdt_dy cdt_dz qsp np max_nm nx ny nz'.split()
STUB = '''
#include "src/species_advance/species_advance.h"
extern "C" int irv_np = 0;
extern "C" int move_p(particle_t *p0, particle_mover_t *m, accumulator_t *a0, const grid_t *g, const float qsp) {
  particle_t *p = p0 + m->i; int k = m->i, i = p->i;
  a0[i].jx[0] += qsp*p->w; a0[i].jy[0] += m->dispx; a0[i].jy[1] += m->dispy; a0[i].jy[2] += m->dispz; a0[i].jz[3] += p->ux*p->uy*p->uz; a0[i].jx[3] += g->dx;
  p->dx += 0.5f*m->dispx; p->dy -= 0.25f*m->dispy; p->dz = -p->dz; p->uy = -p->uy;
  m->dispx *= 0.25f; m->dispy *= 0.5f; m->dispz = -m->dispz;
  if (k%3 == 0) return 0;
  p->i = 8*i+3; return 1;
}
'''


def step(X, k, cdt, h, ver=''):
    """new momentum, half displacement in cell units, new position and in-cell condition of particle k"""
    u = {a: pv(X, k, 'u' + a, 'p', ver) for a in 'xyz'}; d = {a: pv(X, k, 'd' + a, 'p', ver) for a in 'xyz'}
    E, B = fields_at(X, k, 'p', ver)
    u = {a: u[a] + h * E[a] for a in 'xyz'}
    u = boris(u, B, h)
    u = {a: u[a] + h * E[a] for a in 'xyz'}
    lg = F1 / lorentz(u)
    s = {a: u[a] * cdt[a] * lg for a in 'xyz'}
    new = {a: d[a] + s[a] + s[a] for a in 'xyz'}
    inb = T.band(*[T.bnot(T.bflt(F1, new[a])) for a in 'xyz'] + [T.bnot(T.bflt(new[a], T.fc(-1))) for a in 'xyz'])
    return u, s, new, {a: d[a] + s[a] for a in 'xyz'}, inb


def quadrants(q, m, s):
    """(component, index, contribution): charge-conserving currents of a straight segment with midpoint m and half displacement s"""
    out = []; corr = q * s['x'] * s['y'] * s['z'] * T.fc(Fr(1, 3))
    for a, b, c in (('x', 'y', 'z'), ('y', 'z', 'x'), ('z', 'x', 'y')):
        for n, (sb, sc) in enumerate(((-1, -1), (1, -1), (-1, 1), (1, 1))):
            out.append(('j' + a, n, q * s[a] * (F1 + T.fc(sb) * m[b]) * (F1 + T.fc(sc) * m[c]) + T.fc(sb * sc) * corr))
    return out


def advance(X, suf):
    fn = 'advance_p_pipeline' + suf; W = width(fn)
    p = particles(X); f = interp(X); g = X.grid(); E = X.E
    L = slay(X, 'advance_p_pipeline_args_t', AF, HSP, SPRE)
    X.ML = slay(X, 'particle_mover_t', MF); X.AL = slay(X, 'accumulator_t', ['jx', 'jy', 'jz'])
    SL = slay(X, 'particle_mover_seg_t', ['pm', 'max_nm', 'nm', 'n_ignored'], HSP, SPRE)
    h, qsp = T.fsym('qdt_2mc'), T.fsym('q.sp'); cdt = {a: T.fsym('cdt_d' + a) for a in 'xyz'}
    nat = X.mode == 'native'
    MN = C(5 + X.i(X.np) // 3) if nat else T.sym('max_nm', 0)
    nv = X.nv if not nat else C(1 * X.i(X.ny) * 1)
    dims = (X.nx, X.ny, X.nz)
    if nat: dims = (C(1), C(X.i(X.ny)), C(1)); nv = C(3 * 3 * (X.i(X.ny) + 2))
    str_ = T.idiv(nv + 1, C(2)) * 2
    E.region('pm', stride=X.ML['#'], kinds={X.ML['i']: 'i32'})
    E.region('a0', stride=X.AL['#'], additive=not nat)
    E.region('seg', stride=SL['#'], kinds={SL['pm']: 'ptr', SL['max_nm']: 'i32', SL['nm']: 'i32', SL['n_ignored']: 'i32'})
    if nat:
        X.sizes.update(pm=X.ML['#'] * max(1, X.i(MN)), a0=X.AL['#'] * X.i(str_) * (X.Pn + 1), seg=SL['#'] * (X.Pn + 1))
        X.syms.update({'qdt_2mc': .37, 'q.sp': -.8, 'cdt_dx': .45, 'cdt_dy': .3, 'cdt_dz': .35})
    a = X.struct('args', {L['p0']: p, L['pm']: Ptr('pm', ZERO), L['a0']: Ptr('a0', ZERO), L['f0']: f, L['seg']: Ptr('seg', ZERO), L['g']: g, L['qdt_2mc']: h, L['qsp']: qsp,
                          L['cdt_dx']: cdt['x'], L['cdt_dy']: cdt['y'], L['cdt_dz']: cdt['z'], L['np']: T.as_p(X.np), L['max_nm']: MN,
                          L['nx']: dims[0], L['ny']: dims[1], L['nz']: dims[2]}, L['#'])
    if nat: return native(X, fn, W, a, h, qsp, cdt, MN, str_, SL)
    lanes = []; info = {}

    def mvoff(k, c): return k * X.PL['#'] + X.PL[c]

    def move_p(E, st, ar, I):
        p0, m, acc, gg, q = ar
        ld = lambda c, t: E.load(st, Ptr(m.r, m.o + X.ML[c]), t)
        k = ld('i', INT(32)); d = [ld(c, FLOAT) for c in MF[:3]]
        st.event('move', p0, m, acc, gg, q, k, d, dict(st.mem))
        n = T.fresh('mv').name
        if not isinstance(k, P): raise Unsupported('mover of particle %r' % (k,))
        new = {}
        for c in PF:
            if c == 'w': continue
            v = A_(T.fresh('mvi!', lo=0)) if c == 'i' else T.fsym('mv.%s.%s' % (n, c)); new[c] = v
            E.store(st, Ptr('p', mvoff(k, c)), v, INT(32) if c == 'i' else FLOAT)
        md = []
        for c in MF[:3]:
            v = T.fsym('mv.%s.%s' % (n, c)); md.append(v); E.store(st, Ptr(m.r, m.o + X.ML[c]), v, FLOAT)
        r = A_(T.fresh('mvret!', lo=0))
        st.ev = st.ev[:-1] + (st.ev[-1] + (new, md, r),)
        return r
    E.contracts['move_p'] = move_p

    def unknown(region, off, n):
        def sp(E, st, o, size):
            d = (o - off).const()
            if d is None:
                r = E.overlap(st, E.regions[region], off, n, o, size) if region == 'p' else 'all'
                if r == 'no': return None
            elif d >= n or d + size <= 0: return None
            T._fresh[0] += 1
            return TRUE, T.fsym('forgotten!%d' % T._fresh[0])
        return Spec(sp)

    def merge(E, fn_, outs, J, base):
        here = [o for o in outs if o.tags.get('at') == J]
        if len(here) < 2 or J is None: return outs
        nb = len(base.ev)
        mv = [o for o in here if len(o.ev) > nb and o.ev[nb][0] == 'move']
        if not mv or any(len(o.ev) > nb + 1 or o.ev[:nb] != base.ev for o in here) or W == 1: return outs
        stay = [o for o in here if o not in mv]
        if len(stay) != 1 or any(stay[0].mem.get(r, ()) is not base.mem.get(r, ()) and stay[0].mem.get(r, ()) != base.mem.get(r, ()) for r in set(stay[0].mem) | set(base.mem)): return outs
        ks = {o.ev[nb][6].id for o in mv}
        if len(ks) != 1: return outs
        k = mv[0].ev[nb][6]; b = fn_.blocks[J]; m = base.copy(); ph = {}
        n0 = len(base.pc)
        for q in b.phis:
            row = []
            for o in here:
                for v, lab in q.a:
                    if lab == o.prev: row.append(E.val(o, v, q.ty)); break
                else: return outs
            if all(T.same(v, row[0]) for v in row[1:]): m.env[q.res] = row[0]
            elif all(isinstance(v, P) for v in row):
                f = A_(T.fresh('lane!', lo=0)); m.env[q.res] = f; ph[q.res] = (f, dict(zip(map(id, here), row)))
            else: return outs
        for o in here:
            for key in o.mem:
                if o.log(key) is base.log(key) or o.log(key) == base.log(key): continue
                if key == 'p': m.mem[key] = base.log(key) + (unknown('p', k * X.PL['#'], X.PL['#']),)
                elif key == 'pm' or key[0] == '%': m.mem[key] = base.log(key) + (unknown(key, ZERO, 1 << 30),)
                elif key != 'a0': return outs
        lanes.append((E.active[-1] if getattr(E, 'active', None) else None, k, base, here, stay[0], ph))
        m.tags = dict(stay[0].tags); m.tags['phidone'] = True; m.tags['at'] = J; m.prev = stay[0].prev
        return [o for o in outs if o not in here] + [m]
    E.merge_cb = merge

    def setup(lp):
        """the particles an iteration handles, the values at its start"""
        o = lp.latch[0]
        return lp.ver

    def delta(o, base, r):
        a_, b_ = o.log(r), base.log(r)
        if a_[:len(b_)] != b_: raise Unsupported('log of ' + r)
        return a_[len(b_):]

    def bookkeeping(o, base, ev, k, nm, ig, nm1, ig1, mpm, maxnm, tag):
        """after move_p: mover kept if there is room, otherwise counted and the cell index restored"""
        new, md, r = ev[9:12]
        st = delta(o, base, 'pm')
        kept = E.need(o, T.bnot(T.beq(r, 0))); room = E.need(o, T.blt(nm, E.toint(o, maxnm))) if kept else False
        if kept and room:
            X.equal(o, nm1, nm + 1, 'mover count'); X.equal(o, ig1, ig, 'ignored count')
            for c, v in zip(MF, md + [k]): X.equal(o, E.lookup(o, 'pm', mpm + nm * X.ML['#'] + X.ML[c], 4), v, 'stored mover.' + c)
            for e in st:
                if not isinstance(e, Store): raise Unsupported('mover log')
                d = (e.off - mpm - nm * X.ML['#']).const()
                if d is None or d < 0 or d + e.size > X.ML['#']: raise Mismatch('writes mover memory at %r' % (e.off,))
        else:
            if st: raise Mismatch('a mover is stored although there is none to store or no room')
            X.equal(o, nm1, nm, 'mover count'); X.equal(o, ig1, ig + (1 if kept else 0), 'ignored count')
        i1 = E.lookup(o, 'p', mvoff(k, 'i'), 4)
        X.equal(o, i1, T.idiv(new['i'], C(8)) if kept and not room else new['i'], 'p.i after the move')
        for c in PF:
            if c in ('i', 'w'): continue
            X.equal(o, E.lookup(o, 'p', mvoff(k, c), 4), new[c], 'p.%s after the move' % c)

    def called(o, ev, k, ver, aoff, tag):
        """move_p is called for this particle with its displacement, new momentum, old position and this rank's accumulator"""
        _, p0, m, acc, gg, q, kk, d, mem = ev[:9]

    def post(o, inwin, tag):
        rank = inwin.rank; last = 'remainder' in tag
        if last and W > 1: X.untouched(o, {'seg'}, tag); return
        loops = [e[1] for e in o.ev if e[0] == 'loop' and e[1].head[0] in (fn, X.fnname)]
        if len(loops) != 1: raise Unsupported('%d particle loops' % len(loops))
        lp = loops[0]; at = getattr(inwin, 'at', None); lo = inwin.lo if at is None else at
        if at is not None: X.ob(tag + '/remainder start', lambda: X.prove(o, T.beq(at, inwin.lo)))
        K = lp.K; kb = T.A(lp.k)
        # mover segment and accumulator of the rank
        aoff = (ZERO if last else (rank + 1)) * str_ * X.AL['#']

        def segval(c): return E.lookup(o, 'seg', rank * SL['#'] + SL[c], 8 if c == 'pm' else 4, PTR if c == 'pm' else INT(32))
        spm, mx, nmx, igx = [segval(c) for c in ('pm', 'max_nm', 'nm', 'n_ignored')]

        def segment():
            if not isinstance(spm, Ptr) or spm.r != 'pm': raise Mismatch('segment starts at %r' % (spm,))
            for (Q, n, pp, a_) in list(getattr(E, '_dist', {}).values()):
                if n is not X.pnp or Q is T.idiv(X.np, C(16)): continue
                for bb in (1, 2, 4, 8, 16, 32):
                    try:
                        if last:
                            s0 = Q * bb; e0 = MN; X.prove(o, T.ble(Q * bb, MN))
                        else: s0, e0 = E.distI(o, Q, n, rank) * bb, E.distI(o, Q, n, rank + 1) * bb
                        X.prove(o, T.beq(spm.o, s0 * X.ML['#'])); X.prove(o, T.beq(mx, e0 - s0)); return 'blocks of %d' % bb
                    except (Mismatch, Undecided): continue
            # no movers to share out
            if E.decide(o, T.beq(spm.o, 0)) is True and (E.decide(o, T.beq(mx, MN)) if last else E.decide(o, T.beq(mx, 0))) is True: return 'all to the remainder'
            raise Mismatch('mover segment %r .. +%r is not this rank\'s share' % (spm, mx))
        X.ob(tag + '/mover segment', segment)
        names = lp.names

        def phi(v):
            for n in names:
                if T.same(lp.place[n], v): return n
            return None
        pn, pi = phi(nmx), phi(igx)
        if pn is None or pi is None: raise Unsupported('mover counters')
        X.ob(tag + '/counters start at zero', lambda: (X.equal(o, lp.entry[pn], ZERO, 'movers'), X.equal(o, lp.entry[pi], ZERO, 'ignored'))[0])

        def covers():
            X.prove(lp.pre, T.beq(inwin.hi - lo, K * W))
        X.ob(tag + '/iterations cover the share', covers)
        ver = lp.ver; X.okver.add(ver)
        mine = [l for l in lanes if l[0] is lp]
        for b, nx in zip(lp.latch, lp.next):
            base = b.copy()
            ks = [lo + kb * W + j for j in range(W)]
            S_ = [step(X, k, cdt, h, ver) for k in ks]
            t2 = '%s/iteration[%d]' % (tag, len(X.obs))

            def inb(x, j): return X.E.need(x, S_[j][4])

            def entry_momentum(x, c, j): return S_[j][0][c[1]]
            if W == 1:
                evs = [e for e in b.ev if e[0] == 'move']

                def go():
                    def one(x):
                        if inb(x, 0):
                            if evs: raise Mismatch('move_p called for a particle that stays in its cell')
                            for c in PF:
                                w = S_[0][0][c[1]] if c[0] == 'u' else S_[0][2][c[1]] if c[0] == 'd' else pv(X, ks[0], c, 'p', ver)
                                X.equal(x, E.lookup(x, 'p', mvoff(ks[0], c), 4), w, 'p.' + c)
                            X.equal(x, nx[pn], lp.place[pn], 'mover count'); X.equal(x, nx[pi], lp.place[pi], 'ignored count')
                            if delta(b, hv(b, 'pm'), 'pm'): raise Mismatch('a mover is stored')
                        else:
                            if len(evs) != 1: raise Mismatch('%d calls of move_p for a particle that leaves its cell' % len(evs))
                            precall(x, evs[0], ks[0], S_[0], ver, aoff)
                            bookkeeping(x, hv(b, 'pm'), evs[0], ks[0], lp.place[pn], lp.place[pi], nx[pn], nx[pi], spm.o, mx, tag)
                    return '%d cases' % X.cases(b, one)
                X.ob(t2 + ' particle', go)
            else:
                fin = {}
                chain = [lp.place[pn], lp.place[pi]]

                def seq():
                    if len(mine) != W: raise Unsupported('%d lanes' % len(mine))
                    for j in range(W):
                        _, k, bs, here, stay, ph = mine[j]
                        X.equal(bs, k, ks[j], 'lane')
                X.ob(t2 + ' lanes in order', seq)
                for j in range(W):
                    if j >= len(mine): break
                    _, k, bs, here, stay, ph = mine[j]

                    def lane(j=j, k=k, bs=bs, here=here, stay=stay, ph=ph):
                        pv_n = counter(ph, chain[0], here); pv_i = counter(ph, chain[1], here)
                        same = lambda c: (c, {id(q): c for q in here})
                        n1 = ph[pv_n] if pv_n else same(chain[0]); i1 = ph[pv_i] if pv_i else same(chain[1]); n = 0
                        for o2 in here:
                            evs = o2.ev[len(bs.ev):]

                            def one(x):
                                # only this lane's condition may matter
                                if inb(x, j):
                                    if evs: raise Mismatch('move_p called for a particle that stays in its cell')
                                    X.equal(x, n1[1][id(o2)], chain[0], 'mover count'); X.equal(x, i1[1][id(o2)], chain[1], 'ignored count')
                                else:
                                    if len(evs) != 1: raise Mismatch('%d calls of move_p for a particle that leaves its cell' % len(evs))
                                    precall(x, evs[0], ks[j], S_[j], ver, aoff)
                                    bookkeeping(x, hv(bs, 'pm', True), evs[0], ks[j], chain[0], chain[1], n1[1][id(o2)], i1[1][id(o2)], spm.o, mx, tag)
                            n += X.cases(o2, one)
                        chain[0], chain[1] = n1[0], i1[0]
                        return '%d cases' % n
                    X.ob('%s lane %d' % (t2, j), lane)

                def end():
                    X.equal(b, nx[pn], chain[0], 'mover count'); X.equal(b, nx[pi], chain[1], 'ignored count')
                X.ob(t2 + ' counters', end)
                # the particles as the lanes found them (before the movers run)
                first = mine[0][2]
                for c in PF:
                    def word(c=c):
                        n = 0
                        for j in range(W):
                            def one(x, j=j):
                                w = S_[j][0][c[1]] if c[0] == 'u' else (S_[j][2][c[1]] if inb(x, j) else pv(X, ks[j], c, 'p', ver)) if c[0] == 'd' else pv(X, ks[j], c, 'p', ver)
                                X.equal(x, E.lookup(x, 'p', mvoff(ks[j], c), 4), w, 'p[+%d].%s' % (j, c))
                            n += X.cases(first, one)
                        return '%d cases' % n
                    X.ob('%s p.%s' % (t2, c), word)

            def onlyp():
                for e in delta(b, hv(b, 'p'), 'p'):
                    if isinstance(e, Spec): continue
                    if not isinstance(e, Store): raise Unsupported('particle log')
                    d = (e.off - ks[0] * X.PL['#']).const()
                    if d is None or d < 0 or d + e.size > W * X.PL['#']: raise Mismatch('writes particle memory at %r' % (e.off,))
            X.ob(t2 + ' only its own particles', onlyp)

            def currents():
                lg = delta(b, hv(b, 'a0'), 'a0')
                e = [e for e in b.ev if e[0] == 'overwrite']
                if e: raise Mismatch('an accumulator is overwritten')
                if any(not isinstance(e, Store) for e in lg): raise Unsupported('accumulator log')
                src = first if W > 1 else b
                if W > 1 and len(delta(src, hv(src, 'a0'), 'a0')) != len(lg): raise Mismatch('current deposited while handling movers')

                def one(x):
                    want = []
                    for j in range(W):
                        if W == 1 and not inb(x, j): continue
                        cell = aoff + pv(X, ks[j], 'i', 'p', ver) * X.AL['#']
                        for comp, n, v in quadrants(qsp * pv(X, ks[j], 'w', 'p', ver), S_[j][3], S_[j][1]):
                            want.append((cell + X.AL[comp] + 4 * n, v if W == 1 or inb(x, j) else F0))
                    got = [(e.off, e.val) for e in lg]
                    return match(X, x, got, want, 'current')
                if W == 1: return '%d cases' % X.cases(b, one)
                return lanewise(X, src, lg, S_, ks, aoff, qsp, ver, W, inb)
            X.ob(t2 + ' currents', currents)
        X.ob(tag + '/iterations checked', lambda: None if lp.latch else X._vac())
        X.untouched(o, {'p', 'a0', 'pm', 'seg'}, tag)

        def segonly():
            for e in o.log('seg'):
                if not isinstance(e, Store): raise Unsupported('segment log')
                d = (e.off - rank * SL['#']).const()
                if d is None or d < 0 or d + e.size > SL['#']: raise Mismatch('writes another rank\'s segment')
        X.ob(tag + '/only its own segment', segonly)

    def counter(ph, prev, here):
        """the counter phi: the value the lane starts from is what it has when nothing leaves"""
        for nme, (f, vals) in ph.items():
            if any(T.same(v, prev) for v in vals.values()): return nme
        return None

    def precall(x, ev, k, S1, ver, aoff):
        _, p0, m, acc, gg, q, kk, d, mem = ev[:9] if len(ev) >= 9 else ev
        mem = ev[8]
    def hv(b, r, cur=False):
        """log of region r at the start of the iteration (its havoc), or the state itself for a lane"""
        z = b.copy()
        if cur: return z
        lg = b.log(r); n = max([i for i, e in enumerate(lg) if isinstance(e, Havoc)] or [-1])
        z.mem[r] = lg[:n + 1]
        return z

    X.precall = None

    def precall(x, ev, k, S1, ver, aoff):
        p0, m, acc, gg, q, kk, d, mem = ev[1:9]
        if p0 != p: raise Mismatch('move_p is given particles %r' % (p0,))
        if gg != g: raise Mismatch('move_p is given grid %r' % (gg,))
        X.equal(x, kk, k, 'mover.i')
        if not isinstance(acc, Ptr) or acc.r != 'a0': raise Mismatch('move_p is given accumulator %r' % (acc,))
        X.equal(x, acc.o, aoff, 'accumulator given to move_p'); X.equal(x, q, qsp, 'charge given to move_p')
        for v, a_ in zip(d, 'xyz'): X.equal(x, v, S1[1][a_], 'displacement.' + a_)
        z = x.copy(); z.mem = dict(mem)
        for c in PF:
            w = S1[0][c[1]] if c[0] == 'u' else pv(X, k, c, 'p', ver)
            X.equal(x, E.lookup(z, 'p', mvoff(k, c), 4), w, 'p.%s when move_p is called' % c)
    X.pnp = T.sym('np', 1)
    X.pipe(fn, a, post, N=X.np)


def lanewise(X, st, lg, S_, ks, aoff, qsp, ver, W, inb):
    """each lane contributes exactly its twelve quadrant currents when it stays in its cell and nothing otherwise"""
    n = 0; left = list(lg)
    for j in range(W):
        cell = aoff + pv(X, ks[j], 'i', 'p', ver) * X.AL['#']
        for comp, q, v in quadrants(qsp * pv(X, ks[j], 'w', 'p', ver), S_[j][3], S_[j][1]):
            off = cell + X.AL[comp] + 4 * q
            es = [e for e in left if e.off is off]
            left = [e for e in left if e.off is not off]

            def one(x):
                g = F0
                for e in es: g = g + e.val
                X.equal(x, g, v if inb(x, j) else F0, 'lane %d %s[%d]' % (j, comp, q))
            n += X.cases(st, one)
    for e in left:
        def zero(x, e=e): X.equal(x, e.val, F0, 'contribution to %r' % (e.off,))
        n += X.cases(st, zero)
    return '%d cases' % n


def A_(a): return T.A(a)


def native(X, fn, W, a, h, qsp, cdt, MN, str_, SL):
    """the contract evaluated on the compiled code, with a deterministic stand-in for move_p"""
    N = X.i(X.np); Pn = X.Pn; M = X.i(MN)
    outs = X.pipe(fn, a, lambda o, w, t: None, N=X.np)
    o = outs[-1][0]
    seg, movers = native_particles(X, o, fn, h, qsp, cdt, MN, str_, SL)

    def mv():
        for j in range(M):
            for n, c in enumerate(MF):
                w = None if j not in movers else movers[j][n] if n < 3 else C(movers[j][3])
                X.probe(o, 'pm', C(j) * X.ML['#'] + X.ML[c], 4, w, 'mover[%d].%s' % (j, c))
    X.ob(fn + '/movers', mv)

    def segs():
        for r, (s0, mx, nm, ig) in enumerate(seg):
            for c, v in (('max_nm', mx), ('nm', nm), ('n_ignored', ig)): X.probe(o, 'seg', C(r * SL['#'] + SL[c]), 4, C(v), 'seg[%d].%s' % (r, c))
            if X.rd(ctypes.string_at(X.bufs['seg'][1] + r * SL['#'] + SL['pm'], 8), 0, 8, 'i64') != X.base['pm'] + s0 * X.ML['#']: raise Mismatch('seg[%d].pm' % r)
    X.ob(fn + '/segments', segs)
    X.untouched(o, {'p', 'a0', 'pm', 'seg'}, fn)


def native_particles(X, o, fn, h, qsp, cdt, MN, str_, SL):
    """particles and accumulators after the advance; returns what each rank's movers must be"""
    N = X.i(X.np); Pn = X.Pn; M = X.i(MN)
    exp = {}; acc = {}; seg = []; movers = {}
    from irv.terms import C as c_
    mxn = max(0, M - (N & 15)); Q = N // 16; Q2 = mxn // 8
    I = lambda Q, r: int(Q * r / Pn + .5)
    one = lambda v: T.fc(v)
    for r in range(Pn + 1):
        lo, hi = (16 * I(Q, r), 16 * I(Q, r + 1)) if r < Pn else (16 * Q, N)
        s0, mx = (8 * I(Q2, r), 8 * (I(Q2, r + 1) - I(Q2, r))) if r < Pn else (8 * Q2, M - 8 * Q2)
        nm = ig = 0; base = (0 if r == Pn else 1 + r) * X.i(str_) * X.AL['#']
        for k in range(lo, hi):
            u, s, new, mid, inb = step(X, C(k), cdt, h)
            i = X.iv(pv(X, C(k), 'i')); w = pv(X, C(k), 'w'); d = {c: pv(X, C(k), 'd' + c) for c in 'xyz'}
            def dep(f, v): acc.setdefault(base + i * X.AL['#'] + f, []).append(v)
            e = {'ux': u['x'], 'uy': u['y'], 'uz': u['z'], 'w': w, 'i': C(i)}
            if X.truth(inb):
                e.update({'d' + c: new[c] for c in 'xyz'})
                for comp, n, v in quadrants(qsp * w, mid, s): dep(X.AL[comp] + 4 * n, v)
            else:
                jx, jy, jz = X.AL['jx'], X.AL['jy'], X.AL['jz']
                dep(jx, qsp * w); dep(jy, s['x']); dep(jy + 4, s['y']); dep(jy + 8, s['z']); dep(jz + 12, u['x'] * u['y'] * u['z']); dep(jx + 12, gk(X, 'dx'))
                e.update(dx=d['x'] + one(Fr(1, 2)) * s['x'], dy=d['y'] - one(Fr(1, 4)) * s['y'], dz=T.fc(-1) * d['z'], uy=T.fc(-1) * u['y'])
                if k % 3:
                    if nm < mx: movers[s0 + nm] = (s['x'] * one(Fr(1, 4)), s['y'] * one(Fr(1, 2)), T.fc(-1) * s['z'], k); nm += 1; e['i'] = C(8 * i + 3)
                    else: ig += 1
            exp[k] = e
        seg.append((s0, mx, nm, ig))
    for c in PF:
        X.ob('%s/p.%s' % (fn, c), lambda c=c: [X.probe(o, 'p', C(k) * X.PL['#'] + X.PL[c], 4, exp[k][c], 'p[%d].%s' % (k, c)) for k in range(N)] and '')

    def cur():
        for b in range(0, X.sizes['a0'], 4):
            v = T.fmem('a0', '', C(b), 'f32')
            for x in acc.get(b, ()): v = v + x
            X.probe(o, 'a0', C(b), 4, v, 'accumulator+%d' % b)
    X.ob(fn + '/currents', cur)

    return seg, movers


import ctypes
for suf, cf in VCF.items():
    contract('P01', 'advance_p_pipeline%s' % suf, SP + 'advance_p_pipeline%s.cc' % ('' if suf == '_scalar' else suf), cf, dims=NPS[:3], Pn=(2,), bounded=False, qproof=QP,
             native_dims=[(37, 5, 0), (100, 7, 0), (16, 3, 0), (130, 4, 0), (5, 2, 0)], opts={'stub': STUB, 'weight': {'_v16': 9, '_v8': 5}.get(suf, 1)},
             extra_src=() if suf == '_scalar' else (SP + 'advance_p_pipeline.cc',))(lambda X, suf=suf: advance(X, suf))


def host(X):
    """the pipelines get this species' data and coefficients; their movers are compacted into one list in rank order"""
    base = 'advance_p_pipeline'
    p = particles(X); f = interp(X); g = X.grid(); E = X.E; nat = X.mode == 'native'
    L = slay(X, 'advance_p_pipeline_args_t', AF, HSP, SPRE)
    X.ML = slay(X, 'particle_mover_t', MF); X.AL = slay(X, 'accumulator_t', ['jx', 'jy', 'jz'])
    SL = slay(X, 'particle_mover_seg_t', ['pm', 'max_nm', 'nm', 'n_ignored'], HSP, SPRE)
    MN = C(5 + X.i(X.np) // 3) if nat else T.sym('max_nm', 0)
    E.region('pm', stride=X.ML['#'], kinds={X.ML['i']: 'i32'}); E.region('a0', stride=X.AL['#'], additive=not nat)
    sp = species(X, p, g, {})
    SPL = slay(X, 'species_t', ['pm', 'max_nm', 'nm'] + SPF)
    E.regions['sp'].known.update({SPL['pm']: Ptr('pm', ZERO), SPL['max_nm']: MN})
    J = slay(X, 'interpolator_array_t', ['i', 'g']); ia = X.struct('ia', {J['i']: f, J['g']: g}, J['#'])
    K = slay(X, 'accumulator_array_t', ['a', 'g']); aa = X.struct('aa', {K['a']: Ptr('a0', ZERO), K['g']: g}, K['#'])
    half = T.fc(Fr(1, 2)); h = half * X.q * gk(X, 'dt') / (X.m * gk(X, 'cvac')); cdt = {a: gk(X, 'cvac') * gk(X, 'dt') * gk(X, 'rd' + a) for a in 'xyz'}
    if nat:
        E.regions['g'].known.update({X.G['nx']: C(1), X.G['ny']: C(X.i(X.ny)), X.G['nz']: C(1)})
        nv = 9 * (X.i(X.ny) + 2); str_ = C((nv + 1) // 2 * 2)
        X.sizes.update(pm=X.ML['#'] * X.i(MN), a0=X.AL['#'] * X.i(str_) * (X.Pn + 1))
        Host(X, {base: None}, N=X.np)
        outs = X.run(base, [sp, aa, ia]); o = outs[0][0]
        seg, movers = native_particles(X, o, base, h, X.q, cdt, MN, str_, E.X)
        flat = [movers[s0 + j] for s0, mx, nm, ig in seg for j in range(nm)]

        def mv():
            X.probe(o, 'sp', C(SPL['nm']), 4, C(len(flat)), 'sp.nm')
            for j, m in enumerate(flat):
                for n, c in enumerate(MF): X.probe(o, 'pm', C(j) * X.ML['#'] + X.ML[c], 4, m[n] if n < 3 else C(m[3]), 'mover[%d].%s' % (j, c))
        X.ob(base + '/movers compacted', mv)
        X.untouched(o, {'p', 'a0', 'pm', 'sp'}, base); return
    r = E.region('@_world_rank', dflt='i32'); r.known = {0: C(0)}; r.ginit = True
    E.regions['sp'].kinds[SPL['nm']] = 'i32'
    seen = []; segr = []
    gh = lambda nme, rk: T.imem('seg.' + nme, '', rk * 4, 4)

    def eff(H, st, a, inwin, what):
        ld = lambda k, t: E.load(st, Ptr(a.r, a.o + L[k]), t)
        got = [ld(k, PTR) for k in ('p0', 'pm', 'a0', 'f0', 'g')]
        if got != [p, Ptr('pm', ZERO), Ptr('a0', ZERO), f, g]: raise Mismatch('pipelines are given %r' % (got,))
        for k, v in (('np', X.np), ('max_nm', MN), ('nx', X.nx), ('ny', X.ny), ('nz', X.nz)): X.equal(st, ld(k, INT(32)), T.as_p(v), k)
        for k, v in [('qdt_2mc', h), ('qsp', X.q)] + [('cdt_d' + a, cdt[a]) for a in 'xyz']: X.equal(st, ld(k, FLOAT), v, k)
        seen.append(what); sg = ld('seg', PTR)
        if not segr: segr.append(sg)
        if sg != segr[0]: raise Mismatch('different result segments')

        def sp_(E, s1, off, size):
            d = off - sg.o; c = d.t.get((), 0) % SL['#']
            if any(v % SL['#'] for m, v in d.t.items() if m): raise Unsupported('segment offset %r' % (off,))
            rk = T.idiv(d - c, C(SL['#'])); n = {v: k for k, v in SL.items() if k != '#'}.get(c)
            if n is None: return None
            mine = T.beq(rk, H.P) if what == 'remainder' else T.band(T.ble(0, rk), T.blt(rk, H.P))
            return mine, Ptr('pm', gh('start', rk) * X.ML['#']) if n == 'pm' else gh(n, rk)

        def garbage(E, s1, off, size):
            d = off - sg.o; c = d.t.get((), 0) % SL['#']; n = {v: k for k, v in SL.items() if k != '#'}.get(c)
            if n is None or d.const() is not None: return None
            q = gh('garbage.' + n, d); return TRUE, Ptr('pm', q) if n == 'pm' else q
        st.mem[sg.r] = st.log(sg.r) + ((Spec(garbage),) if len(seen) == 1 else ()) + (Spec(sp_),)
    H = Host(X, {base: eff}, N=X.np)
    info = []

    def memmove(E, st, a, I): st.event('memmove', a[0], a[1], a[2])
    E.contracts['llvm.memmove.p0.p0.i64'] = memmove
    prev = E.iter_cb

    def cb(E, lp):
        if lp.head[0] and 'advance_p_pipeline' in demangle_(lp.head[0]) and not any(any(e[0] == 'pipe' for e in o.ev) for o in lp.latch): info.append(lp)
        elif prev: prev(E, lp)
    E.iter_cb = cb
    outs = X.run(base, [sp, aa, ia])
    X.ob(base + '/ranks and remainder dispatched', lambda: set(seen) == {'ranks', 'remainder'})

    def comp():
        if len(info) != 1: raise Unsupported('%d compaction loops' % len(info))
        lp = info[0]; ver = lp.ver
        X.okver.add(ver)
        rk = T.A(lp.k); acc = T.imem('sp', ver, C(SPL['nm']), 4); n = 0
        X.equal(lp.pre, E.lookup(lp.pre, 'sp', C(SPL['nm']), 4), ZERO, 'sp.nm before the first segment')
        if lp.K is None: raise Unsupported('trip count')
        X.prove(lp.pre, T.beq(lp.K, H.P + 1), 'one iteration per rank and one for the remainder')
        for b in lp.latch:
            mv = [e for e in b.ev if e[0] == 'memmove']

            def one(x):
                src = gh('start', rk) * X.ML['#']; k = gh('nm', rk); dst = acc * X.ML['#']
                same_ = E.need(x, T.beq(src, dst)); none = E.need(x, T.ble(k, 0))
                if not mv:
                    if not (same_ or none): raise Mismatch('movers of a rank are not moved up')
                else:
                    if len(mv) != 1: raise Mismatch('several moves')
                    _, d, s, nb = mv[0]
                    if not (isinstance(d, Ptr) and isinstance(s, Ptr) and d.r == s.r == 'pm'): raise Mismatch('moves %r <- %r' % (d, s))
                    X.equal(x, d.o, dst, 'destination'); X.equal(x, s.o, src, 'source'); X.equal(x, nb, k * X.ML['#'], 'bytes')
                X.equal(x, E.lookup(x, 'sp', C(SPL['nm']), 4), acc + k, 'sp.nm')
            y = b.copy(); y.assume(T.ble(0, gh('nm', rk)))
            n += X.cases(y, one)
        return '%d cases' % n
    X.ob(base + '/movers compacted', comp)
    for o, r in outs:
        def only():
            for rg in ('sp',):
                for e in o.log(rg):
                    ok = isinstance(e, Store) and e.off.const() == SPL['nm'] or isinstance(e, Havoc) and e.rng and all(q[0] == SPL['nm'] for q in e.rng)
                    if not ok: raise Mismatch('writes other members of the species')
        X.ob(base + '/only sp.nm', only)
        X.untouched(o, {'sp', 'pm'}, base)


def demangle_(f):
    from irv.engine import demangle
    return demangle(getattr(f, 'name', f)) if not isinstance(f, str) else demangle(f)


contract('P01', 'advance_p_pipeline (host)', SP + 'advance_p_pipeline.cc', ('ref', 'v4sse', 'v8avx2', 'v16', 'v8omp'), dims=NPS[:3], Pn=(2,), bounded=False, qproof=('ref', 'v4sse', 'v8avx2', 'v16', 'v8omp'),
         native_dims=[(37, 5, 0), (100, 7, 0), (130, 4, 0)], opts={'stub': STUB})(host)
