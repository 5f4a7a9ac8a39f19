"""Loop rule: inductive summaries.

Every phi of the header gets a candidate invariant (closed form in the iteration
count k, template over mixed-radix voxel digits, unchanged, float reduction, or
'havoc' with bound candidates).  One arbitrary iteration is executed from the
candidate state; the candidates are accepted only if every path back to the
header re-establishes them.  Stores become a quantified family over iterations
after checking that no iteration reads what an earlier one wrote."""
from . import terms as T
from . import solver as S
from .terms import P, F, B, Ptr, NULL, C, ZERO, ONE, A, F0, TRUE, FALSE, same, UNDEF
from .ir import Unsupported, loops


class Loop:
    def __init__(s):
        s.loads = []; s.k = None; s.K = None; s.dig = None; s.step = None; s.L0 = None
        s.bound = []; s.mode = None; s.cls = {}; s.entry = {}; s.latch = []; s.exits = []; s.pre = None; s.ver = None
        s.place = {}; s.head = None; s.invs = []; s.next = []

    def project(s, gd, sub): return None


def do_loop(E, fn, st, h, stop, stops):
    L = loops(fn); body = L[h]; hb = fn.blocks[h]
    exits = set()
    for b in body:
        for x in fn.blocks[b].succs:
            if x not in body: exits.add(x)
    if not st.tags.get('phidone'):
        E.do_phis(st, hb, st.prev)
    st.tags.pop('phidone', None)
    entry = {ph.res: st.env[ph.res] for ph in hb.phis}
    # ---- concrete unrolling
    if can_unroll(E, fn, st, h, hb, body):
        return unroll(E, fn, st, h, hb, body, exits, stop, stops)
    return summarise(E, fn, st, h, hb, body, exits, entry, stop, stops)


def can_unroll(E, fn, st, h, hb, body):
    t = hb.ins[-1]
    if t.op == 'switch' and E.mode != 'bounded':
        try:
            s1 = st.copy()
            for I in hb.ins[:-1]:
                if I.op in ('call', 'invoke', 'store'): return False
                E.step(s1, I)
            v = E.toint(s1, E.val(s1, t.a[0], None))
            return isinstance(v, P) and v.const() is not None
        except Exception: return False
    if t.op != 'br' or t.a[0] is None or (t.a[1] in body) == (t.a[2] in body):
        # no exit at the header: unroll only if requested (bounded mode) -- do-while loops
        return E.mode == 'bounded'
    if any(I.op in ('call', 'store', 'load', 'invoke') for I in hb.ins[:-1]):
        if E.mode == 'bounded': return True
    s1 = st.copy()
    try:
        for I in hb.ins[:-1]:
            if I.op in ('call', 'invoke'): return False
            E.step(s1, I)
        c = E.tobool(s1, E.val(s1, t.a[0], None))
    except Exception:
        return E.mode == 'bounded'
    if c.op == 'const': return True
    return E.mode == 'bounded'


def unroll(E, fn, st, h, hb, body, exits, stop, stops):
    cnt = st.tags.get('unroll', 0) + 1
    if cnt > E.unroll: raise Unsupported('unrolling limit')
    st.tags = dict(st.tags); st.tags['unroll'] = cnt
    E.loopstack.append((fn, h, body))
    try:
        allstops = stops | exits | ({stop} if stop else set())
        nx = E.block(fn, st, hb, 0, h, frozenset(allstops))
        outs = E.region_run(fn, nx[1], nx[2], h, frozenset(allstops)) if nx[0] == 'goto' else nx[1]
    finally:
        E.loopstack.pop()
    res = []; again = []
    for o in outs:
        if o.tags.get('at') == h: again.append(o)
        else:
            o.tags = dict(o.tags); o.tags.pop('unroll', None)
            res.append(o)
    if len(again) > 1: again = E.merge(fn, again, h, None)
    for o in again: res += do_loop(E, fn, o, h, stop, stops)
    return res


def placeholder(E, nm, v, lo=None):
    if isinstance(v, P): return A(T.fresh('h'))
    if isinstance(v, Ptr): return Ptr(v.r, A(T.fresh('hp')))
    if isinstance(v, F): 
        T._fresh[0] += 1
        return T.fsym('hf!%d' % T._fresh[0])
    if isinstance(v, list): return [placeholder(E, nm, x) for x in v]
    if isinstance(v, B):
        T._fresh[0] += 1
        return T.batom('hb', T._fresh[0])
    if isinstance(v, (T.ITE, T.Mask)): return A(T.fresh('h'))
    if isinstance(v, T.FromBits): return T.FromBits(A(T.fresh('h')), v.w)
    if isinstance(v, T.Bits):
        T._fresh[0] += 1
        return T.Bits(T.fsym('hf!%d' % T._fresh[0]), v.w)
    if v is UNDEF: return UNDEF
    raise Unsupported('loop variable %r' % (v,))


def coef(p, aid):
    """polynomial coefficient of atom aid (linear), and the rest"""
    c = {}; r = {}
    for m, k in p.t.items():
        if aid in m:
            l = list(m); l.remove(aid)
            if aid in l: return None, None
            c[tuple(l)] = k
        else: r[m] = k
    return P(c), P(r)


def find_digits(entry):
    """(xphi,yphi,zphi, L0, (n1,n2), lows) from the entry values of a DISTRIBUTE-style decomposition"""
    ints = {k: v for k, v in entry.items() if isinstance(v, P)}
    for zk, zv in ints.items():
        for q2 in zv.atoms():
            a2 = T.Atom._byid[q2]
            if a2.kind != 'div': continue
            zl = zv - A(a2)
            if q2 in zl.atoms() or zl.const() is None: continue
            q1p, n2 = a2.meta['args']
            if len(q1p.t) != 1: continue
            (m, c), = q1p.t.items()
            if c != 1 or len(m) != 1: continue
            a1 = T.Atom._byid[m[0]]
            if a1.kind != 'div': continue
            v, n1 = a1.meta['args']
            for yk, yv in ints.items():
                yl = yv - A(a1) + n2 * A(a2)
                if yl.const() is None or yk == zk: continue
                for xk, xv in ints.items():
                    xl = xv - v + n1 * A(a1)
                    if xl.const() is None or xk in (yk, zk): continue
                    return (xk, yk, zk), v, (n1, n2), (xl, yl, zl), (a1, a2)
    for zk, zv in ints.items():          # one axis a single cell thick: two digits
        for q1 in zv.atoms():
            a1 = T.Atom._byid[q1]
            if a1.kind != 'div': continue
            zl = zv - A(a1)
            if q1 in zl.atoms() or zl.const() is None: continue
            v, n1 = a1.meta['args']
            for xk, xv in ints.items():
                xl = xv - v + n1 * A(a1)
                if xk == zk or xl.const() is None: continue
                return (xk, None, zk), v, (n1, ONE), (xl, ONE, zl), (a1, a1)
    return None


def template(e0, info, D):
    """express e0 (over L0,q1,q2) as a linear template of the digits"""
    keys, v, (n1, n2), lo, (a1, a2) = info
    b, r = coef(e0, a1.id)
    if b is None: return None
    c, r = coef(r, a2.id) if not D.flat else (P({}), r)
    if c is None: return None
    c2, b2 = coef(b, a2.id)
    if c2 is None or c2.t: return None
    # v = g * atom (+const)
    g = None
    va = [m for m in v.t if m]
    if len(va) == 1 and len(va[0]) == 1:
        k = v.t[va[0]]
        cc, r2 = coef(r, va[0][0])
        if cc is None: return None
        if any(x % k for x in cc.t.values()): return None
        cx = P({m: x // k for m, x in cc.t.items()})
    elif not va: return None
    else: return None
    cy = b + n1 * cx
    cz = c + n2 * cy
    x0 = lo[0] + v - n1 * A(a1); y0 = lo[1] + A(a1) - n2 * A(a2); z0 = lo[2] + A(a2)
    if D.flat: cz = cy; cy = ZERO; y0 = lo[1]
    c0 = e0 - cx * x0 - cy * y0 - cz * z0
    bad = {a1.id, a2.id, va[0][0]}
    if any(bad & T.deps(q) for q in (c0, cx, cy, cz)): return None
    x, y, z = D.P3()
    return c0 + cx * x + cy * y + cz * z


def eqv(E, st, a, b):
    """provably equal integers on this path"""
    if not (isinstance(a, P) and isinstance(b, P)): return False
    if any(T.Atom._byid[i].name.startswith('h!') for i in T.deps(a - b)): return False
    return E.decide(st, T.beq(a, b)) is True


def summarise(E, fn, st, h, hb, body, exits, entry, stop, stops):
    from .engine import Dig, Mark, Fam, Havoc, Store
    n0 = len(st.pc)
    names = [ph.res for ph in hb.phis]
    if any(isinstance(v, T.ITE) for v in entry.values()):
        for v in entry.values():
            if isinstance(v, T.ITE):
                return resplit(E, fn, st, h, v.c, stop, stops)
    cls = {n: ('unk', None) for n in names}
    info = find_digits(entry)
    D = None
    if info:
        keys, v, ns, lo, ats = info
        D = Dig(T.fresh('x'), T.fresh('y'), T.fresh('z'), lo, (ns[0], ns[1], P({})), flat=keys[1] is None)
        D.n = (ns[0], ns[1], ns[1])      # z extent is not needed; see facts()[:4]
        for kx, nm in enumerate(keys):
            if nm is not None: cls[nm] = ('dig', kx)
        for n in names:
            if cls[n][0] != 'unk': continue
            e0 = entry[n]
            o = e0.o if isinstance(e0, Ptr) else e0 if isinstance(e0, P) else None
            if o is None: continue
            if not (T.deps(o) & {ats[0].id, ats[1].id}): continue
            t = template(o, info, D)
            if t is not None: cls[n] = ('tmpl', t)
        if D.flat:       # the coordinate along the thin axis keeps its value
            for n in names:
                if cls[n][0] == 'unk' and isinstance(entry[n], P) and entry[n].const() in (1, 2): cls[n] = ('tryinv', None)
    k = T.fresh('k', lo=0)
    place0 = {n: placeholder(E, n, entry[n]) for n in names}
    K = None; step = None; cands = {}
    final = None
    iterate = False
    written = None; hexit = None
    nload = [(a, len(a.loads)) for a in getattr(E, 'active', [])]
    for attempt in range(12):
        for a, n_ in nload: del a.loads[n_:]
        lp = Loop(); lp.k = k; lp.dig = D; lp.entry = entry; lp.pre = st; lp.head = (fn.name, h)
        s1 = st.copy()
        place = {}
        for n in names:
            c, d = cls[n]
            if c == 'dig': place[n] = D.P3()[d]
            elif c == 'tmpl': place[n] = Ptr(entry[n].r, d) if isinstance(entry[n], Ptr) else d
            elif c == 'iv':
                o = d * A(k)
                place[n] = Ptr(entry[n].r, entry[n].o + o) if isinstance(entry[n], Ptr) else entry[n] + o
            elif c in ('inv', 'tryinv'): place[n] = entry[n]
            else: place[n] = place0[n]
        s1.env.update(place); lp.place = place
        if D:
            for f in D.facts()[:4] + [T.ble(T.as_p(D.lo[2]), A(D.z))]: s1.assume(f)
            s1.digs = st.digs + (D,)
        for n in names:
            for cd in cands.get(n, ()): s1.assume(cd(place[n]))
        if K is not None:
            s1.assume(T.ble(A(k), K) if iterate else T.blt(A(k), K))
        nb = len(s1.pc)
        lp.ver = None
        if iterate:
            T._fresh[0] += 1
            lp.ver = 'v%d' % T._fresh[0]
            for r in written: s1.mem[r] = st.log(r) + (Havoc(lp.ver, written[r]),)
            s1.ev = ()
        else:
            for r in list(E.regions): s1.mem[r] = st.log(r) + (Mark(lp),)
        E.loopstack.append((fn, h, body)); E.active = getattr(E, 'active', []) + [lp]
        tent = any(c[0] in ('unk', 'tryinv') for c in cls.values()); E.tent += tent
        tags0 = s1.tags; s1.tags = {}
        try:
            allstops = frozenset(stops | exits | ({stop} if stop else set()))
            nx = E.block(fn, s1, hb, 0, h, allstops)
            outs = E.region_run(fn, nx[1], nx[2], h, allstops) if nx[0] == 'goto' else nx[1]
        finally:
            E.loopstack.pop(); E.active = E.active[:-1]; E.tent -= tent
        latches = [o for o in outs if o.tags.get('at') == h]
        leaves = [o for o in outs if o.tags.get('at') != h]
        lp.latch = latches; lp.exits = leaves; lp.nb = nb
        # next values
        nxt = []
        for o in latches:
            if o.tags.get('phidone'):
                nxt.append({n: o.env[n] for n in names}); continue
            d = {}
            for ph in hb.phis:
                for v, lab in ph.a:
                    if lab == o.prev: d[ph.res] = E.val(o, v, ph.ty)
            nxt.append(d)
        lp.next = nxt
        changed = False
        # digits
        if D and any(c[0] == 'dig' for c in cls.values()):
            st_ = None; ok = True
            dn = [n for n in names if cls[n][0] == 'dig']; dn.sort(key=lambda n: cls[n][1])
            nds = []
            for o, d in zip(latches, nxt):
                v3 = [d[n] for n in dn]
                if D.flat: v3.insert(1, T.as_p(D.lo[1]))
                nd = None
                for q in o.digs:
                    if all(a is b for a, b in zip(q.P3(), v3)): nd = q
                if nd is None or (nd.base is not D): ok = False; break
                if st_ is None: st_ = nd.j
                elif st_ != nd.j: ok = False; break
                nds.append(nd)
            if ok and latches:
                step = st_
                for n in names:
                    if cls[n][0] != 'tmpl': continue
                    for d, nd in zip(nxt, nds):
                        x, y, z = nd.P3()
                        w = T.subst(place[n], {D.x.id: x, D.y.id: y, D.z.id: z})
                        if not same(w, d[n]): cls[n] = ('unk', None); changed = True; break
            else:
                for n in names:
                    if cls[n][0] in ('dig', 'tmpl'): cls[n] = ('unk', None)
                D = None; changed = True
        # others
        for n in names:
            c, dd = cls[n]
            if c in ('dig', 'tmpl'): continue
            vs = [d[n] for d in nxt]
            pl = place[n]
            if c == 'tryinv':
                if vs and all(same(v, entry[n]) or eqv(E, o, v, entry[n]) for o, v in zip(latches, vs)): cls[n] = ('inv', None)
                else: cls[n] = ('havoc', None)
                changed = True; continue
            if c == 'inv':
                if not all(same(v, entry[n]) or eqv(E, o, v, entry[n]) for o, v in zip(latches, vs)): cls[n] = ('havoc', None); changed = True
                continue
            if c == 'iv':
                want = T.subst(pl, {k.id: A(k) + 1})
                if not all(same(v, want) for v in vs): cls[n] = ('havoc', None); changed = True
                continue
            if c == 'red':
                continue
            if c in ('unk', 'havoc'):
                if vs and (all(same(v, pl) for v in vs) or c == 'unk' and all(same(v, pl) or eqv(E, o, v, entry[n]) for o, v in zip(latches, vs))):
                    cls[n] = ('inv', None); changed = True; continue
                if c == 'havoc': continue
                d = None
                if isinstance(pl, Ptr) and all(isinstance(v, Ptr) and v.r == pl.r for v in vs): d = [v.o - pl.o for v in vs]
                elif isinstance(pl, P) and all(isinstance(v, P) for v in vs): d = [v - pl for v in vs]
                if d and all(x is d[0] for x in d) and step_ok(d[0], st, entry, E):
                    cls[n] = ('iv', d[0]); changed = True; continue
                if isinstance(pl, (F, list)):
                    r = reduction(pl, vs)
                    if r: cls[n] = ('red', None); continue
                cls[n] = ('tryinv' if c == 'unk' and isinstance(pl, P) else 'havoc', None); changed = True
        # bound candidates for havocked integers
        for n in names:
            if cls[n][0] != 'havoc' or not isinstance(place[n], (P, Ptr)): continue
            if n not in cands:
                cands[n] = make_cands(E, entry[n], place[n], nxt, latches, n)
                if cands[n]: changed = True
            else:
                keep = []
                for cd in cands[n]:
                    if S.prove(E.facts + list(st.pc), cd(entry[n])) and all(S.prove(E.facts + list(o.pc), cd(d[n])) for o, d in zip(latches, nxt)): keep.append(cd)
                if len(keep) != len(cands[n]): cands[n] = keep; changed = True
        # trip count
        if K is None and not changed and not iterate:
            K = trip(E, st, k, leaves, exits, nb, hb, lp)
            if isinstance(K, tuple):          # need a case split at entry
                return resplit(E, fn, st, h, K[1], stop, stops)
            if K is not None:
                changed = True; hexit = [o.tags['at'] for o in leaves if o.prev == h][0]
        w2 = {}
        for o in latches + leaves:
            for r, lg in o.mem.items():
                base = s1.mem.get(r, ())
                if len(lg) > len(base) or lg != base[:len(lg)] and lg is not base:
                    new = lg[len(base):]
                    ok = lg[:len(base)] == base and not E.regions[r].stride and all(isinstance(e, Store) and e.off.const() is not None for e in new)
                    w2[r] = None if not ok or w2.get(r, 1) is None else w2.get(r, frozenset()) | frozenset((e.off.const(), e.size) for e in new)
        if written is None: written = w2
        else:
            for r, v in w2.items():
                o_ = written.get(r, frozenset()) if r in written else 0
                n_ = None if o_ is None or v is None else v if o_ == 0 else v | o_
                if o_ == 0 or n_ != o_: written[r] = n_; changed = True if iterate else changed
        if not changed:
            need_iter = any(cls[n][0] == 'havoc' and not flt(entry[n]) for n in names) or any(o.ev != (() if iterate else st.ev) for o in latches + leaves) or (leaves and K is not None) or K is None or E.force_iterate(lp) 
            if need_iter and not iterate:
                iterate = True
                E.notes.setdefault('iter', '')
                continue
            final = lp; break
    if final is None: raise Unsupported('loop invariants did not stabilise')
    lp = final; lp.K = K; lp.cls = cls; lp.step = step; lp.D = D; lp.invs = cands
    lp.names = names
    if D: lp.L0 = info[1]
    E.loop_info.append(lp)
    if iterate:
        lp.mode = 'iterate'
        if E.iter_cb: E.iter_cb(E, lp)
        res = []
        for o in lp.exits:
            o.ev = st.ev + (('loop', lp),) + o.ev
            o.tags = dict(o.tags); o.tags.update({x: y for x, y in tags0.items() if x not in o.tags})
            res.append(o)
        return res
    lp.mode = 'family'
    # ---- families
    out = st.copy()
    for o in lp.latch: 
        pass
    kguards = [T.ble(ZERO, A(k)), T.blt(A(k), K)]
    fams = {}
    for o in lp.latch:
        ext = [x for x in o.pc[lp.nb:]]
        # the header's continue literal follows from k<K; digit facts are tracked separately
        ext = [x for x in ext if not S.prove(E.facts + list(st.pc) + kguards, x)]
        digatoms = set()
        for q in o.digs[len(st.digs):]: digatoms |= {q.x.id, q.y.id, q.z.id}
        ext = [x for x in ext if not (T.int_atoms(x) and T.int_atoms(x) <= digatoms | _gatoms(x) and _is_range(x, o.digs))]
        for r, lg in o.mem.items():
            base = st.log(r)
            new = lg[len(base):]
            if new and isinstance(new[0], Mark): new = new[1:]
            if r[0] == '%' and not new: continue
            for e in new:
                if isinstance(e, Mark): continue
                if isinstance(e, Store):
                    fams.setdefault(r, []).append(mkentry(E, lp, st, e, ext, o, k, K, D, step, info, kguards))
                elif isinstance(e, Fam):
                    f = Fam(e.bound + [k], e.guards + kguards + ext, e.entries, lp)
                    fams.setdefault(r, []).append(f)
                else: raise Unsupported('callee effect inside a summarised loop')
    check_interference(E, lp, st, fams, D, step, k)
    for r, fs in fams.items():
        seq = []
        for f in fs: seq.append(f)
        out.mem[r] = st.log(r) + tuple(seq)
    # exit values
    De = None
    if D:
        De = Dig(T.fresh('xe'), T.fresh('ye'), T.fresh('ze'), D.lo, D.n, flat=D.flat)
    for n in names:
        c, d = cls[n]
        if c == 'dig': out.env[n] = De.P3()[d]
        elif c == 'tmpl': out.env[n] = T.subst(lp.place[n], {D.x.id: A(De.x), D.y.id: A(De.y), D.z.id: A(De.z)})
        elif c == 'iv': out.env[n] = T.subst(lp.place[n], {k.id: K})
        elif c == 'inv': out.env[n] = entry[n]
        elif c == 'havoc': out.env[n] = placeholder(E, n, entry[n])
        elif c == 'red':
            out.env[n] = red_exit(E, lp, entry[n], lp.place[n], [d2[n] for d2 in lp.next], k, K, D, step, info)
    # execute the header once more and leave
    for I in hb.ins[:-1]:
        if I.op == 'call': 
            r = E.call(out, I)
        else: E.step(out, I)
    t = hb.ins[-1]
    out.prev = h
    out.tags = dict(out.tags); out.tags['at'] = hexit
    return [out]


def flt(v): return isinstance(v, F) or isinstance(v, list) and all(flt(x) or x is UNDEF for x in v)


def _gatoms(x): return {i for i in T.int_atoms(x) if T.Atom._byid[i].kind == 'sym'}


def _is_range(x, digs):
    for q in digs:
        if x in q.facts() or x in q.facts()[:4] or x is T.ble(T.as_p(q.lo[2]), A(q.z)): return True
    return False


def resplit(E, fn, st, h, cond, stop, stops):
    res = []
    for c in (cond, T.bnot(cond)):
        x = st.copy(); x.assume(c)
        if S.sat(E.facts + list(x.pc)) == 'unsat': continue
        x.tags = dict(x.tags); x.tags['phidone'] = True
        hb = fn.blocks[h]
        for ph in hb.phis:
            v = x.env[ph.res]
            if isinstance(v, T.ITE):
                r = E.decide(x, v.c)
                if r is not None: x.env[ph.res] = v.a if r else v.b
        res += do_loop(E, fn, x, h, stop, stops)
    return res


def step_ok(d, st, entry, E):
    return not any(T.Atom._byid[i].name.startswith('h') and '!' in T.Atom._byid[i].name for i in d.atoms()) and d.const() is not None or (d.const() is None and all(not T.Atom._byid[i].name.startswith(('h!', 'hp!', 'k!', 'x!', 'y!', 'z!')) for i in T.deps(d)) and not any(T.Atom._byid[i].kind == 'imem' for i in d.atoms()))


def make_cands(E, e0, pl, nxt, latches, n):
    out = []
    off = (lambda v: v.o) if isinstance(pl, Ptr) else (lambda v: v)
    p = off(pl); base = off(e0)
    ds = []
    for d in nxt:
        v = d[n]
        if isinstance(pl, Ptr) and not (isinstance(v, Ptr) and v.r == pl.r): return out
        if not isinstance(v, (P, Ptr)): return out
        ds.append(off(v) - p)
    out.append(lambda v: T.ble(base, off(v)))
    out.append(lambda v: T.ble(off(v), base))
    if not p.atoms(): return out
    aid = next(iter(p.atoms()))
    seen = set()
    for o, d in zip(latches, ds):
        for lit in o.pc:
            if lit.op == 'le':
                q = lit.a[0]
                c, r = coef(q, aid)
                if c is None or c.const() not in (1, -1): continue
                if T.deps(r) & {aid}: continue
                # v < u on the incrementing path: candidate v <= u ; c*v + r <= 0
                if c.const() == 1:
                    u = -r
                    for sl in (0, 1):
                        if (u.id, sl) in seen: continue
                        seen.add((u.id, sl))
                        out.append(lambda v, u=u, sl=sl: T.ble(off(v), u + sl))
    return out


def trip(E, st, k, leaves, exits, nb, hb, lp):
    """number of iterations from the single exit literal at the header"""
    hs = [o for o in leaves if o.prev == hb.name]
    if len(hs) != 1: return None
    ext = [x for x in hs[0].pc[nb:]]
    if len(ext) != 1: return None
    e = ext[0]
    if e.op == 'le' or e.op == 'eq' or (e.op == 'not' and e.a[0].op == 'eq'):
        p = e.a[0] if e.op != 'not' else e.a[0].a[0]
        c, r = coef(p, k.id)
        if c is None or c.const() is None or c.const() == 0: return None
        c = c.const()
        if any(T.Atom._byid[i].name.startswith(('h!', 'hp!')) for i in T.deps(r)): return None
        if k.id in T.deps(r): return None
        fs = E.facts + list(st.pc)
        if e.op == 'le':
            if c >= 0: return None
            c = -c      # exit when r - c*k <= 0
            need = T.ble(T.as_p(1 - c), r) if c > 1 else T.ble(ZERO, r)
            dd = E.decide(st, need)
            if dd is None: return ('split', need)
            if dd is False: return ZERO
            return r if c == 1 else T.idiv(r + (c - 1), C(c))
        if e.op == 'eq':
            if c > 0: c = -c; r = -r
            c = -c
            dd = E.decide(st, T.ble(ZERO, r))
            if dd is None: return ('split', T.ble(ZERO, r))
            if dd is False: raise Unsupported('loop may run past its bound (%r)' % (e,))
            if c != 1:
                if any(x % c for x in r.t.values()):
                    m = T.imod(r, C(c))
                    if not S.prove(fs, T.beq0(m)): raise Unsupported('loop count %r not a multiple of %d' % (r, c))
                    return T.idiv(r, C(c))
                return P({m: x // c for m, x in r.t.items()})
            return r
    return None


def has_sym(v, target):
    st = [v]; seen = set()
    while st:
        x = st.pop()
        if x is target: return True
        if isinstance(x, (F, B)):
            if x in seen: continue
            seen.add(x); st += [y for y in x.a if isinstance(y, (F, B))]
        elif isinstance(x, list): st += x
    return False


def reduction(pl, vs):
    if isinstance(pl, list):
        return all(isinstance(v, list) for v in vs) and all(reduction(p, [v[i] for v in vs]) for i, p in enumerate(pl))
    if not isinstance(pl, F) or pl.op != 's': return False
    for v in vs:
        if not isinstance(v, F): return False
        d = T.fsub(T.subst(v, {('s', pl.a[0]): F0}), F0)
        # v == pl + d
        for seed in (11, 12):
            p = T.PIT(seed)
            if p.ev(v) != (p.ev(pl) + p.ev(d)) % T.PRIME: return False
            if has_sym(d, pl): return False
    return True


SUMX = [T.atom('sym', 'sum:' + n, 'sum:' + n) for n in ('x', 'y', 'z')]
SUMI = T.atom('sym', 'sum:i', 'sum:i')


def red_exit(E, lp, e0, pl, vs, k, K, D, step, info):
    if isinstance(pl, list):
        return [red_exit(E, lp, e0[i], pl[i], [v[i] for v in vs], k, K, D, step, info) for i in range(len(pl))]
    if len(vs) != 1: raise Unsupported('reduction over several paths')
    if same(vs[0], pl): return e0
    d = T.subst(vs[0], {('s', pl.a[0]): F0})
    # split top-level sum by the voxel each addend depends on
    adds = bylane(E, lp, d, D)
    tot = e0
    for a in adds:
        tot = T.fadd(tot, mksum(E, lp, a, k, K, D, step, info))
    return tot


def bylane(E, lp, d, D):
    """group the addends that depend on the same voxel of the iteration"""
    adds = flatten(d)
    if not D: return adds and [sumf(adds)]
    gr = {}
    for a in adds:
        dp = T.deps(a)
        gr.setdefault(tuple(id(q) for q in lp.latch[0].digs if (q is D or q.base is D) and {q.x.id, q.y.id, q.z.id} & dp), []).append(a)
    return [sumf(g) for g in gr.values()]


def sumf(g):
    t = F0
    for a in g: t = T.fadd(t, a)
    return t


def flatten(d):
    if d.op == '+': return flatten(d.a[0]) + flatten(d.a[1])
    return [d]


def mksum(E, lp, a, k, K, D, step, info):
    dp = T.deps(a)
    if D:
        used = [q for q in lp.latch[0].digs if (q is D or q.base is D) and {q.x.id, q.y.id, q.z.id} & dp]
        if len(used) == 1:
            q = used[0]
            body = T.subst(a, {q.x.id: A(SUMX[0]), q.y.id: A(SUMX[1]), q.z.id: A(SUMX[2])})
            return T._F('sum', 'vox', info[1], K * step, step, q.j, body)
        if len(used) > 1: raise Unsupported('reduction mixes voxels')
    # IV loop
    return ksum(E, a, k, K)


def ksum(E, a, k, K):
    """sum_{k<K} a(k); the summand is expressed in the absolute row of the (strided) array it reads: row = base + step*k"""
    row = None
    for n in sorted(T.fatoms(a), key=lambda n: n.id):
        if n.op != 'mem' or n.a[0] not in E.regions: continue
        R = E.regions[n.a[0]].stride; off = n.a[2]
        c = off.t.get((k.id,), 0)
        if not R or not c or c % R or any(k.id in m and m != (k.id,) for m in off.t) or T.gcd_nonconst(off) % R: continue
        rest = off - A(k) * c
        rest = rest - (rest.t.get((), 0) % R)
        row = P({m: v // R for m, v in rest.t.items()}), c // R; break
    if row is None: return T._F('sum', 'iv', ZERO, K, 1, 0, T.subst(a, {k.id: A(SUMI)}))
    base, step = row
    return T._F('sum', 'row', base, K, step, 0, T.subst(a, {k.id: (A(SUMI) - base, step)}))


def mkentry(E, lp, st, e, ext, o, k, K, D, step, info, kguards):
    """one store of the loop body as a quantified entry"""
    from .engine import Fam, Store
    dp = T.deps(e.off)
    if D:
        used = [q for q in o.digs[len(st.digs):] if {q.x.id, q.y.id, q.z.id} & dp]
        if len(used) == 1:
            q = used[0]
            L0 = info[1]; lin = q.lin()
            g = q.facts()[:4] + [T.ble(T.as_p(q.lo[2]), A(q.z))]
            cnt = K * step
            g += [T.ble(L0, lin), T.blt(lin, L0 + cnt)]
            if step > 1: g.append(T.beq(T.imod(lin - L0, C(step)), C(q.j)))
            bound = []
            for qq in o.digs[len(st.digs):]: bound += [qq.x, qq.y, qq.z]
            bound.append(k)
            f = Fam(bound, g + ext, {}, lp)
            f.entries = {None: [Store(e.off, e.size, e.val, e.cond)]}
            f.dig = q
            return f
        if len(used) > 1: raise Unsupported('store address mixes voxels')
    f = Fam([k], kguards + ext, {}, lp)
    f.entries = {None: [Store(e.off, e.size, e.val, e.cond)]}
    f.dig = None
    return f


def check_interference(E, lp, st, fams, D, step, k):
    """no load of the body may see a store of an earlier iteration; stores of different iterations do not overlap
    unless the address determines the iteration"""
    from .engine import Fam, Store
    done = set()
    for (r, off, size, pc, digs) in lp.loads:
        reg = E.regions[r]
        if reg.additive: continue
        for f in fams.get(r, ()):
            for e in next(iter(f.entries.values())) if len(f.entries) == 1 else [x for v in f.entries.values() for x in v]:
                key = (r, off.id, size, e.off.id, e.size, pc)
                if key in done: continue
                done.add(key)
                clash(E, lp, st, reg, f, e, off, size, pc, digs, D, step, k)


def clash(E, lp, st, reg, f, e, off, size, pc, digs, D, step, k):
    from .engine import Fam, Store, State
    d = off - e.off
    g = T.gcd_nonconst(d)
    # renamed copy of the store's iteration
    ren = {b.id: A(T.fresh(b.name.split('!')[0] + "'", b.lo, b.hi)) for b in f.bound}
    off2 = T.subst(e.off, ren)
    d = off - off2
    g = T.gcd_nonconst(d)
    if g:
        m = d.t.get((), 0) % g
        if m >= e.size and m <= g - size: return
    else:
        c = d.t.get((), 0)
        if c >= e.size or -c >= size: return
    nb = [T.Atom._byid[next(iter(v.atoms()))] for v in ren.values()]
    f2 = Fam(nb, [T.subst(x, ren) for x in f.guards], {}, lp)
    e2 = Store(off2, e.size, F0, T.subst(e.cond, ren))
    s2 = st.copy(); s2.pc = pc
    try:
        r = E.unify(s2, reg, f2, e2, off, size)
    except Unsupported as x:
        raise Unsupported('possible loop-carried dependence through %s: %s' % (reg.name, x))
    if r is None: return
    sub, conds = r
    facts = E.facts + list(pc)
    if S.sat(facts + conds) == 'unsat': return
    q = getattr(f, 'dig', None)
    if q is not None:
        q2 = tuple(T.subst(ren[a.id], sub) for a in (q.x, q.y, q.z))
        if q.flat: q2 = (q2[0], T.as_p(q.lo[1]), q2[2])
        ld = None
        dp = T.deps(off)
        used = [w for w in digs if {w.x.id, w.y.id, w.z.id} & dp and (w is D or w.base is D)]
        if len(used) == 1:
            w = used[0]
            diff = q.lin(q2) - w.lin()
            if S.prove(facts + conds, T.ble(T.as_p(q.j - w.j - step + 1), diff)): return
        raise Unsupported('loop-carried dependence through %s (%r after %r)' % (reg.name, off, e.off))
    kk = ren.get(k.id)
    if kk is not None:
        kid = next(iter(kk.atoms()))
        if kid in sub:
            if S.prove(facts + conds, T.ble(A(k), sub[kid])): return
    raise Unsupported('loop-carried dependence through %s (%r after %r)' % (reg.name, off, e.off))
