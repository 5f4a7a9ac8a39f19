"""Contract context: builds the symbolic pre-state of a function, probes its
post-state, and (for counterexamples) materialises the same state natively."""
import ctypes, struct, random, math, re
from . import terms as T
from . import solver as S
from . import build
from .terms import P, F, B, Ptr, NULL, FnPtr, UNDEF, Bits, FromBits, C, ZERO, ONE, A, F0, F1, TRUE, FALSE, same
from .engine import Engine, State, Split, Store, Havoc, Fam, Mark, Spec, SZ, demangle, Abort
from .ir import Unsupported
from .layout import layout, GRID_F, FIELD_F


class Mismatch(Exception):
    pass


class Undecided(Exception):
    pass


class Ctx:
    def __init__(s, cfg, src, dims=None, extra_src=(), keep=None, opts=None, Pn=2):
        s.cfg = cfg; s.dims = dims; s.src = src; s.Pn = Pn; s.extra_src = list(extra_src)
        s.mode = 'bounded' if dims is not None else 'proof'
        post = (opts or {}).get('post', '')
        s.mod = build.module(src, cfg, keep=keep, post=post)
        s.E = Engine(s.mod, mode=s.mode, link=[build.module(x, cfg, keep=keep, post=post) for x in extra_src])
        s.st = State()
        s.obs = []           # (name, status, detail)
        s.opts = opts or {}
        s.setdims('')
        s.sizes = {}          # region -> bytes (native)
        s.fn = None; s.part = (0, 1); s.okver = set()

    def setdims(s, thin):
        """symbolic mesh; `thin` fixes one axis to a single cell ('x','y','z'), '2' makes every axis at least two cells, '' leaves all open"""
        s.thin = thin
        if s.dims is None:
            lo = 4 if thin == '2' else 3
            S3 = [C(3) if a == thin else T.sym('s' + a + ('_2' if thin == '2' else ''), lo) for a in 'xyz']
            s.sx, s.sy, s.sz = S3
            n = s.nx, s.ny, s.nz = s.sx - 2, s.sy - 2, s.sz - 2
            F = s.E.facts; del F[:]
            F.append(T.ble(1, s.nx * s.ny * s.nz))
            for a, b in ((0, 1), (0, 2), (1, 2)): F.append(T.ble(1, n[a] * n[b]))
            if thin == '2':
                a, b, c = [q - 1 for q in n]
                for q in (a * b * c, a * b, a * c, b * c): F.append(T.ble(1, q))
        else:
            s.nx, s.ny, s.nz = [C(d) for d in s.dims]
            s.sx, s.sy, s.sz = s.nx + 2, s.ny + 2, s.nz + 2
        s.N = s.nx * s.ny * s.nz
        s.nv = s.sx * s.sy * s.sz
        s._nf = len(s.E.facts)

    def reset(s):
        """fresh engine and memory for another run of the same contract (obligations accumulate)"""
        fs = list(s.E.facts[:s._nf]); notes = s.E.notes
        s.E = Engine(s.mod, fs, mode=s.E.mode, link=s.E.link); s.E.notes = notes
        s.st = State()

    def i(s, p):
        return p.const() if isinstance(p, P) else p

    # ---- layouts
    def L(s, *structs, headers=('src/grid/grid.h', 'src/field_advance/field_advance.h')):
        want = {}
        for x in structs:
            want[x] = {'grid_t': GRID_F, 'field_t': FIELD_F}[x]
        return layout(s.cfg, headers, want)

    # ---- standard regions
    def grid(s, extra=None, name='g'):
        G = s.L('grid_t')['grid_t']
        s.G = G
        k = {}
        for f in 'dt cvac eps0 x0 y0 z0 x1 y1 z1 dx dy dz dV rdx rdy rdz r8V'.split(): k[G[f]] = T.fsym('g.' + f)
        k[G['nx']], k[G['ny']], k[G['nz']] = s.nx, s.ny, s.nz
        k[G['sx']] = ONE; k[G['sy']] = s.sx; k[G['sz']] = s.sx * s.sy; k[G['nv']] = s.nv
        k.update(extra or {})
        kinds = {G['t0']: 'f64', G['step']: 'i64', G['rangel']: 'i64', G['rangeh']: 'i64'}
        for f in ('range', 'neighbor', 'mp'): kinds[G[f]] = 'ptr'
        for i in range(27): kinds[G['bc'] + 4 * i] = 'i32'
        s.E.region(name, known=k, kinds=kinds)
        s.sizes[name] = G['#']
        return Ptr(name, ZERO)

    def fields(s, name='f'):
        FL = s.L('field_t')['field_t']
        s.FL = FL
        kinds = {FL[x]: 'i16' for x in FIELD_F if 'mat' in x}
        s.E.region(name, stride=FL['#'], kinds=kinds, grid=(s.sx, s.sy))
        if s.dims is not None: s.sizes[name] = FL['#'] * s.i(s.nv)
        return Ptr(name, ZERO)

    def array(s, name, stride, kinds=None, n=None, dflt='f32', known=None, grid=None):
        s.E.region(name, stride=stride, kinds=kinds, dflt=dflt, known=known, grid=grid)
        if n is not None and s.dims is not None: s.sizes[name] = stride * s.i(n)
        return Ptr(name, ZERO)

    def struct(s, name, vals, size=None, kinds=None):
        s.E.region(name, known=dict(vals), kinds=kinds)
        s.sizes[name] = size or max(vals) + 8
        return Ptr(name, ZERO)

    def vox(s, x, y, z): return T.as_p(x) + s.sx * (T.as_p(y) + s.sy * T.as_p(z))

    def fld(s, comp, x, y, z, name='f'):
        """initial value of a field component"""
        return T.fmem(name, '', s.vox(x, y, z) * s.FL['#'] + s.FL[comp], 'f32')

    # ---- running
    def run(s, fn, args, st=None):
        nm = [x for m in [s.mod] + s.E.link for x in m.fns if demangle(x) == fn]
        if len(nm) != 1: raise Unsupported('function %s not found in %s' % (fn, s.src))
        s.fnname = nm[0]; s.fnargs = args
        outs = s.E.run(nm[0], args, st or s.st)
        outs = [(o, r) for o, r in outs if S.sat(s.E.facts + list(o.pc)) != 'unsat']
        return outs

    def window(s, st, r, Pn, N):
        """first item of rank r of Pn (and block size), from the distribution expression the code evaluated"""
        for (Q, n, p, at) in getattr(s.E, '_dist', {}).values():
            if n is Pn and p in (r, r + 1):
                for bb in (1, 2, 4, 8, 16, 32, 64, 128, 256):
                    if T.idiv(N, C(bb)) is Q: return bb, Q
        raise Unsupported('no work distribution found')

    def haswin(s, r, Pn):
        return any(n is Pn and p in (r, r + 1) for (Q, n, p, at) in getattr(s.E, '_dist', {}).values())

    def straggler(s, N):
        """block size the scalar code uses for the remainder (rank == n_pipeline)"""
        return None

    def pipe(s, fn, args, post, N=None, st=None, argn=3, straggle=None):
        """contract of a pipeline function: over all ranks the items 0..N-1 are handled exactly once.
        post(state, inwin, tag): inwin(rank) -> condition that item `rank` has been handled."""
        N = s.N if N is None else N
        st = st or s.st
        vec = re.search(r'_v(4|8|16)$', fn) is not None
        if s.mode == 'proof':
            r, Pn = T.sym('rank', 0), T.sym('np', 1)
            x = st.copy(); x.assume(T.blt(r, Pn) if vec else T.ble(r, Pn))
            outs = s.run(fn, [args, r, Pn], x)
            bs = set()
            tagged = []
            for o, rv in outs:
                last = s.E.decide(o, T.beq(r, Pn))
                for l in ((True, False) if last is None else (last,)):
                    y = o
                    if last is None: y = o.copy(); y.assume(T.beq(r, Pn) if l else T.blt(r, Pn))
                    if last is not None or S.sat(s.E.facts + list(y.pc)) != 'unsat': tagged.append((l, y))
            for last, o in sorted(tagged, key=lambda q: q[0]):
                if N.const() == 0:
                    lo = hi = ZERO
                elif last:
                    if not bs: raise Unsupported('straggler block not known')
                    b = min(bs); lo, hi = T.idiv(N, C(b)) * b, N
                else:
                    b, Q = s.window(o, r, Pn, N)
                    lo, hi = s.E.distI(o, Q, Pn, r) * b, s.E.distI(o, Q, Pn, r + 1) * b
                    bs.add(b)
                w = lambda k, lo=lo, hi=hi: T.band(T.ble(lo, k), T.blt(k, hi))
                w.lo, w.hi, w.rank = lo, hi, r
                if last and bs and N.const() != 0: w.at = s.E.distI(o, s.window(o, r, Pn, N)[1] if s.haswin(r, Pn) else T.idiv(N, C(b)), Pn, r) * b
                post(o, w, fn + (' remainder' if last else ''))
            def abut():
                if N.const() == 0: return
                if len(bs) != 1: raise Mismatch('ranks of %s use different block sizes %r: items lost or repeated' % (fn, bs))
                if vec and straggle is not None and set(straggle) != bs: raise Mismatch('vector ranks cover blocks of %r, the remainder starts at blocks of %r' % (bs, straggle))
            s.ob(fn + '/ranks abut', abut)
            s.ob(fn + '/both cases reached', lambda: None if outs else s._vac())
            s.blocks = bs
            return outs
        Pc = s.Pn
        sts = [(st, None)]
        for k in range(Pc + 1):
            nm = fn if (k < Pc or not vec) else re.sub(r'_v\d+$', '_scalar', fn)
            nx = []
            for x, _ in sts: nx += s.run(nm, [args, C(k), C(Pc)], x)
            sts = nx
        for k, (o, rv) in enumerate(sts): post(o, lambda k: TRUE, '%s[P=%d,%d]' % (fn, Pc, k))
        return sts

    def _vac(s): raise Unsupported('vacuous: no reachable final state')

    # ---- obligations
    def ob(s, name, f):
        try:
            r = f()
            if r is False: s.obs.append((name, 'refuted', ''))
            else: s.obs.append((name, 'ok', r if isinstance(r, str) else ''))
        except Mismatch as m: s.obs.append((name, 'refuted', str(m)[:1500]))
        except (Unsupported, Undecided) as u: s.obs.append((name, 'unsupported', str(u)[:600]))
        except Split as u: s.obs.append((name, 'unsupported', 'undecided %r' % (u.b,)))
        except (KeyError, TypeError, AttributeError, ValueError, RecursionError, IndexError) as u:
            import traceback
            s.obs.append((name, 'unsupported', 'tool limit: ' + traceback.format_exc()[-600:]))

    def prove(s, st, b, what=''):
        r = s.E.decide(st, b)
        if r is True: return True
        if r is False: raise Mismatch('%s: %r is false' % (what, b))
        raise Undecided('%s: cannot prove %r' % (what, b))

    def cases(s, st, f, leaves=None):
        """run f(state) over all case splits it asks for"""
        work = [st]; n = 0
        while work:
            x = work.pop(); n += 1
            if n > 4000: raise Unsupported('too many cases')
            y = x.copy()
            if s.mode != 'native':
                t, more, dead = s.E.norm(x)
                if dead: continue
                for l in more: y.assume(l)
                if more and S.sat(s.E.facts + list(y.pc)) == 'unsat': continue
                x = y.copy()
            try: f(y)
            except Split as sp:
                for c in (sp.b, T.bnot(sp.b)):
                    z = x.copy(); z.assume(c)
                    if S.sat(s.E.facts + list(z.pc)) != 'unsat': work.append(z)
                continue
            if leaves is not None: leaves.append(x)
        return n

    def equal(s, st, got, want, what):
        """got == want as reals / integers, under st; raises Split for undecided conditions"""
        if same(got, want): return
        if got is UNDEF: raise Mismatch('%s: undefined value, expected %r' % (what, want))
        if isinstance(want, F) and isinstance(got, (P, FromBits, Bits)):
            got = s.E.conv(st, got, _FT)
            got = s.E.tof(got)
        if isinstance(want, P) and isinstance(got, F) and got.op == 'c' and got.a[0].denominator == 1: got = C(int(got.a[0]))
        if isinstance(want, F) and isinstance(got, F):
            s.feq(st, got, want, what); return
        if isinstance(want, P) and isinstance(got, P):
            b = T.beq(got, want)
            r = s.E.decide(st, b)
            if r is True: return
            hv = [T.Atom._byid[i] for i in T.deps(got - want)]
            hv = [a for a in hv if a.name.startswith(('h!', 'hp!')) or a.kind == 'imem' and (a.meta or {}).get('ver')]
            if hv: raise Undecided('%s: depends on %r' % (what, hv[0]))
            if r is False: raise Mismatch('%s: got %r, expected %r when %r' % (what, got, want, st.pc[-6:]))
            raise Split(b) if S.sat(s.E.facts + list(st.pc) + [T.bnot(b)]) == 'unsat' else Mismatch('%s: got %r, expected %r when %r' % (what, got, want, st.pc[-6:]))
        if isinstance(want, P) and isinstance(got, (T.ITE, B, T.Mask)):
            s.equal(st, s.E.toint(st, got), want, what); return
        raise Mismatch('%s: got %r, expected %r when %r' % (what, got, want, st.pc[-6:]))

    def feq(s, st, a, b, what):
        sub = eqsubst(st.pc)
        if sub: a = T.subst(a, sub); b = T.subst(b, sub)
        try: return s.feq0(st, a, b, what)
        except Mismatch:
            # equalities implied by the inequalities of the path
            facts = s.E.facts + list(st.pc); more = []
            for l in st.pc:
                if l.op == 'le' and isinstance(l.a[0], P) and any(T.Atom._byid[m[0]].name in ('px', 'py', 'pz') for m in l.a[0].t if len(m) == 1):
                    q = T.beq0(l.a[0])
                    if q.op != 'const' and q not in st.pc and S.prove(facts, q): more.append(q)
                n = T.bnot(l)
                if n.op == 'eq' and isinstance(n.a[0], P) and any(T.Atom._byid[m[0]].name in ('px', 'py', 'pz') for m in n.a[0].t if len(m) == 1):
                    for k in (1, -1):
                        q = T.beq0(n.a[0] + k)
                        if q.op != 'const' and q not in st.pc and S.prove(facts, q): more.append(q); break
            if not more: raise
            sub = eqsubst(list(st.pc) + more)
            return s.feq0(st, T.subst(a, sub), T.subst(b, sub), what)

    def feq0(s, st, a, b, what):
        ok = 0; seed = 1
        while ok < 2:
            p = PIT2(seed, s.E, st); seed += 1
            x = p.ev(a); y = p.ev(b)
            if p.fail:
                if seed > 3000: raise Undecided(what + ': identity test did not find a sample')
                continue
            if x != y:
                h = [n for n in T.fatoms(T.fsub(a, b)) if n.op == 's' and str(n.a[0]).startswith('hf!')]
                h = h or [n for n in T.fatoms(T.fsub(a, b)) if n.op == 'mem' and n.a[1] and n.a[1] not in s.okver]
                if h: raise Undecided('%s: depends on %r' % (what, h[0]))
                raise Mismatch('%s:\n  got      %s\n  expected %s\n  when %r' % (what, T.fstr(a, 9)[:500], T.fstr(b, 9)[:500], st.pc[-30:]))
            ok += 1

    def probe(s, st, region, off, size, want, what, leaves=None):
        """post-state value at region+off equals want(st) (a value, or a callable that may split)"""
        def f(x):
            v = s.E.lookup(x, region, off, size)
            w = want(x) if callable(want) else want
            if w is None:   # unchanged
                w = s.E.initval(x, s.E.regions[region], off, size, '', None)
            s.equal(x, v, w, what)
        return s.cases(st, f, leaves)

    def maywrite(s, st, region, c, n, stride):
        """can an entry of the region's write log touch bytes [c, c+n) of an element? (syntactic)"""
        def hit(off, size):
            if any(k % stride for m, k in off.t.items() if m): return True
            b = off.t.get((), 0) % stride
            return any((b + i) % stride in range(c, c + n) for i in range(size))
        for e in st.log(region):
            if isinstance(e, Store):
                if hit(e.off, e.size): return True
            elif isinstance(e, Fam):
                for x in (e.entries.get(region) or e.entries.get(None) or ()):
                    if hit(x.off, x.size): return True
            elif isinstance(e, Spec) and getattr(e, 'bytes', None) is not None:
                if any(x in range(c - 3, c + n) for x in e.bytes): return True
            elif isinstance(e, Mark): pass
            else: return True
        return False

    def frame(s, st, region, comps, spec, tag, lo=(0, 0, 0), words=None):
        """every word of every voxel of a grid array: spec(x, comp, (X,Y,Z), state)->value or None (unchanged)"""
        reg = s.E.regions[region]
        inv = {}
        for f, c in comps.items():
            if f != '#': inv[c] = f
        names = words or [f for f in comps if f != '#']
        if s.mode == 'proof':
            X, Y, Z = T.sym('px', 0), T.sym('py', 0), T.sym('pz', 0)
            st = st.copy()
            for v, n in ((X, s.sx), (Y, s.sy), (Z, s.sz)): st.assume(T.blt(v, n))
            pts = [(X, Y, Z)]
        else:
            pts = [(C(x), C(y), C(z)) for z in range(s.i(s.sz)) for y in range(s.i(s.sy)) for x in range(s.i(s.sx))]
        if not st.log(region) and s.mode != 'proof' : pass
        base = [st]
        for f in names:
            sz = SZ[reg.kinds.get(comps[f], reg.dflt)]

            def go(f=f):
                nonlocal base
                n = 0
                if s.mode == 'proof' and not s.maywrite(st, region, comps[f], sz, comps['#']):
                    # no write can reach this word: the contract must not require a change
                    x0 = st.copy(); x0.mem[region] = ()
                    for p in pts: n += s.probe(x0, region, s.vox(*p) * comps['#'] + comps[f], sz, lambda x: spec(x, f, p), '%s.%s' % (region, f))
                    return '%d cases, never written' % n
                for p in pts:
                    off = s.vox(*p) * comps['#'] + comps[f]
                    if s.mode == 'proof':
                        lv = []
                        for b in base: n += s.probe(b, region, off, sz, lambda x: spec(x, f, p), '%s.%s' % (region, f), lv)
                        base = lv if len(lv) < 2 * max(40, len(base)) else [st]
                    else: n += s.probe(st, region, off, sz, lambda x: spec(x, f, p), '%s.%s%s' % (region, f, tuple(s.i(q) for q in p)))
                return '%d cases' % n
            s.ob('%s/%s' % (tag, f), go)

    def untouched(s, st, allowed, tag='frame'):
        def f():
            for r, l in st.mem.items():
                if r[0] == '%' or r in allowed: continue
                if any(isinstance(e, (Store, Fam, Havoc, Spec)) for e in l): raise Mismatch('writes to %s, which its contract does not allow' % r)
        s.ob(tag + '/frame', f)

    def interior(s, p):
        X, Y, Z = p
        return T.band(T.ble(1, X), T.ble(X, s.nx), T.ble(1, Y), T.ble(Y, s.ny), T.ble(1, Z), T.ble(Z, s.nz))

    def rank3(s, p): return (p[0] - 1) + s.nx * ((p[1] - 1) + s.ny * (p[2] - 1))


from .ir import FLOAT as _FT


def eqsubst(pc):
    """substitution from the equalities of a path condition (atom with coefficient +-1)"""
    sub = {}
    for l in pc:
        if l.op != 'eq' or not isinstance(l.a[0], P): continue
        q = T.subst(l.a[0], sub) if sub else l.a[0]
        best = None
        for m, k in q.t.items():
            if len(m) == 1 and k in (1, -1):
                at = T.Atom._byid[m[0]]
                if sum(m[0] in mm for mm in q.t) > 1: continue
                rank = 0 if at.name in ('px', 'py', 'pz') else 1 if '!' in at.name else 2
                if best is None or rank < best[0]: best = (rank, m[0], k)
        if best is None: continue
        _, i, k = best
        v = A_(i) - q if k == 1 else A_(i) + q
        if i in T.deps(v): continue
        sub = {j: T.subst(w, {i: v}) for j, w in sub.items()}
        sub[i] = v
    return sub


def A_(i): return T.A(T.Atom._byid[i])


class PIT2(T.PIT):
    """identity test that resolves conditions from the path, splitting when undecided"""
    def __init__(s, seed, E, st):
        super().__init__(seed)
        s.E = E; s.S = st; s.dec = st.tags.setdefault('_dec', {}) if False else {}

    def tv(s, b):
        if b.op == 'const': return b.a[0]
        r = s.dec.get(b)
        if r is None:
            s.dec[b] = r = s.E.need(s.S, b)
        return r
