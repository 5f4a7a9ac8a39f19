"""Symbolic executor / verification-condition generator over the LLVM IR of the
real functions.  Machine integers are mathematical integers, floating-point
arithmetic is real arithmetic (both are listed assumptions of every check built
on it)."""
import re, sys
from fractions import Fraction
from . import terms as T
from .terms import P, F, B, Ptr, NULL, FnPtr, UNDEF, Bits, FromBits, Mask, ITE, Opq, C, ZERO, ONE, A, F0, F1, TRUE, FALSE, same
from . import solver as S
from .ir import Unsupported, loops, postdom, Ins
sys.setrecursionlimit(20000)


class Split(Exception):
    def __init__(s, b): s.b = b


class Refuted(Exception):
    """the code violates a side obligation (e.g. out-of-bounds, loop-carried dependence proven)"""


# ------------------------------------------------------------------ regions
class Region:
    def __init__(s, name, stride=None, kinds=None, known=None, grid=None, additive=False, dflt='f32', size=None, symval=None):
        s.name = name; s.stride = stride; s.kinds = kinds or {}; s.known = known or {}
        s.grid = grid            # (A, B): sx, sy polynomials (single atoms) -> offsets are digits
        s.additive = additive; s.dflt = dflt; s.size = size; s.symval = symval
        s.zero = False

    def __repr__(s): return s.name

    def kind(s, off):
        c = off.const()
        if s.stride:
            if T.gcd_nonconst(off) % s.stride == 0: c = off.t.get((), 0) % s.stride
            elif c is not None: c %= s.stride
            else:
                g = T.gcd_nonconst(off)
                if g and g % 4 == 0: return s.dflt
                return s.dflt
        if c is None: return s.dflt
        return s.kinds.get(c, s.dflt)


SZ = {'f32': 4, 'i32': 4, 'f64': 8, 'i64': 8, 'ptr': 8, 'i16': 2, 'i8': 1}


class Fam:
    """all stores of one loop: for every value of the bound atoms satisfying guards"""
    def __init__(s, bound, guards, entries, loop):
        s.bound = bound; s.guards = guards; s.entries = entries; s.loop = loop


class Spec:
    """effect of a callee given by its contract: fn(eng, st, off, size) -> (cond B, value) or None"""
    def __init__(s, fn): s.fn = fn


class Havoc:
    """arbitrary contents (all of the region, or only the given byte ranges of it)"""
    def __init__(s, ver, rng=None): s.ver = ver; s.rng = rng

    def misses(s, off, size):
        if s.rng is None: return False
        c = off.const()
        return c is not None and all(c + size <= o or o + n <= c for o, n in s.rng)


class Mark:
    def __init__(s, loop): s.loop = loop


class Store:
    __slots__ = ('off', 'size', 'val', 'cond')

    def __init__(s, off, size, val, cond=TRUE): s.off = off; s.size = size; s.val = val; s.cond = cond

    def __repr__(s): return '[%r:%d]=%r' % (s.off, s.size, s.val)


# ------------------------------------------------------------------ digits
class Dig:
    """mixed-radix voxel digits (x,y,z), xl<=x<xl+nx, yl<=y<yl+ny; lin() is the voxel's rank"""
    def __init__(s, x, y, z, lo, n, base=None, j=0, flat=False):
        s.x, s.y, s.z, s.lo, s.n, s.base, s.j = x, y, z, lo, n, base, j
        s.flat = flat        # two digits only: the middle one is fixed at its lower bound

    def P3(s): return (A(s.x), T.as_p(s.lo[1]) if s.flat else A(s.y), A(s.z))

    def lin(s, p=None):
        x, y, z = p or s.P3()
        return (x - s.lo[0]) + s.n[0] * ((y - s.lo[1]) + s.n[1] * (z - s.lo[2]))

    def facts(s, p=None):
        x, y, z = p or s.P3()
        out = []
        for v, l, n in zip((x, y, z), s.lo, s.n):
            out += [T.ble(T.as_p(l), v), T.blt(v, T.as_p(l) + n)]
        return out


class State:
    __slots__ = ('pc', 'mem', 'ev', 'env', 'digs', 'prev', 'ret', 'tags')

    def __init__(s):
        s.pc = (); s.mem = {}; s.ev = (); s.env = {}; s.digs = (); s.prev = None; s.ret = None; s.tags = {}

    def copy(s):
        n = State(); n.pc = s.pc; n.mem = dict(s.mem); n.ev = s.ev; n.env = dict(s.env); n.digs = s.digs; n.prev = s.prev; n.ret = s.ret; n.tags = dict(s.tags)
        return n

    def assume(s, b):
        if b is TRUE: return
        if b.op == 'and':
            for x in b.a: s.assume(x)
            return
        if b not in s.pc: s.pc = s.pc + (b,)

    def log(s, r): return s.mem.get(r, ())

    def event(s, *e): s.ev = s.ev + (e,)


class Abort(Exception):
    pass


class Engine:
    def __init__(s, mod, facts=(), contracts=None, link=(), unroll=4096, mode='proof'):
        s.mod = mod; s.facts = list(facts); s.contracts = contracts or {}; s.link = list(link)
        s.regions = {}; s.unroll = unroll; s.mode = mode
        s.loopstack = []
        s.notes = {}          # assumptions exercised
        s.loop_info = []      # summarised loops
        s.side = []           # side obligations (name, ok)
        s.fuel = 2000000
        s.maxstates = 3000
        s.nalloca = 0
        s.iter_cb = None; s.tent = 0; s.merge_cb = None
        s.on_store = None
        s.loop_cb = None
        s.depth = 0
        s.trace = False

    # -------------------------------------------------- facts / decisions
    def all_facts(s, st): return s.facts + list(st.pc)

    def decide(s, st, b):
        if b.op == 'const': return b.a[0]
        if b in st.pc: return True
        nb = T.bnot(b)
        if nb in st.pc: return False
        if b.op in ('flt', 'feq', 'atom'):
            return s.decide_float(st, b)
        if b.op == 'not' and b.a[0].op in ('flt', 'feq', 'atom'):
            r = s.decide_float(st, b.a[0])
            return None if r is None else (not r)
        if b.op in ('and', 'or') and S._has_float(b):
            rs = [s.decide(st, x) for x in b.a]
            if b.op == 'and':
                if any(r is False for r in rs): return False
                if all(r is True for r in rs): return True
            else:
                if any(r is True for r in rs): return True
                if all(r is False for r in rs): return False
            # entailed by a recorded disjunction?
            return None
        fs = s.all_facts(st)
        if S.prove(fs, b): return True
        if b.op == 'and' and all(S.prove(fs, x) for x in b.a): return True
        if S.prove(fs, nb): return False
        if b.op == 'or' and all(S.prove(fs, T.bnot(x)) for x in b.a): return False
        return None

    def norm(s, st):
        """what the comparisons recorded on the path say about one another:
        (truth of conditions, further literals, path contradictory)"""
        pc = st.pc
        c = s.__dict__.setdefault('_norm', {})
        r = c.get(pc)
        if r is not None: return r
        hard = [l for l in pc if T.has_ite(l) or l.op in ('and', 'or') and S._has_float(l)]
        t = {}; more = []; dead = False

        def note(l):
            nonlocal dead
            if l.op == 'and':
                for y in l.a: note(y)
                return
            b, v = (l.a[0], FALSE) if l.op == 'not' else (l, TRUE)
            if t.get((False, b.id), v) is not v: dead = True
            t[(False, b.id)] = v
            if b.op in ('flt', 'feq') and not T.has_ite(b):
                w = s.implied(lits, b)
                if w is not None and w is not (v is TRUE): dead = True
                lits.append(l)
        lits = []
        for l in pc:
            if S._has_float(l): note(l)
        if hard and not dead:
            for i in range(6):
                n = 0
                for y in leaf_literals(hard):
                    if (False, y.id) in t: continue
                    v = s.implied(list(pc) + more, y)
                    if v is not None: note(y if v else T.bnot(y)); n += 1
                for j, l in enumerate(hard):
                    b = l.a[0] if l.op == 'not' else l
                    u = dict(t); u.pop((False, b.id), None)
                    l2 = T.subst(l, u)
                    if l2 is l: continue
                    if l2 is FALSE: dead = True; break
                    if l2 is TRUE: continue
                    if l2 not in more and l2 not in pc: more.append(l2); note(l2); n += 1
                    hard[j] = l2
                if not n or dead: break
        r = (t, tuple(more), dead)
        if len(c) > 4000: c.clear()
        c[pc] = r
        return r

    def decide_float(s, st, b):
        t, more, dead = s.norm(st)
        if T.has_ite(b):
            b2 = T.subst(b, t)
            if b2 is not b:
                if b2.op in ('flt', 'feq') and not T.has_ite(b2): return s.decide(st, b2) if b2 not in more else True
                return s.decide(st, b2)
            return None
        # same comparison up to real-arithmetic identity with a recorded literal, and trichotomy
        v = t.get((False, b.id))
        if v is not None: return v is TRUE
        if b.op not in ('flt', 'feq'): return None
        return s.implied(st.pc + more, b)

    def implied(s, lits, b):
        """truth of a comparison implied by one recorded comparison of the same quantity"""
        k = T.fingerprint(T.fsub(b.a[0], b.a[1]))
        if k is None: return None
        lt = gt = eq = None
        for l in lits:
            x = l.a[0] if l.op == 'not' else l
            if x.op not in ('flt', 'feq'): continue
            kk = T.fingerprint(T.fsub(x.a[0], x.a[1]))
            if kk is None: continue
            c = T.relate(kk, k)
            if not c: continue
            if T.has_sqrt(b.a[0]) | T.has_sqrt(b.a[1]) and not T.rescaled(T.fsub(b.a[0], b.a[1]), T.fsub(x.a[0], x.a[1]), c): continue
            w = l is x
            if x.op == 'feq': eq = w
            elif c > 0: lt = w
            else: gt = w
        if b.op == 'flt':
            if lt is not None: return lt
            if gt or eq: return False
            if gt is False and eq is False: return True
            return s.bounded(lits, b)
        else:
            if eq is not None: return eq
            if lt or gt: return False
            if lt is False and gt is False: return True
        return None

    def bounded(s, lits, b):
        """truth of a comparison by transitivity of the recorded ones"""
        if s.cyclic(list(lits) + [b]): return False
        if s.cyclic(list(lits) + [T.bnot(b)]): return True
        return None

    def cyclic(s, lits):
        """do the comparisons contradict one another by transitivity?"""
        base = []; edges = []; consts = {}

        def node(x):
            """(node, constant c) with x == c node"""
            if x.op == 'c': return None, x.a[0]
            k = T.fingerprint(x)
            if k is None: return None
            for i, (y, ky) in enumerate(base):
                c = T.relate(ky, k)
                if c and (not T.has_sqrt(x) or T.rescaled(x, y, c)): return i, c
            base.append((x, k)); return len(base) - 1, Fraction(1)
        for l in lits:
            q = l.a[0] if l.op == 'not' else l
            if q.op not in ('flt', 'feq') or T.has_ite(q): continue
            if q.op == 'feq' and l is not q: continue
            u, v = node(q.a[0]), node(q.a[1])
            if u is None or v is None: continue
            (i, c), (j, d) = u, v
            if i is None and j is None: continue
            if i is None: i, c = ('k', c / d), d; consts[i] = i[1]
            elif j is None: j, d = ('k', d / c), c; consts[j] = j[1]
            if c != d or not c: continue
            if c < 0: i, j = j, i
            if q.op == 'feq': edges += [(i, j, 0), (j, i, 0)]
            elif l is q: edges.append((i, j, 1))
            else: edges.append((j, i, 0))
        ks = sorted(consts, key=lambda k: k[1])
        edges += [(x, y, 1) for x, y in zip(ks, ks[1:])]
        succ = {}
        for i, j, w in edges: succ.setdefault(i, []).append((j, w))
        for i, j, w in edges:
            if not w: continue
            seen = {j}; st = [j]
            while st:
                x = st.pop()
                if x == i: return True
                for y, _ in succ.get(x, ()):
                    if y not in seen: seen.add(y); st.append(y)
        return False

    def prove(s, st, b): return s.decide(st, b) is True

    def need(s, st, b):
        """truth value of b, splitting the state if undecided"""
        r = s.decide(st, b)
        if r is None:
            if T.has_ite(b): b = first_choice(T.subst(b, s.norm(st)[0]))
            raise Split(b)
        return r

    # -------------------------------------------------- regions / memory
    def region(s, name, **kw):
        r = s.regions.get(name)
        if r is None:
            r = Region(name, **kw); s.regions[name] = r
        return r

    def force_iterate(s, lp): return False

    def anyval(s, reg, size, ty):
        """arbitrary value, used only while a loop candidate is being refined"""
        T._fresh[0] += 1
        if ty is not None and ty.k == 'int' and reg.dflt in ('f32', 'f64') and not reg.kinds and SZ[reg.dflt] == size: return T.fsym('any!%d' % T._fresh[0])
        if ty is not None and ty.k in ('float', 'double') or ty is None and size == 4: return T.fsym('any!%d' % T._fresh[0])
        if ty is not None and ty.k == 'int': return A(T.fresh('h'))
        return None

    def lookup(s, st, r, off, size, ty=None):
        if not s.tent: return s.lookup0(st, r, off, size, ty)
        try: return s.lookup0(st, r, off, size, ty)
        except Unsupported:
            v = s.anyval(s.regions[r], size, ty)
            if v is None: raise
            return v
        except Split as sp:
            if not any(T.Atom._byid[i].name.startswith(('h!', 'hp!')) for i in T.int_atoms(sp.b)): raise
            v = s.anyval(s.regions[r], size, ty)
            if v is None: raise
            return v

    def lookup0(s, st, r, off, size, ty=None):
        """value at [off, off+size) of region r"""
        log = st.log(r)
        reg = s.regions[r]
        if reg.additive: return s.curload(st, reg, off, size)
        act = getattr(s, 'active', None)
        if act:
            marked = {e.loop for e in log if isinstance(e, Mark)}
            for l in act:
                if l not in marked and l.ver is None: l.loads.append((r, off, size, st.pc, st.digs))
        i = len(log)
        oc = off.const()
        if oc is not None and i > 24:
            m = s.__dict__.setdefault('_idx', {})
            ent = m.get(id(log))
            if ent is None:
                d = {}
                for e in log:
                    if not (isinstance(e, Store) and e.off.const() is not None and e.cond is TRUE): d = None; break
                    d[e.off.const()] = e
                m[id(log)] = ent = (log, d, max([e.size for e in log]) if d is not None else 0)
                if len(m) > 64:
                    for kk in list(m)[:32]: del m[kk]
            d = ent[1]
            if d is not None:
                e = d.get(oc)
                if e is not None and e.size == size and not any((q in d) for q in range(oc + 1, oc + size)) and not any((q in d and q + d[q].size > oc) for q in range(oc - ent[2] + 1, oc)): return e.val
                if e is None and not any((q in d) for q in range(oc - ent[2] + 1, oc + size)): return s.initval(st, reg, off, size, '', ty)
        while i:
            i -= 1
            e = log[i]
            if isinstance(e, Store):
                k = s.overlap(st, reg, e.off, e.size, off, size)
                if k == 'no': continue
                if k == 'same':
                    if e.cond is not TRUE and not s.need(st, e.cond): continue
                    return e.val
                return s.partial(st, r, off, size, e, k, i)
            if isinstance(e, Mark):
                e.loop.loads.append((r, off, size, st.pc, st.digs)); continue
            if isinstance(e, Havoc) and e.misses(off, size): continue
            if isinstance(e, Havoc): return s.initval(st, reg, off, size, e.ver, ty)
            if isinstance(e, Spec):
                v = e.fn(s, st, off, size)
                if v is None: continue
                c, val = v
                if s.need(st, c): return val
                continue
            if isinstance(e, Fam):
                v = s.famlookup(st, reg, e, off, size)
                if v is not None: return v[0]
                continue
            raise Unsupported('log entry')
        return s.initval(st, reg, off, size, '', ty)

    def partial(s, st, r, off, size, e, k, i):
        # byte-level overlap: k = offset of load relative to store
        if 0 <= k and k + size <= e.size:
            v = e.val
            if isinstance(v, Opq) and v.op == 'cat':
                w = e.size // len(v.a)
                if size == w and k % w == 0: return v.a[k // w]
            if isinstance(v, P) and v.const() is not None:
                return C(_sgn((v.const() >> (8 * k)) & ((1 << (8 * size)) - 1), 8 * size))
            if isinstance(v, P) and size == 4 and e.size == 8 and k == 0: return v      # little-endian, value assumed to fit
        if size in (8, 16) and size > e.size:
            h = size // 2
            a = s.lookup(st, r, off, h); b = s.lookup(st, r, off + h, h)
            return mkcat([a, b], size * 8)
        if size == 4 and e.size == 2 or (size == 2 and e.size == 1) or (size == 4 and e.size == 1):
            h = size // 2
            a = s.lookup(st, r, off, h); b = s.lookup(st, r, off + h, h)
            return mkcat([a, b], size * 8)
        raise Unsupported('partial overlap at %s+%r (%d of %d, delta %d)' % (r, off, size, e.size, k))

    def overlap(s, st, reg, o1, n1, o2, n2):
        """store [o1,o1+n1) against load [o2,o2+n2): 'no' | 'same' | delta"""
        d = o2 - o1
        c = d.const()
        if c is not None:
            if c == 0 and n1 == n2: return 'same'
            if c >= n1 or -c >= n2: return 'no'
            return c
        g = T.gcd_nonconst(d); m = d.t.get((), 0) % g
        if m >= n1 and m <= g - n2: return 'no'
        # candidates for overlap: d in (-n2, n1): with d = m mod g
        al = reg.stride or 1
        cand = [t for t in range(-n2 + 1, n1) if (t - m) % g == 0]
        if not cand: return 'no'
        if cand == [0] and n1 == n2:
            z = s.eqoff(st, reg, o1, o2)
            if z is True: return 'same'
            if z is False: return 'no'
            raise Split(z)
        for t in cand:
            z = s.eqoff(st, reg, o1 + t, o2)
            if z is True: return 'same' if (t == 0 and n1 == n2) else t
            if z is False: continue
            raise Split(z)
        return 'no'

    def eqoff(s, st, reg, a, b):
        """True / False / undecided condition for a == b"""
        d = a - b
        eq = T.beq0(d)
        if eq.op == 'const': return eq.a[0]
        if eq in st.pc: return True
        if T.bnot(eq) in st.pc: return False
        if reg.grid and reg.stride:
            da = s.digits(st, reg, a); db = s.digits(st, reg, b)
            if da and db:
                if da[0] != db[0]: return False
                und = []
                for u, v in zip(da[1], db[1]):
                    q = T.beq(u, v)
                    r = s.decide(st, q)
                    if r is False: return False
                    if r is None: und.append(q)
                if not und: return True
                return und[0]
        r = s.decide(st, eq)
        if r is not None: return r
        return eq

    def digits(s, st, reg, off, extra=()):
        """off -> (byte within element, (X,Y,Z)) or None"""
        key = ('dg', reg.name, off.id, st.pc, tuple(extra))
        memo = s.__dict__.setdefault('_dgmemo', {})
        if key in memo: return memo[key]
        memo[key] = r = s._digits(st, reg, off, extra)
        return r

    def _digits(s, st, reg, off, extra=()):
        c = off.t.get((), 0) % reg.stride
        q = {}
        for m, k in off.t.items():
            kk = k - c if m == () else k
            if kk % reg.stride: return None
            if kk: q[m] = kk // reg.stride
        if () not in off.t and c: return None
        q = P(q)
        if reg.grid == 1: return (c, (q,))
        sx, sy = reg.grid
        cx, cy = sx.const(), sy.const()
        if cx is not None and cy is not None and q.const() is not None:
            v = q.const()
            X = v % cx; v //= cx
            return (c, (C(X), C(v % cy), C(v // cy)))

        def split(q, base):
            """q = low + base*high, by the monomials of q"""
            lo = {}; hi = {}
            bc = base.const(); ba = None if bc is not None else next(iter(base.atoms()))
            for m, k in q.t.items():
                if bc is not None:
                    if m == (): 
                        if k % bc: lo[m] = k % bc
                        if k // bc: hi[m] = k // bc
                    elif k % bc == 0: hi[m] = k // bc
                    else: lo[m] = k
                elif ba in m:
                    l = list(m); l.remove(ba); l = tuple(l); hi[l] = hi.get(l, 0) + k
                else: lo[m] = k
            return P(lo), P(hi)
        X, q = split(q, sx); Y, Z = split(q, sy)
        fs = s.all_facts(st) + list(extra)

        def rng(v, n): return S.prove(fs, T.ble(0, v)) and S.prove(fs, T.blt(v, n))
        for cx_ in (0, 1, -1, 2, -2):
            if rng(X + sx * cx_, sx):
                X = X + sx * cx_; Y = Y - cx_; break
        else: return None
        for cy_ in (0, 1, -1, 2, -2):
            if rng(Y + sy * cy_, sy):
                Y = Y + sy * cy_; Z = Z - cy_; break
        else: return None
        return (c, (X, Y, Z))

    def famlookup(s, st, reg, fam, off, size):
        for e in reversed(fam.entries.get(reg.name) or fam.entries.get(None) or ()):
            r = s.unify(st, reg, fam, e, off, size)
            if r is None: continue
            sub, conds = r
            ok = True
            for c in conds:
                if not s.need(st, c): ok = False; break
            if not ok: continue
            return (T.subst(e.val, sub),)
        return None

    def unify(s, st, reg, fam, e, off, size):
        """solve e.off(bound) == off for the bound atoms: None (disjoint) or (subst, conditions)"""
        d = off - e.off
        g = T.gcd_nonconst(d)
        if g:
            m = d.t.get((), 0) % g
            if m >= e.size and m <= g - size: return None
            if m or size != e.size: raise Unsupported('family overlap %r vs %r' % (e.off, off))
        else:
            c = d.t.get((), 0)
            if c >= e.size or -c >= size: return None
            if c or size != e.size: raise Unsupported('family overlap')
        bound = [b.id for b in fam.bound]
        eqs = None
        if reg.grid and reg.stride:
            d1 = s.digits(st, reg, e.off, tuple(fam.guards)); d2 = s.digits(st, reg, off)
            if d1 and d2:
                if d1[0] != d2[0]: return None
                eqs = [u - v for u, v in zip(d1[1], d2[1])]
        if eqs is None:
            if not reg.stride and not g: eqs = [d]
            elif g: eqs = [P({m: k // g for m, k in d.t.items()})]
            else: eqs = [d]
        sub = {}
        dep = _bound_deps(e, bound)
        todo = list(eqs); conds = []
        prog = True
        while prog and todo:
            prog = False
            for q in list(todo):
                q2 = q.subst(sub) if sub else q
                at = [b for b in bound if b not in sub and b in q2.atoms()]
                if not at:
                    if any(b in T.deps(q2) for b in bound if b not in sub): continue
                    todo.remove(q); prog = True
                    if q2.t: conds.append(T.beq0(q2))
                    continue
                for b in at:
                    k = q2.t.get((b,), 0)
                    if k in (1, -1) and sum(1 for m in q2.t if b in m) == 1:
                        rest = P({m: c for m, c in q2.t.items() if m != (b,)})
                        v = rest if k == -1 else -rest
                        if any(bb in T.deps(v) for bb in bound): continue
                        for x in list(sub): sub[x] = sub[x].subst({b: v})
                        sub[b] = v; todo.remove(q); prog = True
                        break
                if prog: break
        if todo: raise Unsupported('family address %r not solvable for %r' % (e.off, off))
        left = [b for b in bound if b not in sub and b in dep]
        conds = [T.subst(c, sub) for c in conds]
        for b in bound:
            at = T.Atom._byid[b]
            if b in sub and at.lo is not None: conds.append(T.ble(at.lo, sub[b]))
        for gd in fam.guards + ([e.cond] if e.cond is not TRUE else []):
            dd = T.deps(gd)
            if any(b in dd for b in bound if b not in sub):
                if any(b in dd for b in sub) or not (dd & set(bound)):
                    # guard ties solved to unsolved bound atoms
                    gx = fam.loop.project(gd, sub) if fam.loop else None
                    if gx is None:
                        if all(b in sub or b not in dd for b in bound): pass
                        else: raise Unsupported('family guard %r' % (gd,))
                    conds += gx
                continue
            conds.append(T.subst(gd, sub))
        if left: raise Unsupported('family with unsolved bound atoms %r' % [T.Atom._byid[b] for b in left])
        for c in conds:
            if c is FALSE: return None
        return sub, conds

    def initval(s, st, reg, off, size, ver, ty):
        c = off.const()
        if c is not None and not ver and c in reg.known:
            v = reg.known[c]
            return v
        if reg.symval:
            v = reg.symval(s, st, off, size, ver, ty)
            if v is not None: return v
        if reg.zero and not ver: return ZERO if not (ty and ty.k in ('float', 'double')) else F0
        k = reg.kind(off)
        if reg.dflt == 'uninit': return UNDEF
        if s.tent and reg.stride and ty is not None and T.gcd_nonconst(off) % reg.stride:
            v = s.anyval(reg, size, ty)
            if v is not None: return v
        if size == SZ[k]:
            if k in ('f32', 'f64'): return T.fmem(reg.name, ver, off, k)
            if k == 'ptr':
                return s.deref(reg, off, ver)
            return T.imem(reg.name, ver, off, size)
        if size == 8 and SZ[k] == 4:
            a = s.lookup(st, reg.name, off, 4); b = s.lookup(st, reg.name, off + 4, 4)
            return mkcat([a, b], 64)
        if size == 16 and SZ[k] in (4, 8):
            a = s.lookup(st, reg.name, off, 8); b = s.lookup(st, reg.name, off + 8, 8)
            return mkcat([a, b], 128)
        if size == 4 and SZ[k] == 2:
            a = s.lookup(st, reg.name, off, 2); b = s.lookup(st, reg.name, off + 2, 2)
            return mkcat([a, b], 32)
        if k in ('i64', 'i32') : return T.imem(reg.name, ver, off, size)
        raise Unsupported('load of %d bytes from %s kind %s' % (size, reg.name, k))

    def deref(s, reg, off, ver):
        n = '*%s%s[%r]' % (reg.name, ver, off)
        if n not in s.regions: s.region(n)
        return Ptr(n, ZERO)

    def load(s, st, p, ty):
        if isinstance(p, ITE): return s.load(st, p.a if s.need(st, p.c) else p.b, ty)
        if not isinstance(p, Ptr): raise Unsupported('load through %r' % (p,))
        if p.r not in s.regions: raise Unsupported('load from unknown region %s' % p.r)
        if ty.k == 'vec':
            n = s.mod.size(ty.e)
            return [s.load(st, Ptr(p.r, p.o + i * n), ty.e) for i in range(ty.n)]
        if ty.k == 'arr' or ty.k == 'struct':
            if ty.k == 'arr':
                n = s.mod.size(ty.e)
                return [s.load(st, Ptr(p.r, p.o + i * n), ty.e) for i in range(ty.n)]
            o, _ = s.mod.layout(ty)
            return [s.load(st, Ptr(p.r, p.o + o[i]), ty.f[i]) for i in range(len(ty.f))]
        n = s.mod.size(ty)
        if p.r[0] == '@': s.global_init(st, p.r)
        v = s.lookup(st, p.r, p.o, n, ty)
        return s.conv(st, v, ty)

    def conv(s, st, v, ty):
        if ty.k in ('float', 'double'):
            if isinstance(v, F): return v
            if isinstance(v, Bits): return v.f
            if isinstance(v, P):
                c = v.const()
                if c is not None: return bits2float(c, 32 if ty.k == 'float' else 64)
                return FromBits(v, 32)
            if isinstance(v, (Mask, ITE, Opq)): return FromBits(v, 32 if ty.k == 'float' else 64)
            return v
        if ty.k == 'int':
            if isinstance(v, F):
                if v.op == 'c': return float2bits(v.a[0], ty.w)
                return Bits(v, ty.w)
            if isinstance(v, FromBits): return v.v
            if ty.w == 1 and isinstance(v, P):
                return T.bnot(T.beq0(v))
            if v is NULL: return ZERO
            return v
        if ty.k == 'ptr':
            if isinstance(v, P) and v.const() == 0: return NULL
            return v
        return v

    def store(s, st, p, v, ty):
        if isinstance(p, ITE): return s.store(st, p.a if s.need(st, p.c) else p.b, v, ty)
        if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
        if ty.k == 'vec' or ty.k == 'arr':
            n = s.mod.size(ty.e)
            if v is UNDEF: return
            if not isinstance(v, list): raise Unsupported('vector store of %r' % (v,))
            for i, x in enumerate(v): s.store(st, Ptr(p.r, p.o + i * n), x, ty.e)
            return
        if ty.k == 'struct':
            o, _ = s.mod.layout(ty)
            if v is UNDEF: return
            for i, x in enumerate(v): s.store(st, Ptr(p.r, p.o + o[i]), x, ty.f[i])
            return
        n = s.mod.size(ty)
        s.store_raw(st, p, v, n)

    def store_raw(s, st, p, v, n):
        if isinstance(v, FromBits): v = v.v
        if isinstance(v, Bits): v = v.f
        if isinstance(v, B): v = b2i(v)
        if isinstance(v, Opq) and v.op == 'cat':
            k = n // len(v.a)
            for i, x in enumerate(v.a): s.store_raw(st, Ptr(p.r, p.o + i * k), x, k)
            return
        if p.r not in s.regions: raise Unsupported('store to unknown region %s' % p.r)
        reg = s.regions[p.r]
        if reg.additive: return s.curstore(st, reg, p.o, n, v)
        if s.on_store: s.on_store(st, p.r, p.o, n, v)
        if isinstance(v, ITE) and isinstance(v.a, F) and isinstance(v.b, F): v = T.fite(v.c, v.a, v.b)
        log = st.log(p.r)
        # overwrite an identical most recent address (keeps logs short)
        if log and isinstance(log[-1], Store) and log[-1].off is p.o and log[-1].size == n:
            log = log[:-1]
        elif p.o.const() is not None and not reg.additive:
            for j in range(len(log) - 1, max(-1, len(log) - 200), -1):
                e = log[j]
                if not isinstance(e, Store) or e.off.const() is None: break
                if e.off is p.o:
                    if e.size == n: log = log[:j] + log[j + 1:]
                    break
        st.mem[p.r] = log + (Store(p.o, n, v),)

    def copy(s, st, d, r, n):
        """memcpy of n constant bytes"""
        if n == 0: return
        if not (isinstance(d, Ptr) and isinstance(r, Ptr)): raise Unsupported('memcpy')
        if d.r not in s.regions or r.r not in s.regions: raise Unsupported('memcpy region %s %s' % (d.r, r.r))
        i = 0; out = []
        while i < n:
            w = s.width(st, r, i, n - i)
            v = s.lookup(st, r.r, r.o + i, w)
            out.append((i, w, v)); i += w
        for i, w, v in out:
            if v is UNDEF: continue
            s.store_raw(st, Ptr(d.r, d.o + i), v, w)

    def width(s, st, r, i, left):
        o = r.o + i
        for e in reversed(st.log(r.r)):
            if isinstance(e, Store) and (e.off - o).const() == 0 and e.size <= left: return e.size
        if r.r[0] == '@': s.global_init(st, r.r)
        reg = s.regions[r.r]
        c = o.const()
        if c is not None and c in reg.known:
            v = reg.known[c]
            if isinstance(v, (Ptr, FnPtr)) or v is NULL: return 8
        k = SZ[reg.kind(o)] if reg.dflt != 'uninit' else 4
        if k > left: k = left
        return k

    # -------------------------------------------------- additive regions (read-modify-write accumulations)
    def curload(s, st, reg, off, size):
        if size != 4: 
            a = s.curload(st, reg, off, size // 2); b = s.curload(st, reg, off + size // 2, size // 2)
            return mkcat([a, b], size * 8)
        st.tags = dict(st.tags); st.tags[('cur', reg.name, off.id)] = len(st.log(reg.name))
        return T.fmem(reg.name, 'cur', off, 'f32')

    def curstore(s, st, reg, off, n, v):
        if n != 4: raise Unsupported('wide store to accumulation region')
        if not isinstance(v, F): raise Unsupported('non-float accumulation')
        cur = T.fmem(reg.name, 'cur', off, 'f32')
        at = st.tags.get(('cur', reg.name, off.id))
        log = st.log(reg.name)
        d = replace_node(v, cur, F0)
        if at is None or has_cur(d, reg.name) or not pit_eq(v, T.fadd(cur, d)):
            if v is F0 or not has_cur(v, reg.name):
                st.event('overwrite', reg.name, off, v); return
            raise Unsupported('store to %s+%r is not an accumulation' % (reg.name, off))
        for e in log[at:]:
            if not isinstance(e, Store): raise Unsupported('accumulation across a loop')
            if s.eqoff(st, reg, e.off, off) is not False:
                raise Unsupported('accumulation into %s+%r may lose an update' % (reg.name, off))
        st.mem[reg.name] = log + (Store(off, n, d),)

    def memset_sym(s, st, d, v, n):
        if v.const() != 0: raise Unsupported('memset of non-zero')
        k = T.fresh('k')
        reg = s.regions[d.r]
        w = 4
        f = Fam([k], [T.ble(0, A(k)), T.blt(A(k) * w, n)], {None: [Store(d.o + A(k) * w, w, ZERO)]}, None)
        st.mem[d.r] = st.log(d.r) + (f,)

    def memcpy_sym(s, st, d, r, n):
        k = T.fresh('k')
        w = 4
        x = st.copy(); x.assume(T.ble(0, A(k))); x.assume(T.blt(A(k) * w, n))
        v = s.lookup(x, r.r, r.o + A(k) * w, w)
        f = Fam([k], [T.ble(0, A(k)), T.blt(A(k) * w, n)], {None: [Store(d.o + A(k) * w, w, v)]}, None)
        st.mem[d.r] = st.log(d.r) + (f,)

    # -------------------------------------------------- globals
    def global_init(s, st, name):
        if name in s.regions and getattr(s.regions[name], 'ginit', False): return
        reg = s.region(name, dflt='f32')
        reg.ginit = True
        g = s.mod.globals.get(name)
        if g is None: return
        ty, init, const = g
        if init is None: return
        reg.isconst = const

        def put(off, ty, v):
            if v[0] == 'zero':
                reg.zero = True; return
            if v[0] == 'agg':
                if ty.k == 'struct':
                    o, _ = s.mod.layout(ty)
                    for i, (t, x) in enumerate(v[1]): put(off + o[i], t, x)
                else:
                    n = s.mod.size(ty.e)
                    for i, (t, x) in enumerate(v[1]): put(off + i * n, t, x)
                return
            if v[0] == 'str':
                reg.known[off] = ('str', v[1]); return
            if v[0] == 'undef': return
            reg.known[off] = s.const(v, ty)
        if const or name in s.__dict__.get('use_ginit', ()): put(0, ty, init)
        e = ty
        while e.k in ('arr', 'vec'): e = e.e
        if e.k == 'double': reg.dflt = 'f64'
        elif e.k == 'int' and e.w == 32: reg.dflt = 'i32'
        elif e.k == 'int' and e.w == 64: reg.dflt = 'i64'
        elif e.k == 'ptr': reg.dflt = 'ptr'
        elif e.k == 'struct':
            o, _ = s.mod.layout(e)
            for i, f in enumerate(e.f):
                kk = {'int': 'i%d' % f.w, 'ptr': 'ptr', 'double': 'f64', 'float': 'f32'}.get(f.k)
                if kk: reg.kinds[o[i]] = kk

    # -------------------------------------------------- operands
    def const(s, v, ty):
        k = v[0]
        if k == 'i':
            if ty is not None and ty.k == 'int' and ty.w == 1: return TRUE if v[1] else FALSE
            return C(v[1])
        if k == 'f':
            x = v[1]
            if x == '-0': return F0
            if isinstance(x, str): return T.fsym('#' + x)
            return T.fc(snap(x, s))
        if k == 'null': return NULL
        if k == 'undef':
            if ty.k == 'vec': return [UNDEF] * ty.n
            return UNDEF
        if k == 'zero':
            if ty.k == 'vec' or ty.k == 'arr': return [s.const(v, ty.e)] * ty.n
            if ty.k == 'struct': return [s.const(v, f) for f in ty.f]
            if ty.k in ('float', 'double'): return F0
            if ty.k == 'ptr': return NULL
            if ty.k == 'int' and ty.w == 1: return FALSE
            return ZERO
        if k == 'agg': return [s.const(x, t) for t, x in v[1]]
        if k == 'glob':
            if v[1] in s.mod.fns or v[1] in s.mod.decls: return FnPtr(v[1])
            if v[1] not in s.regions: s.region(v[1])
            return Ptr(v[1], ZERO)
        if k == 'cgep':
            b = s.const(v[2], ty)
            return s.gep(None, v[1], b, [s.const(x, t) for t, x in v[3]])
        if k == 'ccast':
            x = s.const(v[3], v[2])
            return x
        if k == 'cbin':
            a = s.const(v[3], v[2]); b = s.const(v[4], v[2])
            if isinstance(a, P) and isinstance(b, P):
                return {'add': a + b, 'sub': a - b, 'mul': a * b}[v[1]]
        raise Unsupported('constant %r' % (v,))

    def val(s, st, v, ty):
        if v[0] == 'loc':
            r = st.env.get(v[1])
            if r is None: raise Unsupported('undefined local %s' % v[1])
            return r
        return s.const(v, ty)

    def gep(s, st, bt, base, idx):
        if isinstance(base, list): raise Unsupported('vector gep')
        if isinstance(base, ITE):
            return s.gep(st, bt, base.a if s.need(st, base.c) else base.b, idx)
        if not isinstance(base, Ptr): raise Unsupported('gep on %r' % (base,))
        off = base.o; t = bt
        for i, ix in enumerate(idx):
            if isinstance(ix, ITE):
                ix = ix.a if s.need(st, ix.c) else ix.b
            if isinstance(ix, Bits) and s.tent: ix = A(T.fresh('h'))
            if not isinstance(ix, P): raise Unsupported('gep index %r' % (ix,))
            if i == 0: off = off + ix * s.mod.size(t)
            elif t.k == 'struct':
                c = ix.const(); o, _ = s.mod.layout(t); off = off + o[c]; t = t.f[c]
            else:
                off = off + ix * s.mod.size(t.e); t = t.e
        return Ptr(base.r, off)

    # -------------------------------------------------- function execution
    def run(s, name, args, st):
        """execute function; returns [(state, retval)]"""
        fn = None
        for m in [s.mod] + s.link:
            if name in m.fns:
                fn = m.body(m.fns[name]); md = m; break
        if fn is None: raise Unsupported('no body for ' + name)
        oldm = s.mod; s.mod = md
        saved = st.env; sprev = st.prev
        s.depth += 1
        if s.depth > 40: raise Unsupported('recursion')
        try:
            st.env = {}; st.prev = None
            if len(args) < len(fn.params): raise Unsupported('args of ' + name)
            for (ty, nm, at), v in zip(fn.params, args): st.env[nm] = v
            outs = s.region_run(fn, st, fn.entry, None)
            res = []
            for o in outs:
                rv = o.ret; o.env = dict(saved); o.prev = sprev; o.ret = None
                res.append((o, rv))
            return res
        finally:
            s.mod = oldm; s.depth -= 1

    def region_run(s, fn, st, block, stop, stops=frozenset()):
        """run from `block` until `stop` (or any of `stops`) or return; returns states, each
        with .tags['at'] = stop block or None at return"""
        L = loops(fn)
        while True:
            if block is None:
                st.tags['at'] = None
                return [st]
            if block == stop or block in stops:
                st.tags['at'] = block
                return [st]
            if block in L and st.tags.get('hdr') != block:
                outs = s.loop(fn, st, block, stop, stops)
                res = []
                for o in outs:
                    at = o.tags.get('at')
                    if at is None or at == stop or at in stops: res.append(o)
                    else: res += s.region_run(fn, o, at, stop, stops)
                return res
            if st.tags.get('hdr') == block: st.tags = dict(st.tags); st.tags.pop('hdr')
            b = fn.blocks[block]
            if b.phis and not st.tags.get('phidone'):
                s.do_phis(st, b, st.prev)
            st.tags.pop('phidone', None)
            nx = s.block(fn, st, b, 0, stop, stops)
            if nx[0] == 'goto':
                st = nx[1]; block = nx[2]
                continue
            return nx[1]

    def do_phis(s, st, b, prev):
        new = {}
        for ph in b.phis:
            for v, lab in ph.a:
                if lab == prev: new[ph.res] = s.val(st, v, ph.ty); break
            else: raise Unsupported('phi %s has no entry for %s' % (ph.res, prev))
        st.env.update(new)

    def block(s, fn, st, b, start, stop, stops):
        """run instructions; returns ('goto', st, next) or ('states', [...])"""
        i = start
        while i < len(b.ins):
            I = b.ins[i]
            s.fuel -= 1
            if s.fuel < 0: raise Unsupported('out of fuel')
            try:
                if I.op in ('br', 'switch', 'ret', 'unreachable', 'invoke', 'resume'):
                    return s.term(fn, st, b, I, stop, stops)
                if I.op == 'call':
                    r = s.call(st, I)
                    if r is not None:      # several outcomes
                        outs = []
                        for st2, rv in r:
                            if I.res: st2.env[I.res] = rv
                        if len(r) == 1 :
                            st = r[0][0]; i += 1; continue
                        return s.fork(fn, [x for x, _ in r], b, i + 1, stop, stops)
                else:
                    s.step(st, I)
            except Split as sp:
                b1 = sp.b
                s1 = st.copy(); s2 = st.copy()
                s1.assume(b1); s2.assume(T.bnot(b1))
                return s.fork(fn, [s1, s2], b, i, stop, stops, base=st)
            except Abort:
                return ('states', [])
            i += 1
        raise Unsupported('fell off block')

    def fork(s, fn, sts, b, i, stop, stops, base=None):
        """continue each state from instruction i of block b up to the join, merge, continue"""
        if len(s.loopstack) and False: pass
        J = s.join(fn, b.name, stop, stops)
        outs = []
        for x in sts:
            if S.sat(s.facts + list(x.pc)) == 'unsat': continue
            outs += s.cont(fn, x, b, i, J, stop, stops)
        outs = s.merge(fn, outs, J, base)
        if len(outs) > s.maxstates: raise Unsupported('too many paths')
        res = []
        for o in outs:
            at = o.tags.get('at')
            if at is None or at == stop or at in stops: res.append(o)
            else: res += s.region_run(fn, o, at, stop, stops)
        return ('states', res)

    def join(s, fn, bname, stop, stops):
        ip = postdom(fn).get(bname)
        if ip is None or ip.startswith('%__exit') or ip in stops: return stop
        # inside a summarised loop the join must stay inside it
        for (f2, hdr, body) in s.loopstack:
            if f2 is fn and bname in body and ip not in body: return stop
        return ip

    def cont(s, fn, st, b, i, J, stop, stops):
        nx = s.block(fn, st, b, i, J if J else stop, stops | ({stop} if stop else set()))
        if nx[0] == 'goto':
            return s.region_run(fn, nx[1], nx[2], J if J else stop, stops | ({stop} if stop else set()))
        out = []
        for o in nx[1]:
            at = o.tags.get('at')
            if at is None or at == J or at == stop or at in stops: out.append(o)
            else: out += s.region_run(fn, o, at, J, stops | ({stop} if stop else set()))
        return out

    def term(s, fn, st, b, I, stop, stops):
        if I.op == 'ret':
            st.ret = s.val(st, I.a[0], I.ty) if I.a[0] is not None else None
            st.tags['at'] = None
            return ('states', [st])
        if I.op in ('unreachable', 'resume'): return ('states', [])
        if I.op == 'br':
            if I.a[0] is None:
                st.prev = b.name; return ('goto', st, I.a[1])
            c = s.val(st, I.a[0], None)
            c = s.tobool(st, c)
            r = s.decide(st, c)
            if r is not None:
                st.prev = b.name
                return ('goto', st, I.a[1] if r else I.a[2])
            if I.a[1] == I.a[2]:
                st.prev = b.name; return ('goto', st, I.a[1])
            J = s.join(fn, b.name, stop, stops)
            outs = []
            for cond, tgt in ((c, I.a[1]), (T.bnot(c), I.a[2])):
                x = st.copy(); x.assume(cond); x.prev = b.name
                if S.sat(s.facts + list(x.pc)) == 'unsat': continue
                outs += s.region_run(fn, x, tgt, J if J else stop, stops | ({stop} if stop else set()))
            outs = s.merge(fn, outs, J, st)
            if len(outs) > s.maxstates: raise Unsupported('too many paths')
            res = []
            for o in outs:
                at = o.tags.get('at')
                if at is None or at == stop or at in stops: res.append(o)
                else: res += s.region_run(fn, o, at, stop, stops)
            return ('states', res)
        if I.op == 'switch':
            v = s.val(st, I.a[0], I.ty)
            if isinstance(v, (ITE, B)) : v = s.toint(st, v)
            if not isinstance(v, P): raise Unsupported('switch on %r' % (v,))
            c = v.const()
            if c is not None:
                st.prev = b.name
                for cv, lab in I.a[2]:
                    if cv[1] == c: return ('goto', st, lab)
                return ('goto', st, I.a[1])
            for cv, lab in I.a[2]:
                e = T.beq(v, C(cv[1]))
                r = s.decide(st, e)
                if r is True:
                    st.prev = b.name; return ('goto', st, lab)
                if r is None: raise Split(e)
            st.prev = b.name
            return ('goto', st, I.a[1])
        if I.op == 'invoke':
            r = s.call(st, I)
            if r is not None:
                if len(r) != 1: raise Unsupported('invoke forks')
                st = r[0][0]
                if I.res: st.env[I.res] = r[0][1]
            st.prev = b.name
            return ('goto', st, I.a['to'])
        raise Unsupported(I.text)

    # -------------------------------------------------- merging
    def merge(s, fn, outs, J, base):
        """merge write-free alternatives that arrive at the join J"""
        if s.merge_cb and base is not None and J is not None: outs = s.merge_cb(s, fn, outs, J, base)
        if J is None or len(outs) < 2: return outs
        here = [o for o in outs if o.tags.get('at') == J]
        rest = [o for o in outs if o.tags.get('at') != J]
        if len(here) < 2: return outs
        groups = []
        for o in here:
            for g in groups:
                if o.ev == g[0].ev and o.mem.keys() == g[0].mem.keys() and all(o.mem[k] is g[0].mem[k] or _samelog(o.mem[k], g[0].mem[k]) for k in o.mem):
                    g.append(o); break
            else: groups.append([o])
        res = []
        for g in groups:
            if len(g) == 1: res += g; continue
            m = s.merge_group(fn, g, J)
            if m is None: res += g
            else: res.append(m)
        return rest + res

    def merge_group(s, fn, g, J):
        b = fn.blocks[J]
        n0 = 0
        while all(len(o.pc) > n0 for o in g) and all(o.pc[n0] is g[0].pc[n0] for o in g): n0 += 1
        ext = [T.band(*o.pc[n0:]) for o in g]
        vals = []      # per phi: list over states
        names = []
        for ph in b.phis:
            row = []
            for o in g:
                for v, lab in ph.a:
                    if lab == o.prev: row.append(s.val(o, v, ph.ty)); break
                else: return None
            vals.append(row); names.append(ph.res)
        # live values defined on the alternative paths other than phis must agree (SSA: they cannot be used)
        env = {}
        common = set(g[0].env)
        for o in g[1:]: common &= set(o.env)
        for k in common:
            v0 = g[0].env[k]
            if all(same(o.env[k], v0) for o in g[1:]): env[k] = v0
        merged = g[0].copy()
        merged.env = env
        merged.pc = g[0].pc[:n0]
        orc = T.bor(*ext)
        dm = None
        out = {}
        for nm, row in zip(names, vals):
            if all(same(v, row[0]) for v in row[1:]): out[nm] = row[0]; continue
            r = s.ite_rows(ext, row)
            if r is not None: out[nm] = r; continue
            out[nm] = None
        if any(v is None for v in out.values()):
            dm = s.digit_merge(g, ext, n0, names, vals, merged)
            if dm is None: return None
            for nm in names:
                if out[nm] is None: out[nm] = dm[nm]
        else:
            simp = orc
            if len(g) == 2 and T.bnot(ext[0]) is ext[1]: simp = TRUE
            merged.assume(simp)
        merged.env.update(out)
        merged.tags['phidone'] = True
        merged.tags['at'] = J
        merged.prev = g[0].prev
        return merged

    def ite_rows(s, ext, row):
        if all(isinstance(v, F) for v in row):
            r = row[-1]
            for c, v in zip(reversed(ext[:-1]), reversed(row[:-1])): r = T.fite(c, v, r)
            return r
        if all(isinstance(v, B) for v in row):
            return T.bor(*[T.band(c, v) for c, v in zip(ext, row)])
        if all(isinstance(v, list) for v in row):
            out = []
            for col in zip(*row):
                if all(same(x, col[0]) for x in col[1:]): out.append(col[0]); continue
                r = s.ite_rows(ext, list(col))
                if r is None: return None
                out.append(r)
            return out
        return None

    def digit_merge(s, g, ext, n0, names, vals, merged):
        """alternatives that all advance a voxel (x,y,z) to its successor in loop order"""
        base = g[0].digs
        for D in reversed(base):
            x, y, z = D.P3()
            ia = None
            for a in range(len(g)):
                idx = [None, None, None]
                for n, row in enumerate(vals):
                    v = row[a]
                    if v is x + 1 and idx[0] is None: idx[0] = n
                    elif v is y and idx[1] is None and not D.flat: idx[1] = n
                    elif v is z and idx[2] is None: idx[2] = n
                if None not in (idx[0], idx[2] if D.flat else idx[1], idx[2]): ia = a; break
            if ia is None: continue
            nd = Dig(T.atom('sym', ('dg', len(T.Atom._byid)), 'x!%d' % len(T.Atom._byid)), None, None, D.lo, D.n, flat=D.flat)
            nd.y = T.atom('sym', ('dg', len(T.Atom._byid)), 'y!%d' % len(T.Atom._byid))
            nd.z = T.atom('sym', ('dg', len(T.Atom._byid)), 'z!%d' % len(T.Atom._byid))
            root = D
            nd.base = D.base or D; nd.j = D.j + 1
            x1, y1, z1 = nd.P3()
            sub = {D.x.id: x1 - 1, D.y.id: y1, D.z.id: z1}
            tmpl = [T.subst(row[ia], sub) for row in vals]
            ok = True
            for a in range(len(g)):
                fs = s.facts + list(g[a].pc)
                # equalities pinning digits to their upper bounds on this path
                es = {}
                for at, lo, n in [q for q in zip((D.x, D.y, D.z), D.lo, D.n) if not (D.flat and q[0] is D.y)]:
                    hi = T.as_p(lo) + n - 1
                    if S.prove(fs, T.beq(A(at), hi)): es[at.id] = hi
                v3 = tuple(vals[i][a] if i is not None else T.as_p(D.lo[1]) for i in idx)
                if not all(isinstance(v, P) for v in v3): ok = False; break
                dl = (D.lin(v3) - D.lin() - 1).subst(es)
                if dl is not ZERO and not S.prove(fs, T.beq0(dl)):
                    ok = False; break
                # ranges of the new digits (the z upper bound is guaranteed by the window, not needed)
                rg = nd.facts(v3)[:4] + [T.ble(T.as_p(D.lo[2]), v3[2])]
                if not all(S.prove(fs, r) for r in rg): ok = False; break
                s3 = {nd.x.id: v3[0], nd.y.id: v3[1], nd.z.id: v3[2]}
                for t, row in zip(tmpl, vals):
                    u = T.subst(t, s3); w = row[a]
                    if same(u, w): continue
                    if isinstance(u, Ptr) and isinstance(w, Ptr) and u.r == w.r: dd = (u.o - w.o).subst(es)
                    elif isinstance(u, P) and isinstance(w, P): dd = (u - w).subst(es)
                    else: ok = False; break
                    if dd is not ZERO and not S.prove(fs, T.beq0(dd)): ok = False; break
                if not ok: break
            if not ok: continue
            # ranges: z <= hi holds only while inside the window; recorded as 'successor' facts
            fs = nd.facts()[:4] + [T.ble(T.as_p(D.lo[2]), z1)]
            for f in fs: merged.assume(f)
            merged.digs = merged.digs + (nd,)
            return dict(zip(names, tmpl))
        return None

    # -------------------------------------------------- loops
    def loop(s, fn, st, h, stop, stops):
        from .loops import do_loop
        return do_loop(s, fn, st, h, stop, stops)

    # -------------------------------------------------- scalar steps
    def tobool(s, st, c):
        if isinstance(c, B): return c
        if isinstance(c, Mask): return c.c
        if isinstance(c, P): return T.bnot(T.beq0(c))
        if isinstance(c, ITE):
            return T.bor(T.band(c.c, s.tobool(st, c.a)), T.band(T.bnot(c.c), s.tobool(st, c.b)))
        if c is UNDEF: raise Unsupported('branch on undef')
        raise Unsupported('condition %r' % (c,))

    def toint(s, st, v):
        if isinstance(v, P): return v
        if isinstance(v, ITE): return s.toint(st, v.a if s.need(st, v.c) else v.b)
        if isinstance(v, B): return ONE if s.need(st, v) else ZERO
        if isinstance(v, Mask): return C(-1) if s.need(st, v.c) else ZERO
        raise Unsupported('integer expected: %r' % (v,))

    def step(s, st, I):
        op = I.op
        env = st.env
        if op in BIN:
            a = s.val(st, I.a[0], I.ty); b = s.val(st, I.a[1], I.ty)
            if I.ty.k == 'vec':
                env[I.res] = [s.bin(st, op, x, y, I.ty.e) for x, y in zip(a, b)]
            else: env[I.res] = s.bin(st, op, a, b, I.ty)
            return
        if op == 'fneg':
            a = s.val(st, I.a[0], I.ty)
            f = lambda x: T.fneg(s.tof(x)) if not x is UNDEF else x
            env[I.res] = [f(x) for x in a] if I.ty.k == 'vec' else f(a)
            return
        if op == 'icmp':
            a = s.val(st, I.a[1], I.ty); b = s.val(st, I.a[2], I.ty)
            if I.ty.k == 'vec': env[I.res] = [s.icmp(st, I.a[0], x, y) for x, y in zip(a, b)]
            else: env[I.res] = s.icmp(st, I.a[0], a, b, I.ty.w if I.ty.k == 'int' else 64)
            return
        if op == 'fcmp':
            a = s.val(st, I.a[1], I.ty); b = s.val(st, I.a[2], I.ty)
            if I.ty.k == 'vec': env[I.res] = [s.fcmp(I.a[0], x, y) for x, y in zip(a, b)]
            else: env[I.res] = s.fcmp(I.a[0], a, b)
            return
        if op == 'load':
            env[I.res] = s.load(st, s.val(st, I.a[0], I.ty), I.ty); return
        if op == 'store':
            s.store(st, s.val(st, I.a[1], I.ty), s.val(st, I.a[0], I.ty), I.ty); return
        if op == 'getelementptr':
            b = s.val(st, I.a[1], None)
            ix = []
            for t, v in I.a[2]:
                x = s.val(st, v, t)
                if isinstance(x, (ITE, B, Mask)): x = s.toint(st, x)
                ix.append(x)
            env[I.res] = s.gep(st, I.a[0], b, ix); return
        if op == 'alloca':
            s.nalloca += 1
            nm = '%%a%d' % s.nalloca
            n = 1
            sz = s.mod.size(I.a[0])
            if I.a[1] is not None:
                nn = s.val(st, I.a[1], None)
                if isinstance(nn, P) and nn.const() is not None: sz *= nn.const()
                else: sz = None
            s.region(nm, dflt='uninit', size=sz); env[I.res] = Ptr(nm, ZERO); return
        if op == 'select':
            ct, c, a, b = I.a
            c = s.val(st, c, ct); a = s.val(st, a, I.ty); b = s.val(st, b, I.ty)
            if ct.k == 'vec': env[I.res] = [s.sel(st, x, y, z) for x, y, z in zip(c, a, b)]
            else: env[I.res] = s.sel(st, c, a, b)
            return
        if op in CASTS:
            t0, v = I.a; a = s.val(st, v, t0)
            env[I.res] = s.cast(st, op, a, t0, I.ty); return
        if op == 'extractelement':
            v = s.val(st, I.a[0], None); i = s.val(st, I.a[1], None)
            env[I.res] = v[i.const()]; return
        if op == 'insertelement':
            v = s.val(st, I.a[0], I.ty); e = s.val(st, I.a[1], I.ty.e); i = s.val(st, I.a[2], None)
            v = list(v); v[i.const()] = e; env[I.res] = v; return
        if op == 'shufflevector':
            vt, a, b, mt, m = I.a
            a = s.val(st, a, vt); b = s.val(st, b, vt)
            ab = list(a) + list(b)
            if m[0] == 'zero': ix = [0] * mt.n
            elif m[0] == 'undef': ix = [0] * mt.n
            else: ix = [x[1][1] if x[1][0] == 'i' else None for x in m[1]]
            env[I.res] = [UNDEF if i is None else ab[i] for i in ix]; return
        if op == 'extractvalue':
            at, a, ix = I.a; v = s.val(st, a, at)
            for i in ix: v = v[i]
            env[I.res] = v; return
        if op == 'insertvalue':
            at, a, et, e, ix = I.a
            v = s.val(st, a, at); e = s.val(st, e, et)
            if v is UNDEF: v = [UNDEF] * (len(at.f) if at.k == 'struct' else at.n)
            v = list(v)
            if len(ix) != 1: raise Unsupported('insertvalue')
            v[ix[0]] = e; env[I.res] = v; return
        if op == 'freeze':
            env[I.res] = s.val(st, I.a[0], I.ty); return
        if op == 'fence': return
        raise Unsupported('instruction %s' % I.text)

    def tof(s, x):
        if isinstance(x, F): return x
        if isinstance(x, Bits): return x.f
        if isinstance(x, FromBits):
            if isinstance(x.v, P) and x.v.const() == 0: return F0
            if isinstance(x.v, ITE): 
                a = s.tof(FromBits(x.v.a, x.w)); b = s.tof(FromBits(x.v.b, x.w))
                return T.fite(x.v.c, a, b)
            if isinstance(x.v, (F,)): return x.v
            if isinstance(x.v, Bits): return x.v.f
        if x is UNDEF: return T.fsym('#undef')
        if s.tent and isinstance(x, FromBits):
            T._fresh[0] += 1
            return T.fsym('any!%d' % T._fresh[0])
        raise Unsupported('float expected: %r' % (x,))

    def sel(s, st, c, a, b):
        c = s.tobool(st, c)
        r = c.a[0] if c.op == 'const' else None
        if r is None and same(a, b): return a
        if r is None: r = s.decide(st, c)
        if r is not None: return a if r else b
        if isinstance(a, FromBits) and isinstance(b, F) or isinstance(b, FromBits) and isinstance(a, F):
            try: a = s.tof(a); b = s.tof(b)
            except Unsupported: pass
        if isinstance(a, (F, B)) and isinstance(b, (F, B)): return T.mk_ite(c, a, b)
        if isinstance(a, list):
            return [s.sel(st, c, x, y) for x, y in zip(a, b)]
        if isinstance(a, P) and isinstance(b, P) and a.const() is not None and b.const() is not None: return ITE(c, a, b)
        if a is UNDEF: return b
        if b is UNDEF: return a
        raise Split(c)

    def fcmp(s, pr, a, b):
        if isinstance(a, FromBits) or isinstance(b, FromBits) or isinstance(a, Bits):
            if isinstance(a, FromBits) and isinstance(a.v, Mask) and isinstance(b, F) and b is F0: 
                # mask lane compared with zero: all-ones is NaN
                if pr in ('olt', 'ogt', 'oeq'): 
                    return T.bnot(a.v.c) if pr == 'oeq' else FALSE
                if pr == 'une': return a.v.c
            a = s.tof(a); b = s.tof(b)
        a = s.tof(a); b = s.tof(b)
        p = pr[1:] if pr[0] in 'ou' and pr not in ('ord', 'uno') else pr
        if p == 'lt': return T.bflt(a, b)
        if p == 'gt': return T.bflt(b, a)
        if p == 'le': return T.bfle(a, b)
        if p == 'ge': return T.bfle(b, a)
        if p == 'eq': return T.bfeq(a, b)
        if p == 'ne': return T.bnot(T.bfeq(a, b))
        if pr == 'ord': return TRUE
        if pr == 'uno': return FALSE
        if pr == 'true': return TRUE
        if pr == 'false': return FALSE
        raise Unsupported('fcmp ' + pr)

    def icmp(s, st, pr, a, b, w=32):
        if isinstance(a, ITE) or isinstance(b, ITE):
            if isinstance(a, ITE) and not isinstance(b, ITE):
                return T.bor(T.band(a.c, s.icmp(st, pr, a.a, b, w)), T.band(T.bnot(a.c), s.icmp(st, pr, a.b, b, w)))
            if isinstance(b, ITE) and not isinstance(a, ITE):
                return T.bor(T.band(b.c, s.icmp(st, pr, a, b.a, w)), T.band(T.bnot(b.c), s.icmp(st, pr, a, b.b, w)))
            a = s.toint(st, a); b = s.toint(st, b)
        pa = isinstance(a, (Ptr, FnPtr)) or a is NULL; pb = isinstance(b, (Ptr, FnPtr)) or b is NULL
        if (a is NULL or b is NULL) and (isinstance(a, (FnPtr, P)) or isinstance(b, (FnPtr, P))) :
            if isinstance(a, P) or isinstance(b, P):
                x = a if isinstance(a, P) else b
                e = T.beq0(x)
                return e if pr == 'eq' else T.bnot(e)
        if pa and pb:
            if a is NULL or b is NULL or isinstance(a, FnPtr) or isinstance(b, FnPtr):
                nn = None
                for x in (a, b):
                    if isinstance(x, Ptr) and x.r in s.regions and getattr(s.regions[x.r], 'maybe_null', None) is not None: nn = s.regions[x.r].maybe_null
                if nn is not None and (a is NULL or b is NULL) and not (a is NULL and b is NULL):
                    return nn if pr == 'eq' else T.bnot(nn)
                eq = (a is NULL and b is NULL) or (isinstance(a, FnPtr) and a == b)
                if pr == 'eq': return TRUE if eq else FALSE
                if pr == 'ne': return FALSE if eq else TRUE
                if pr in ('ugt',): return TRUE if b is NULL and not eq else FALSE
                if pr in ('ult',): return TRUE if a is NULL and not eq else FALSE
                raise Unsupported('pointer order')
            if a.r != b.r:
                if pr == 'eq': return FALSE
                if pr == 'ne': return TRUE
                raise Unsupported('order of pointers into %s and %s' % (a.r, b.r))
            a, b = a.o, b.o
        if isinstance(a, B) or isinstance(b, B):
            if isinstance(a, B) and isinstance(b, B):
                e = T.bor(T.band(a, b), T.band(T.bnot(a), T.bnot(b)))
                if pr == 'eq': return e
                if pr == 'ne': return T.bnot(e)
            if isinstance(b, P) and b.const() is not None:
                e = T.bnot(a) if b.const() == 0 else a
                return e if pr == 'eq' else T.bnot(e)
            raise Unsupported('icmp on booleans')
        if isinstance(a, Mask) and isinstance(b, P) and b.const() is not None:
            e = {0: T.bnot(a.c), -1: a.c}.get(b.const(), FALSE)
            if pr == 'eq': return e
            if pr == 'ne': return T.bnot(e)
            if pr == 'slt' and b.const() == 0: return a.c
            if pr == 'sgt' and b.const() == -1: return T.bnot(a.c)
        if isinstance(a, Mask) and isinstance(b, Mask):
            e = T.bor(T.band(a.c, b.c), T.band(T.bnot(a.c), T.bnot(b.c)))
            if pr == 'eq': return e
            if pr == 'ne': return T.bnot(e)
        if isinstance(a, Opq) and a.op == 'movmsk' and isinstance(b, P) and b.const() is not None:
            k = b.const()
            e = T.band(*[(c if (k >> i) & 1 else T.bnot(c)) for i, c in enumerate(a.a)])
            if pr == 'eq': return e
            if pr == 'ne': return T.bnot(e)
        if isinstance(a, Bits) and isinstance(b, P) and b.const() is not None:
            if b.const() == 0 and pr in ('eq', 'ne'):
                e = T.bfeq(a.f, F0)          # +0 bit pattern, -0 identified with +0
                return e if pr == 'eq' else T.bnot(e)
            if b.const() == 0 and pr == 'slt': return T.bflt(a.f, F0)
        if not (isinstance(a, P) and isinstance(b, P)): raise Unsupported('icmp %s %r %r' % (pr, a, b))
        if pr == 'eq': return T.beq(a, b)
        if pr == 'ne': return T.bnot(T.beq(a, b))
        if pr[0] == 'u':
            ca, cb = a.const(), b.const()
            M = 1 << w
            if ca is not None and cb is not None:
                ca %= M; cb %= M
                return T.bconst({'ult': ca < cb, 'ule': ca <= cb, 'ugt': ca > cb, 'uge': ca >= cb}[pr])
            # unsigned view of possibly negative values
            def nonneg(x): return s.decide(st, T.ble(0, x)) if st is not None else None
            na, nb = nonneg(a), nonneg(b)
            if na is None: raise Split(T.ble(0, a))
            if nb is None: raise Split(T.ble(0, b))
            if na != nb:
                # one is "huge"
                return T.bconst({'ult': na, 'ule': na, 'ugt': nb, 'uge': nb}[pr])
        p = pr[1:]
        return {'lt': T.blt(a, b), 'le': T.ble(a, b), 'gt': T.blt(b, a), 'ge': T.ble(b, a)}[p]

    def bin(s, st, op, a, b, ty):
        if a is UNDEF or b is UNDEF:
            if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr'): return UNDEF
            if op[0] != 'f': return UNDEF
        if op in FBIN:
            a = s.tof(a); b = s.tof(b)
            if op == 'fadd': return T.fadd(a, b)
            if op == 'fsub': return T.fsub(a, b)
            if op == 'fmul': return T.fmul(a, b)
            if op == 'fdiv': return T.fdiv(a, b)
            raise Unsupported('frem')
        if ty.k == 'int' and ty.w == 1:
            a = s.tobool(st, a); b = s.tobool(st, b)
            if op == 'and': return T.band(a, b)
            if op == 'or': return T.bor(a, b)
            if op == 'xor' or op == 'add': 
                if a is TRUE: return T.bnot(b)
                if b is TRUE: return T.bnot(a)
                return T.bor(T.band(a, T.bnot(b)), T.band(T.bnot(a), b))
            raise Unsupported('i1 ' + op)
        w = ty.w
        if s.tent and op in ('add', 'sub', 'mul'):
            if isinstance(a, Bits) and a.f.op == 's' and str(a.f.a[0]).startswith('any!'): a = A(T.fresh('h'))
            if isinstance(b, Bits) and b.f.op == 's' and str(b.f.a[0]).startswith('any!'): b = A(T.fresh('h'))
        if op in ('and', 'or', 'xor') and not (isinstance(a, P) and isinstance(b, P)):
            try: return s.bitop(st, op, a, b, w)
            except Unsupported:
                if not s.tent: raise
                T._fresh[0] += 1
                f = T.fsym('any!%d' % T._fresh[0])
                if w == 32: return Bits(f, 32)
                if w in (64, 128): return mkcat([Bits(f, 32)] * (w // 32), w)
                raise
        if op == 'sub' and isinstance(a, P) and a.const() == 0 and isinstance(b, ITE) and same(b.a, ONE) and same(b.b, ZERO):
            return Mask(b.c, w)
        if isinstance(a, ITE) and isinstance(b, P) and b.const() is not None and isinstance(a.a, P) and isinstance(a.b, P):
            return ITE(a.c, s.bin(st, op, a.a, b, ty), s.bin(st, op, a.b, b, ty))
        if isinstance(a, Opq) and a.op == 'cat' and op in ('lshr', 'shl') and isinstance(b, P) and b.const() is not None:
            n = len(a.a); k = w // n; sh = b.const()
            if sh % k == 0:
                j = sh // k
                if op == 'lshr': return mkcat(list(a.a[j:]) + [ZERO] * j, w)
                return mkcat([ZERO] * j + list(a.a[:n - j]), w)
        if op == 'shl' and isinstance(b, P) and b.const() == 32 and w == 64 and not isinstance(a, P):
            return mkcat([ZERO, a], 64)
        if op in ('ashr',) and isinstance(a, Mask): return a
        if op == 'lshr' and isinstance(a, Mask) and isinstance(b, P) and b.const() == w - 1: return ITE(a.c, ONE, ZERO)
        if op in ('lshr', 'ashr') and isinstance(a, Bits) and isinstance(b, P) and b.const() == w - 1:
            c = T.bflt(a.f, F0)
            return ITE(c, ONE, ZERO) if op == 'lshr' else Mask(c, w)
        if isinstance(a, (Mask, B, ITE)): a = s.toint(st, a)
        if isinstance(b, (Mask, B, ITE)): b = s.toint(st, b)
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r: return a.o - b.o
            raise Unsupported('difference of pointers into %s and %s' % (a.r, b.r))
        if isinstance(a, Ptr) and isinstance(b, P) and op in ('add', 'sub'):
            return Ptr(a.r, a.o + b if op == 'add' else a.o - b)
        if isinstance(b, Ptr) and isinstance(a, P) and op == 'add': return Ptr(b.r, b.o + a)
        if not (isinstance(a, P) and isinstance(b, P)): raise Unsupported('%s %r %r' % (op, a, b))
        if op == 'add': return a + b
        if op == 'sub': return a - b
        if op == 'mul': return a * b
        cb = b.const(); ca = a.const()
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            if cb == 0: raise Unsupported('division by zero')
            if ca is not None and cb is not None:
                if op[0] == 'u': ca %= 1 << w; cb %= 1 << w
                q = abs(ca) // abs(cb); q = q if (ca < 0) == (cb < 0) else -q
                return C(q) if op.endswith('div') else C(ca - q * cb)
            if cb is None and not s.prove(st, T.blt(0, b)): raise Unsupported('divisor %r not known positive' % (b,))
            if cb is not None and cb < 0: raise Unsupported('negative divisor')
            nn = s.decide(st, T.ble(0, a))
            if nn is None: raise Split(T.ble(0, a))
            if nn:
                if cb is None and T._exact_div(a, b) is None:
                    q, r = T.pdivmod(a, b)
                    if s.prove(st, T.ble(0, r)) and s.prove(st, T.blt(r, b)): return q if op.endswith('div') else r
                return T.idiv(a, b) if op.endswith('div') else T.imod(a, b)
            q = -T.idiv(-a, b)
            return q if op.endswith('div') else a - q * b
        if op == 'shl' and cb is not None:
            if ca is not None: return C(_sgn(ca << cb, w))
            return a * (1 << cb)
        if op == 'shl' and ca == 1: 
            return T.A(T.atom('pow2', b.id, '2^(%r)' % (b,), meta={'args': (b,), 'mk': lambda x: C(1 << x.const()) if x.const() is not None else s.bin(st, 'shl', ONE, x, ty), 'facts': []}))
        if op in ('lshr', 'ashr') and cb is not None:
            if ca is not None:
                return C(_sgn((ca % (1 << w)) >> cb, w)) if op == 'lshr' else C(ca >> cb)
            if op == 'lshr':
                nn = s.decide(st, T.ble(0, a))
                if nn is None: raise Split(T.ble(0, a))
                if not nn: raise Unsupported('lshr of negative')
            return T.idiv(a, C(1 << cb))
        if op in ('and', 'or', 'xor'):
            if ca is not None and cb is not None:
                return C({'and': ca & cb, 'or': ca | cb, 'xor': ca ^ cb}[op])
            return s.bitop(st, op, a, b, w)
        raise Unsupported('%s %r %r' % (op, a, b))

    def bitop(s, st, op, a, b, w):
        if isinstance(a, P) and a.const() is not None: a, b = b, a
        cb = b.const() if isinstance(b, P) else None
        if isinstance(b, B): b = b2i(b)
        if isinstance(a, B): a = b2i(a)
        if cb is not None:
            if op == 'and' and cb == 0: return ZERO
            if op == 'and' and cb in (-1, (1 << w) - 1): return a
            if op in ('or', 'xor') and cb == 0: return a
            sb = 1 << (w - 1)
            if isinstance(a, Bits):
                if cb % (1 << w) == sb:
                    if op == 'xor': return Bits(T.fneg(a.f), a.w)
                    if op == 'and': return Opq('sign', (a.f,), w)
                    if op == 'or': return Bits(T.fneg(T.fabs_(a.f)), a.w)
                if op == 'and' and cb == sb - 1: return Bits(T.fabs_(a.f), a.w)
            if isinstance(a, Mask):
                if op == 'xor' and cb == -1: return Mask(T.bnot(a.c), w)
                if op == 'and' and cb == 1: return ITE(a.c, ONE, ZERO)
                if op == 'and': return ITE(a.c, b, ZERO)
                if op == 'or' and cb == -1: return b
                if op == 'or': return ITE(a.c, C(-1), b)
            if isinstance(a, ITE): return mkite(a.c, s.bitop2(st, op, a.a, b, w), s.bitop2(st, op, a.b, b, w))
            if isinstance(a, Opq) and a.op == 'cat':
                n = len(a.a); k = w // n
                return mkcat([s.bitop2(st, op, x, C(_sgn((cb >> (k * i)) & ((1 << k) - 1), k)), k) for i, x in enumerate(a.a)], w)
            if isinstance(a, Opq) and a.op == 'movmsk':
                if op == 'and':
                    return mkmovmsk([c for c in a.a], w, cb)
                if op == 'xor':
                    return Opq('movmsk', [T.bnot(c) if (cb >> i) & 1 else c for i, c in enumerate(a.a)], w)
            if isinstance(a, Opq) and a.op == 'sign' and op in ('or', 'xor'):
                f = bits2float(cb, w)
                if not isinstance(f, FromBits): return s.bitop2(st, op, Bits(f, w), a, w)
            if isinstance(a, P):
                if op == 'and':
                    u = cb % (1 << w)
                    if u & (u + 1) == 0:          # low mask
                        return T.imod(a, C(u + 1))
                    inv = (~u) % (1 << w)
                    if inv & (inv + 1) == 0:       # clear low bits
                        return T.idiv(a, C(inv + 1)) * (inv + 1)
                if op == 'xor' and cb == -1: return -a - 1
                if op == 'or':
                    # a multiple of 2^k with small b
                    k = 1
                    while k <= abs(cb): k *= 2
                    if cb >= 0 and all(c % k == 0 for m, c in a.t.items()): return a + b
        if isinstance(a, Mask) and isinstance(b, Mask):
            if op == 'and': return Mask(T.band(a.c, b.c), w)
            if op == 'or': return Mask(T.bor(a.c, b.c), w)
            return Mask(T.bor(T.band(a.c, T.bnot(b.c)), T.band(T.bnot(a.c), b.c)), w)
        if isinstance(b, Mask): a, b = b, a
        if isinstance(a, Mask):
            if op == 'and':
                if isinstance(b, Bits): return Bits(T.fite(a.c, b.f, F0), b.w)
                if isinstance(b, P): return ITE(a.c, b, ZERO)
                if isinstance(b, ITE): return mkite(a.c, b, ZERO)
            if op == 'or':
                if isinstance(b, P): return ITE(a.c, C(-1), b)
        if isinstance(a, Bits) and isinstance(b, Bits):
            if op == 'or':
                r = _orite(a.f, b.f)
                if r is not None: return Bits(r, a.w)
        if isinstance(a, Opq) and a.op == 'sign' or isinstance(b, Opq) and b.op == 'sign':
            if isinstance(a, Opq) and a.op == 'sign': a, b = b, a
            if isinstance(a, Bits) and op == 'or' and isinstance(b, Opq) and b.op == 'sign':
                return Bits(T.copysign(a.f, b.a[0]), a.w)
            if isinstance(a, Bits) and op == 'xor' and b.op == 'sign':
                return Bits(T.xorsign(a.f, b.a[0]), a.w)
        if isinstance(a, Opq) and a.op == 'cat' or isinstance(b, Opq) and b.op == 'cat':
            n = len(a.a) if isinstance(a, Opq) and a.op == 'cat' else len(b.a)
            aa = uncat(a, n, w); bb = uncat(b, n, w)
            if aa and bb: return mkcat([s.bitop2(st, op, x, y, w // n) for x, y in zip(aa, bb)], w)
        if isinstance(a, ITE) and isinstance(b, ITE) and a.c is b.c:
            return mkite(a.c, s.bitop2(st, op, a.a, b.a, w), s.bitop2(st, op, a.b, b.b, w))
        if isinstance(a, ITE): return mkite(a.c, s.bitop2(st, op, a.a, b, w), s.bitop2(st, op, a.b, b, w))
        if isinstance(b, ITE): return mkite(b.c, s.bitop2(st, op, a, b.a, w), s.bitop2(st, op, a, b.b, w))
        if isinstance(a, Opq) and isinstance(b, Opq) and a.op == b.op == 'movmsk':
            f = {'and': T.band, 'or': T.bor}.get(op)
            if f: return Opq('movmsk', [f(x, y) for x, y in zip(a.a, b.a)], w)
        if isinstance(a, P) and isinstance(b, P):
            return A(T.atom('bit' + op, tuple(sorted((a.id, b.id))), '(%r %s %r)' % (a, op, b), meta={'args': (a, b), 'mk': lambda x, y: s.bitop2(None, op, x, y, w)}))
        raise Unsupported('%s of %r and %r' % (op, a, b))

    def bitop2(s, st, op, a, b, w):
        if isinstance(a, P) and isinstance(b, P):
            x, y = a.const(), b.const()
            if x is not None and y is not None: return C({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
        return s.bitop(st, op, a, b, w)

    def cast(s, st, op, a, t0, t1):
        if t1.k == 'vec' or t0.k == 'vec':
            if op == 'bitcast': return s.bitcast(a, t0, t1)
            return [s.cast(st, op, x, t0.e, t1.e) for x in a]
        if a is UNDEF: return UNDEF
        if op == 'bitcast':
            if t0.k == 'ptr' and t1.k == 'ptr': return a
            return s.bitcast(a, t0, t1)
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            if op == 'ptrtoint' and a is NULL: return ZERO
            if op == 'inttoptr' and isinstance(a, P) and a.const() == 0: return NULL
            return a
        if op == 'zext':
            if isinstance(a, B): return b2i(a)
            if isinstance(a, P) and a.const() is not None: return C(a.const() % (1 << t0.w))
            if isinstance(a, (Bits, Mask)) and t1.w == 64: return mkcat([a, ZERO], 64)
            if isinstance(a, P) and t0.w >= 32:
                nn = s.decide(st, T.ble(0, a))
                if nn is None: s.note('unsigned-nonneg', 'values zero-extended from %d bits are non-negative' % t0.w)
                elif not nn: raise Unsupported('zext of a negative value')
            return a
        if op == 'sext':
            if isinstance(a, B): return Mask(a, t1.w) if a.op != 'const' else (C(-1) if a is TRUE else ZERO)
            if isinstance(a, Mask): return Mask(a.c, t1.w)
            return a
        if op == 'trunc':
            if t1.w == 1:
                if isinstance(a, P):
                    if a.const() is not None: return TRUE if a.const() & 1 else FALSE
                    return T.bnot(T.beq0(T.imod(a, C(2))))
                if isinstance(a, ITE): return T.bor(T.band(a.c, s.cast(st, op, a.a, t0, t1)), T.band(T.bnot(a.c), s.cast(st, op, a.b, t0, t1)))
                if isinstance(a, Mask): return a.c
                return s.tobool(st, a)
            if isinstance(a, P):
                c = a.const()
                if c is not None: return C(_sgn(c % (1 << t1.w), t1.w))
                if t0.w == 64 and t1.w == 32: s.note('trunc', '64->32 bit integer truncations preserve the value')
                elif t1.w in (8, 16):
                    s.note('trunc%d' % t1.w, 'integer truncations to %d bits preserve the value' % t1.w)
                return a
            if isinstance(a, Opq) and a.op == 'cat':
                n = len(a.a); k = t0.w // n
                if t1.w == k: return a.a[0]
                if t1.w % k == 0: return mkcat(list(a.a[:t1.w // k]), t1.w)
            if isinstance(a, ITE): return ITE(a.c, s.cast(st, op, a.a, t0, t1), s.cast(st, op, a.b, t0, t1))
            if isinstance(a, Mask): return Mask(a.c, t1.w)
            raise Unsupported('trunc %r' % (a,))
        if op in ('sitofp', 'uitofp'):
            if isinstance(a, ITE): return T.fite(a.c, s.cast(st, op, a.a, t0, t1), s.cast(st, op, a.b, t0, t1))
            if isinstance(a, B): return T.fite(a, F1 if op == 'uitofp' else T.fc(-1), F0)
            if isinstance(a, Mask): return T.fite(a.c, T.fc(-1), F0)
            if isinstance(a, P):
                c = a.const()
                if c is not None and op == 'uitofp': return T.fc(Fraction(c % (1 << t0.w)))
                return T.i2f(a)
            raise Unsupported('sitofp %r' % (a,))
        if op in ('fptosi', 'fptoui'):
            return s.fptoi(st, s.tof(a))
        if op in ('fpext', 'fptrunc'):
            return s.tof(a)
        raise Unsupported(op)

    def fptoi(s, st, f):
        r = s.dist(st, f)
        if r is not None: return r
        h = getattr(s, 'fptoi_hook', None)
        if h:
            r = h(st, f)
            if r is not None: return r
        return T.f2i(f)

    def dist(s, st, f):
        """int( (Q/P)*p + 1/2 ), the work-distribution boundary I(Q,P,p)"""
        if f.op != '+': return None
        a, b = f.a
        if a.op == 'c': a, b = b, a
        if b.op != 'c' or b.a[0] != Fraction(1, 2): return None
        num = []; den = []

        def walk(x):
            if x.op == '*': walk(x.a[0]); walk(x.a[1]); return
            if x.op == '/': walk(x.a[0]); den.append(x.a[1]); return
            num.append(x)
        walk(a)
        if len(den) == 0:
            # (Q/P)*p with concrete values was folded
            c = a.a[0] if a.op == 'c' else None
            return None
        if len(den) != 1: return None
        if any(x.op not in ('i2f', 'c') for x in num + den): return None
        ii = lambda x: x.a[0] if x.op == 'i2f' else C(int(x.a[0])) if x.a[0].denominator == 1 else None
        Pn = ii(den[0])
        nn = [ii(x) for x in num]
        if Pn is None or None in nn or len(nn) > 2: return None
        if len(nn) == 1: nn.append(ONE)
        # p is the factor compared with P: 0 <= p <= P
        for p, Q in ((nn[0], nn[1]), (nn[1], nn[0])):
            if s.prove(st, T.ble(0, p)) and s.prove(st, T.ble(p, Pn)): break
        else: return None
        return s.distI(st, Q, Pn, p)

    def distI(s, st, Q, Pn, p):
        if p.const() == 0: return ZERO
        if p is Pn: return Q
        def mk(q, n, x): return s.distI(st, q, n, x)
        key = (Q.id, Pn.id, p.id)
        kn = s.__dict__.setdefault('_distk', {})
        if key not in kn: kn[key] = S.prove(s.facts, T.ble(0, Q))
        pos = kn[key]      # otherwise the lemma holds only where Q >= 0
        at = T.atom('dist', key + (() if pos else ('?',)), 'I(%r|%r|%r)' % (Q, Pn, p), lo=0 if pos else None, meta={'args': (Q, Pn, p), 'mk': mk})
        if not s.__dict__.setdefault('_dist', {}).get(at.id):
            s._dist[at.id] = (Q, Pn, p, at)
            gd = (lambda f: f) if pos else (lambda f: T.bor(T.bnot(T.ble(0, Q)), f))
            if not pos: s.facts.append(gd(T.ble(0, A(at))))
            s.facts.append(gd(T.ble(A(at), Q)))
            s.facts.append(T.bor(T.bnot(T.beq(p, Pn)), T.beq(A(at), Q)))
            s.facts.append(T.bor(T.bnot(T.beq(p, 0)), T.beq(A(at), 0)))
            for (q2, n2, p2, a2) in list(s._dist.values()):
                if a2 is at or q2 is not Q or n2 is not Pn: continue
                c = (p - p2).const()
                if c is None: continue
                s.facts.append(gd(T.ble(A(a2), A(at)) if c > 0 else T.ble(A(at), A(a2))))
            s.note('distribute', 'lemma (real arithmetic): I(p)=int(p*Q/P+1/2) is monotone in p, I(0)=0, I(P)=Q')
        return A(at)

    def note(s, k, txt): s.notes[k] = txt

    def bitcast(s, a, t0, t1):
        if a is UNDEF: return [UNDEF] * t1.n if t1.k == 'vec' else UNDEF
        src = a if isinstance(a, list) else [a]
        e0 = t0.e if t0.k == 'vec' else t0; e1 = t1.e if t1.k == 'vec' else t1
        w0 = e0.w; w1 = e1.w
        n1 = t1.n if t1.k == 'vec' else 1
        out = src
        if w0 == 1:     # <n x i1> -> iN
            return Opq('movmsk', [x for x in src], t1.w)
        if w1 == 1:
            if isinstance(a, Opq) and a.op == 'movmsk': return list(a.a)
            if isinstance(a, P) and a.const() is not None: return [TRUE if (a.const() >> i) & 1 else FALSE for i in range(n1)]
            raise Unsupported('bitcast to i1 vector')
        if w0 > w1:
            k = w0 // w1; out = []
            for x in src:
                if x is UNDEF: out += [UNDEF] * k; continue
                y = uncat(s.ib(x, w0), k, w0)
                if y is None: raise Unsupported('bitcast split of %r' % (x,))
                out += y
        elif w0 < w1:
            k = w1 // w0
            out = [mkcat(src[i:i + k], w1) for i in range(0, len(src), k)]
        res = []
        for x in out:
            if x is UNDEF: res.append(x); continue
            res.append(s.conv(None, x, e1))
        return res if t1.k == 'vec' else res[0]

    def ib(s, x, w):
        if isinstance(x, FromBits): return x.v
        return x

    # -------------------------------------------------- calls
    def call(s, st, I):
        cal = I.a['callee']
        fv = s.val(st, cal, None)
        args = []
        nm = fv.n if isinstance(fv, FnPtr) else None
        if nm and (nm.startswith('@llvm.dbg') or nm.startswith('@llvm.lifetime') or nm.startswith('@llvm.assume') or nm.startswith('@llvm.experimental.noalias') or nm.startswith('@llvm.stack')or nm.startswith('@llvm.prefetch') ):
            if I.res: st.env[I.res] = NULL
            return None
        for t, v, at in I.a['args']:
            args.append(s.val(st, v, t))
        if nm is None:
            h = s.contracts.get('*indirect')
            if h:
                return h(s, st, fv, args, I)
            raise Unsupported('indirect call %s' % I.text[:120])
        return s.call_named(st, nm, args, I)

    def call_named(s, st, nm, args, I=None):
        base = demangle(nm)
        h = s.contracts.get(base)
        if h is not None:
            r = h(s, st, args, I)
            if isinstance(r, list): return r
            if I is not None and I.res: st.env[I.res] = r
            return None if I is not None else [(st, r)]
        from .intrin import intrinsic
        ok, r = intrinsic(s, st, nm, base, args, I)
        if ok:
            if I is not None and I.res: st.env[I.res] = r
            return None if I is not None else [(st, r)]
        for m in [s.mod] + s.link:
            if nm in m.fns:
                return s.run(nm, args, st)
        raise Unsupported('call to %s (no contract)' % base)


def replace_node(v, old, new, memo=None):
    memo = {} if memo is None else memo
    if v is old: return new
    if v in memo: return memo[v]
    if isinstance(v, F):
        if v.op in ('c', 's', 'mem', 'i2f'): r = v
        else: r = T.rebuild(v.op, [replace_node(x, old, new, memo) if isinstance(x, (F, B)) else x for x in v.a])
    elif isinstance(v, B):
        if v.op in ('const', 'le', 'eq'): r = v
        else:
            a = [replace_node(x, old, new, memo) if isinstance(x, (F, B)) else x for x in v.a]
            r = T.bnot(a[0]) if v.op == 'not' else T.band(*a) if v.op == 'and' else T.bor(*a) if v.op == 'or' else T.bflt(*a) if v.op == 'flt' else T.bfeq(*a) if v.op == 'feq' else T._B(v.op, *a)
    else: r = v
    memo[v] = r
    return r


def has_cur(v, reg):
    return any(x.op == 'mem' and x.a[0] == reg and x.a[1] == 'cur' for x in T.fatoms(v))


def pit_eq(a, b, n=3):
    if a is b: return True
    seed = 100; got = 0
    while got < n:
        p = T.PIT(seed); seed += 1
        x = p.ev(a); y = p.ev(b)
        if p.fail:
            if seed > 1200: return False
            continue
        if x != y: return False
        got += 1
    return True


def _bound_deps(e, bound):
    d = T.deps(e.off)
    st = [e.val]
    d |= T.deps(e.val)
    # mem nodes carry polynomials that int_atoms() already visits
    return d & set(bound)


def _samelog(a, b):
    return len(a) == len(b) and all(x is y or (isinstance(x, Store) and isinstance(y, Store) and x.off is y.off and x.size == y.size and same(x.val, y.val)) for x, y in zip(a, b))


FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
BIN = FBIN | {'add', 'sub', 'mul', 'shl', 'sdiv', 'udiv', 'srem', 'urem', 'lshr', 'ashr', 'and', 'or', 'xor'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'}


def _sgn(v, w):
    v %= 1 << w
    return v - (1 << w) if v >> (w - 1) else v


def b2i(b):
    if b.op == 'const': return ONE if b.a[0] else ZERO
    return ITE(b, ONE, ZERO)


def mkite(c, a, b): return T.mk_ite(c, a, b)


def mkcat(parts, w):
    k = w // len(parts)
    flat = []
    for p in parts:
        if isinstance(p, FromBits): p = p.v
        if isinstance(p, F):
            p = Bits(p, k)
        flat.append(p)
    if all(isinstance(p, P) and p.const() is not None for p in flat):
        v = 0
        for i, p in enumerate(flat): v |= (p.const() % (1 << k)) << (k * i)
        return C(_sgn(v, w))
    if all(isinstance(p, Mask) for p in flat) and all(p.c is flat[0].c for p in flat): return Mask(flat[0].c, w)
    # regroup nested cats of equal granularity
    if all(isinstance(p, Opq) and p.op == 'cat' for p in flat):
        return Opq('cat', [y for p in flat for y in p.a], w)
    if any(isinstance(p, Opq) and p.op == 'cat' for p in flat):
        n = max(len(p.a) for p in flat if isinstance(p, Opq) and p.op == 'cat')
        out = []
        for p in flat:
            u = uncat(p, n, k)
            if u is None: return Opq('cat', flat, w)
            out += u
        return Opq('cat', out, w)
    return Opq('cat', flat, w)


def uncat(x, n, w):
    if isinstance(x, Opq) and x.op == 'cat':
        m = len(x.a)
        if m == n: return list(x.a)
        if m % n == 0:
            k = m // n
            return [mkcat(list(x.a[i * k:(i + 1) * k]), w // n) for i in range(n)]
        if n % m == 0:
            out = []
            for y in x.a:
                u = uncat(y, n // m, w // m)
                if u is None: return None
                out += u
            return out
        return None
    if isinstance(x, P) and x.const() is not None:
        k = w // n
        return [C(_sgn((x.const() >> (k * i)) & ((1 << k) - 1), k)) for i in range(n)]
    if isinstance(x, Mask): return [Mask(x.c, w // n)] * n
    if isinstance(x, (P,)) and n == 2: return [x, ZERO]
    if isinstance(x, ITE):
        a = uncat(x.a, n, w); b = uncat(x.b, n, w)
        if a and b: return [mkite(x.c, p, q) for p, q in zip(a, b)]
    return None


def _orite(a, b):
    """bit-or of two floats of which one is +0 on each side of the same condition"""
    if a is F0: return b
    if b is F0: return a
    if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]:
        x = _orite(a.a[1], b.a[1]); y = _orite(a.a[2], b.a[2])
        if x is not None and y is not None: return T.fite(a.a[0], x, y)
    if a.op == 'ite' and b.op == 'ite' and a.a[0] is T.bnot(b.a[0]):
        x = _orite(a.a[1], b.a[2]); y = _orite(a.a[2], b.a[1])
        if x is not None and y is not None: return T.fite(a.a[0], x, y)
    return None


def leaf_literals(bs):
    """the comparisons without alternatives that conditions depend on"""
    seen = set(); st = list(bs); out = []
    while st:
        x = st.pop()
        if (type(x), x.id) in seen: continue
        seen.add((type(x), x.id))
        if isinstance(x, B) and x.op in ('flt', 'feq') and not T.has_ite(x): out.append(x)
        elif isinstance(x, B) and x.op in ('not', 'and', 'or', 'flt', 'feq') or T.has_ite(x): st += [y for y in x.a if isinstance(y, (F, B))]
    return out


def first_choice(b):
    """the innermost undecided condition a comparison depends on (itself if there is none)"""
    seen = set(); st = [b]; best = b
    while st:
        x = st.pop()
        if (type(x), x.id) in seen or not T.has_ite(x): continue
        seen.add((type(x), x.id))
        if isinstance(x, F) and x.op == 'ite' and not T.has_ite(x.a[0]): return x.a[0]
        st += [y for y in x.a if isinstance(y, (F, B))]
    return best


def snap(x, E=None):
    """a literal that is a small fraction rounded to float precision denotes that fraction"""
    d = x.denominator
    if d < 1 << 20 or d & (d - 1): return x
    for q in (3, 5, 7, 9, 15, 6, 10, 12):
        n = round(x * q)
        if n and abs(x - Fraction(n, q)) * (1 << 24) <= abs(x):
            if E is not None: E.note('literals', 'float literals within half an ulp of n/3, n/5, n/7, n/9, n/15 denote that fraction')
            return Fraction(n, q)
    return x


def bits2float(c, w):
    import struct
    c %= 1 << w
    v = struct.unpack('<f' if w == 32 else '<d', struct.pack('<I' if w == 32 else '<Q', c))[0]
    if v != v: return FromBits(C(_sgn(c, w)), w)
    if v in (float('inf'), float('-inf')): return T.fsym('#inf' if v > 0 else '#-inf')
    if 0 < abs(v) < 1.2e-38: return FromBits(C(c), w)
    return T.fc(snap(Fraction(v)))


def float2bits(q, w):
    import struct
    if w == 32: return C(_sgn(struct.unpack('<I', struct.pack('<f', float(q)))[0], 32))
    return C(_sgn(struct.unpack('<Q', struct.pack('<d', float(q)))[0], 64))


def mkmovmsk(cs, w, mask):
    return Opq('movmsk', [c if (mask >> i) & 1 else FALSE for i, c in enumerate(cs)], w)


_dm = {}


def demangle(nm):
    """@_Z23advance_b_pipeline_scalarP... -> advance_b_pipeline_scalar; keeps C names"""
    if nm in _dm: return _dm[nm]
    n = nm[1:].strip('"')
    m = re.match(r'_ZL?(\d+)', n)
    if m:
        k = int(m.group(1)); i = m.end()
        r = n[i:i + k]
    elif n.startswith('_ZN'):
        parts = []; i = 3
        if n[i] == 'K': i += 1
        while i < len(n) and (n[i].isdigit()):
            m = re.match(r'\d+', n[i:]); k = int(m.group()); i += len(m.group()); parts.append(n[i:i + k]); i += k
        r = '::'.join(parts)
        if i < len(n) and n[i:i + 2] in ('C1', 'C2'): r += '::ctor'
    else: r = n
    if '.omp_outlined' in n and '.omp_outlined' not in r: r += '.omp_outlined'
    _dm[nm] = r
    return r
