"""Symbolic terms.

Integers are polynomials with integer coefficients over atoms (mathematical
integers); floating-point values are terms over the reals; addresses are a
region plus an integer polynomial offset.  All terms are hash-consed."""
from fractions import Fraction
from .ir import Unsupported
import struct as _struct

# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('id', 'kind', 'key', 'lo', 'hi', 'name', 'meta', 'deps')
    _tab = {}
    _n = 0
    _byid = []

    def __repr__(s):
        return s.name


def atom(kind, key, name=None, lo=None, hi=None, meta=None):
    k = (kind, key)
    a = Atom._tab.get(k)
    if a is None:
        a = Atom(); a.id = len(Atom._byid); a.kind = kind; a.key = key; a.lo = lo; a.hi = hi; a.meta = meta
        a.name = name or ('%s%r' % (kind, key))
        d = set()
        if meta and 'args' in meta:
            for x in meta['args']:
                for i in int_atoms(x):
                    d.add(i); d |= Atom._byid[i].deps
        a.deps = frozenset(d)
        Atom._tab[k] = a; Atom._byid.append(a)
    return a


_fresh = [0]


def fresh(prefix, lo=None, hi=None, meta=None):
    _fresh[0] += 1
    nm = '%s!%d' % (prefix, _fresh[0])
    return atom('sym', nm, nm, lo, hi, meta)


# ------------------------------------------------------------------ int polynomials
class P:
    __slots__ = ('t', 'h', 'id')
    _tab = {}

    def __new__(cls, t):
        key = tuple(sorted(t.items()))
        p = P._tab.get(key)
        if p is None:
            p = object.__new__(cls); p.t = dict(t); p.h = hash(key); p.id = len(P._tab)
            P._tab[key] = p
        return p

    def __hash__(s): return s.h

    def __eq__(s, o): return s is o

    def const(s):
        """int if constant else None"""
        if not s.t: return 0
        if len(s.t) == 1 and () in s.t: return s.t[()]
        return None

    def __add__(s, o):
        if isinstance(o, int): o = C(o)
        if not s.t: return o
        if not o.t: return s
        r = dict(s.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v: r[m] = v
            else: r.pop(m, None)
        return P(r)
    __radd__ = __add__

    def __neg__(s): return P({m: -c for m, c in s.t.items()})

    def __sub__(s, o):
        if isinstance(o, int): o = C(o)
        return s + (-o)

    def __rsub__(s, o): return (-s) + o

    def __mul__(s, o):
        if isinstance(o, int):
            if o == 0: return ZERO
            if o == 1: return s
            return P({m: c * o for m, c in s.t.items()})
        r = {}
        for m, c in s.t.items():
            for m2, c2 in o.t.items():
                k = tuple(sorted(m + m2)) if m and m2 else (m or m2)
                v = r.get(k, 0) + c * c2
                if v: r[k] = v
                else: r.pop(k, None)
        return P(r)
    __rmul__ = __mul__

    def atoms(s):
        r = set()
        for m in s.t: r.update(m)
        return r      # ids

    def subst(s, sub):
        """sub: {atom id: P}"""
        at = s.atoms()
        dep = [i for i in at if i not in sub and Atom._byid[i].deps and any(d in sub for d in Atom._byid[i].deps)]
        if dep:
            sub = dict(sub)
            for i in dep:
                m = Atom._byid[i].meta
                r = m['mk'](*[_subst(x, sub, {}) for x in m['args']])
                sub[i] = r
        elif not (at & sub.keys()): return s
        out = ZERO
        keep = {}
        for m, c in s.t.items():
            if not any(a in sub for a in m):
                keep[m] = c; continue
            term = C(c); den = 1
            for a in m:
                w = sub[a] if a in sub else A(Atom._byid[a])
                if isinstance(w, tuple): w, q = w; den *= q
                term = term * w
            if den != 1:
                if any(v % den for v in term.t.values()): raise Unsupported('fractional row index')
                term = P({mm: v // den for mm, v in term.t.items()})
            out = out + term
        return out + P(keep)

    def eval(s, env):
        """env(atom id) -> int"""
        v = 0
        for m, c in s.t.items():
            x = c
            for a in m: x *= env(a)
            v += x
        return v

    def __repr__(s):
        if not s.t: return '0'
        out = []
        for m, c in sorted(s.t.items(), key=lambda x: (-len(x[0]), x[0])):
            ms = '*'.join(Atom._byid[a].name for a in m)
            if not m: out.append('%+d' % c)
            elif c == 1: out.append('+' + ms)
            elif c == -1: out.append('-' + ms)
            else: out.append('%+d*%s' % (c, ms))
        r = ''.join(out)
        return r[1:] if r[0] == '+' else r


def C(n): return P({(): n} if n else {})


ZERO = P({})
ONE = C(1)


def A(a): return P({(a.id,): 1})


def sym(name, lo=None, hi=None):
    return A(atom('sym', name, name, lo, hi))


def as_p(x):
    return C(x) if isinstance(x, int) else x


def deps(v):
    """ids of all int atoms v depends on, including through dependent atoms"""
    r = set(int_atoms(v))
    for i in list(r): r |= Atom._byid[i].deps
    return r


def gcd_nonconst(p):
    from math import gcd
    g = 0
    for m, c in p.t.items():
        if m: g = gcd(g, abs(c))
    return g


# ------------------------------------------------------------------ float terms
class F:
    __slots__ = ('op', 'a', 'id', 'fa')
    _tab = {}
    _all = []

    def __hash__(s): return s.id

    def __eq__(s, o): return s is o

    def __add__(s, o): return fadd(s, fl(o))
    def __radd__(s, o): return fadd(fl(o), s)
    def __sub__(s, o): return fsub(s, fl(o))
    def __rsub__(s, o): return fsub(fl(o), s)
    def __mul__(s, o): return fmul(s, fl(o))
    def __rmul__(s, o): return fmul(fl(o), s)
    def __truediv__(s, o): return fdiv(s, fl(o))
    def __rtruediv__(s, o): return fdiv(fl(o), s)
    def __neg__(s): return fneg(s)

    def __repr__(s): return fstr(s, 4)


def _F(op, *a):
    k = (op,) + a
    n = F._tab.get(k)
    if n is None:
        n = F(); n.op = op; n.a = a; n.id = len(F._all); n.fa = None
        F._all.append(n); F._tab[k] = n
    return n


def fstr(n, d=4):
    if n.op == 'c': return str(n.a[0]) if n.a[0].denominator < 10**6 else '%.9g' % float(n.a[0])
    if n.op == 's': return str(n.a[0])
    if n.op == 'mem': return '%s[%r]' % (n.a[0], n.a[2])
    if n.op == 'i2f': return 'float(%r)' % (n.a[0],)
    if d == 0: return '...'
    if n.op in '+*/': return '(' + (' %s ' % n.op).join(fstr(x, d - 1) for x in n.a) + ')'
    return '%s(%s)' % (n.op, ', '.join(fstr(x, d - 1) if isinstance(x, F) else str(x) for x in n.a))


def simple_rat(v):
    """nearest simple rational of a binary constant: assumption 'constants'."""
    if v.denominator == 1 or abs(v) > 1e12 or abs(v) < Fraction(1, 10**12): return v
    # exact short binary fractions stay
    if v.denominator <= 4096: return v
    r = v.limit_denominator(2000)
    if abs(r - v) <= abs(v) * Fraction(1, 1 << 23): return r
    # inverse / decimal constants: up to 6 decimals
    return v


def fc(v):
    if isinstance(v, float): v = Fraction(v)
    if isinstance(v, int): v = Fraction(v)
    return _F('c', simple_rat(v))


F0 = fc(0); F1 = fc(1)


def fsym(name): return _F('s', name)


def fl(x):
    if isinstance(x, F): return x
    if isinstance(x, P): return i2f(x)
    return fc(x)


def fadd(a, b):
    if a is F0: return b
    if b is F0: return a
    if a.op == 'c' and b.op == 'c': return _F('c', a.a[0] + b.a[0])
    if a.id > b.id: a, b = b, a
    return _F('+', a, b)


def fneg(a):
    if a.op == 'c': return _F('c', -a.a[0])
    if a.op == '*' and a.a[0].op == 'c': return fmul(fc_raw(-a.a[0].a[0]), a.a[1])
    return fmul(fc(-1), a)


def fc_raw(v): return _F('c', v)


def fsub(a, b):
    if a is b: return F0
    return fadd(a, fneg(b))


def fmul(a, b):
    if a.op == 'c' and b.op == 'c': return _F('c', a.a[0] * b.a[0])
    if a is F0 or b is F0: return F0      # reals: no inf/nan
    if a is F1: return b
    if b is F1: return a
    if b.op == 'c' or (a.op != 'c' and a.id > b.id): a, b = b, a
    if a.op == 'c' and b.op == '*' and b.a[0].op == 'c': return fmul(fc_raw(a.a[0] * b.a[0].a[0]), b.a[1])
    return _F('*', a, b)


def fdiv(a, b):
    if b.op == 'c' and b.a[0] != 0: return fmul(fc_raw(1 / b.a[0]), a)
    if a is F0: return F0
    if a is b: return F1
    return _F('/', a, b)


def fsqrt(a):
    if a is F0 or a is F1: return a
    if a.op == '/' and a.a[0] is F1: return fdiv(F1, fsqrt(a.a[1]))
    return _F('sqrt', a)


def ffn(name, *args):
    return _F('fn', name, *args)


def fite(c, a, b):
    if a is b: return a
    if c.op == 'const': return a if c.a[0] else b
    if c.op == 'not': return _F('ite', c.a[0], b, a)
    return _F('ite', c, a, b)


def i2f(p):
    c = p.const()
    if c is not None: return fc(c)
    # linear: keep opaque but canonical; sums are expanded at evaluation
    return _F('i2f', p)


def fmem(reg, ver, off, ty):
    return _F('mem', reg, ver, off, ty)


def copysign(a, b):
    """magnitude of a with the sign of b (a zero b counts as positive: its sign bit is not modelled)"""
    m = fabs_(a); return fite(bflt(b, F0), fneg(m), m)


def xorsign(a, b): return fite(bflt(b, F0), fneg(a), a)


def fabs_(a):
    if a.op == 'c': return fc_raw(abs(a.a[0]))
    if a.op == '*' and a.a[0].op == 'c' : return fmul(fc_raw(abs(a.a[0].a[0])), fabs_(a.a[1]))
    if a.op == 'fn' and a.a[0] == 'abs': return a
    return ffn('abs', a)


# ------------------------------------------------------------------ booleans
class B:
    __slots__ = ('op', 'a', 'id')
    _tab = {}
    _n = [0]

    def __hash__(s): return s.id

    def __eq__(s, o): return s is o

    def __repr__(s):
        if s.op == 'const': return str(s.a[0])
        if s.op == 'le': return '(%r <= 0)' % s.a[0]
        if s.op == 'eq': return '(%r == 0)' % s.a[0]
        if s.op == 'not': return '!' + repr(s.a[0])
        if s.op in ('and', 'or'): return '(' + (' %s ' % s.op).join(map(repr, s.a)) + ')'
        if s.op == 'flt': return '(%r < 0)' % s.a[0]
        if s.op == 'feq': return '(%r == 0)' % s.a[0]
        return '%s%r' % (s.op, s.a)


def _B(op, *a):
    k = (op,) + a
    n = B._tab.get(k)
    if n is None:
        n = object.__new__(B); n.op = op; n.a = a; n.id = len(B._tab); B._tab[k] = n
    return n


TRUE = _B('const', True)
FALSE = _B('const', False)


def bconst(v): return TRUE if v else FALSE


def ble0(p):          # p <= 0
    c = p.const()
    if c is not None: return bconst(c <= 0)
    # normalise by gcd of the coefficients
    g = gcd_nonconst(p)
    if g > 1:
        r = {}
        for m, cc in p.t.items():
            if m: r[m] = cc // g
        k = p.t.get((), 0)
        # g*q + k <= 0  <=> q <= -k/g  <=> q + ceil(k/g) <= 0
        kk = -((-k) // g)
        if kk: r[()] = kk
        p = P(r)
    return _B('le', p)


def beq0(p):
    c = p.const()
    if c is not None: return bconst(c == 0)
    g = gcd_nonconst(p)
    k = p.t.get((), 0)
    if g > 1:
        if k % g: return FALSE
        p = P({m: cc // g for m, cc in p.t.items()})
    # sign normal form
    m0 = min(m for m in p.t if m)
    if p.t[m0] < 0: p = -p
    return _B('eq', p)


def ble(a, b): return ble0(as_p(a) - as_p(b))
def blt(a, b): return ble0(as_p(a) - as_p(b) + 1)
def bge(a, b): return ble(b, a)
def bgt(a, b): return blt(b, a)
def beq(a, b): return beq0(as_p(a) - as_p(b))


def bnot(x):
    if x.op == 'const': return bconst(not x.a[0])
    if x.op == 'not': return x.a[0]
    if x.op == 'le': return ble0(ONE - x.a[0])
    if x.op == 'and': return bor(*[bnot(y) for y in x.a])
    if x.op == 'or': return band(*[bnot(y) for y in x.a])
    return _B('not', x)


def band(*xs):
    out = []
    for x in xs:
        if x.op == 'const':
            if not x.a[0]: return FALSE
            continue
        if x.op == 'and': out += [y for y in x.a if y not in out]
        elif x not in out: out.append(x)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return _B('and', *sorted(out, key=lambda y: y.id))


def bor(*xs):
    out = []
    for x in xs:
        if x.op == 'const':
            if x.a[0]: return TRUE
            continue
        if x.op == 'or': out += [y for y in x.a if y not in out]
        elif x not in out: out.append(x)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return _B('or', *sorted(out, key=lambda y: y.id))


def bflt(a, b):
    """a < b over the reals"""
    d = fsub(a, b)
    if d.op == 'c': return bconst(d.a[0] < 0)
    return _canlit('flt', a, b, d)


def bfle(a, b): return bnot(bflt(b, a))


def bfeq(a, b):
    d = fsub(a, b)
    if d.op == 'c': return bconst(d.a[0] == 0)
    if a.id > b.id: a, b = b, a
    return _canlit('feq', a, b, d)


_canl = {}; _canp = []


class _Ite(Exception): pass


class _Bad(Exception): pass


def _canlit(op, a, b, d):
    """comparisons that are the same up to real-arithmetic identity become the same literal"""
    canpoints()
    k = [op]; n = 0
    try:
        for q in _canp:
            try: k += [q.seed, q.ev(d)]; n += 1
            except _Bad: k = k[:1 + 2 * n]; continue
            if n == 2: break
        else: return _B(op, a, b)
    except _Ite: return _B(op, a, b)
    u, v = k[2], k[4]
    if not u or not v: return _B(op, a, b)
    # the difference up to a positive constant factor (up to any factor for equality)
    k = (op, k[1], k[3], v * pow(u, -1, PRIME) % PRIME)
    l = _canl.setdefault(k, [])
    for u0, r in l:
        c = ratrec(u * pow(u0, -1, PRIME) % PRIME)
        if c is None: continue
        if (op == 'feq' or c > 0) and (not has_sqrt(d) or rescaled(d, fsub(r.a[0], r.a[1]), c)): return r
    r = _B(op, a, b); l.append((u, r))
    return r


def canpoints():
    if not _canp:
        class CP(PIT):
            def tv(s, c): raise _Ite()

            def _ev(s, x):
                r = PIT._ev(s, x)
                if s.fail: s.fail = False; raise _Bad()
                return r
        _canp.extend(CP(x) for x in range(101, 301))
    return _canp


_fp = {}


def fingerprint(d):
    """(points used, ratio of the values there, value) of a term without undecided alternatives, or None"""
    if d in _fp: return _fp[d]
    r = []; k = []; out = None
    for q in canpoints():
        try: v = q.ev(d)
        except _Bad: continue
        except _Ite: break
        r.append(v); k.append(q.seed)
        if len(r) == 2:
            if r[0] and r[1]: out = (tuple(k), r[1] * pow(r[0], -1, PRIME) % PRIME, r[0])
            break
    _fp[d] = out
    return out


def relate(f, g):
    """constant c with g == c f for two fingerprints, or None"""
    if f[:2] != g[:2]: return None
    return ratrec(g[2] * pow(f[2], -1, PRIME) % PRIME)


_ites = {}


def has_ite(v):
    """does a float term or condition contain an undecided alternative"""
    if not isinstance(v, (F, B)): return False
    if isinstance(v, F) and v.op in ('mem', 's', 'c', 'i2f'): return False
    k = (isinstance(v, F), v.id); r = _ites.get(k)
    if r is None: r = _ites[k] = isinstance(v, F) and v.op == 'ite' or any(has_ite(x) for x in v.a)
    return r


_sqs = {}


def has_sqrt(d):
    r = _sqs.get(d)
    if r is None:
        for x in post(d, _sqs):
            _sqs[x] = x.op == 'sqrt' or x.op not in ('mem', 's', 'c') and any(_sqs[y] for y in x.a if isinstance(y, F))
        r = _sqs[d]
    return r


def post(d, done):
    """float subterms not in done, children first"""
    out = []; st = [(d, 0)]; seen = set()
    while st:
        x, w = st.pop()
        if w: out.append(x); continue
        if x in seen or x in done: continue
        seen.add(x); st.append((x, 1))
        if x.op not in ('mem', 's', 'c'): st += [(y, 0) for y in x.a if isinstance(y, F)]
    return out


_resc = {}; _ufp = []


def rescaled(d, e, c):
    """d == c e at several more points (roots are only determined up to their sign in the test field)"""
    if d is e and c == 1: return True
    k = (d.id, e.id, c); r = _resc.get(k)
    if r is None: r = _resc[k] = _rescaled(d, e, c)
    return r


def _rescaled(d, e, c):
    c = c.numerator * pow(c.denominator, -1, PRIME) % PRIME
    # equal whatever function of its argument the root is?
    if not _ufp:
        class UP(PIT):
            def tv(s, c): raise _Ite()

            def _ev(s, x):
                if x.op == 'sqrt': return s.rnd('Q%d' % s.memo[x.a[0]])
                r = PIT._ev(s, x)
                if s.fail: s.fail = False; raise _Bad()
                return r
        _ufp.extend(UP(x) for x in (401, 402))
    try:
        if all((u.ev(d) - c * u.ev(e)) % PRIME == 0 for u in _ufp): return True
    except _Bad: pass
    n = 0
    for q in _canp:
        try: x, y = q.ev(d), q.ev(e)
        except _Bad: continue
        if (x - c * y) % PRIME: return False
        n += 1
        if n == 14: return True
    return False


def ratrec(x, lim=1 << 24):
    """the small fraction congruent to x, if there is one"""
    r0, r1, t0, t1 = PRIME, x, 0, 1
    while r1 > lim: q = r0 // r1; r0, r1, t0, t1 = r1, r0 - q * r1, t1, t0 - q * t1
    if not t1 or abs(t1) > lim: return None
    return Fraction(r1, t1)


def batom(*key): return _B('atom', *key)


# ------------------------------------------------------------------ other values
class Ptr:
    __slots__ = ('r', 'o')

    def __init__(s, r, o): s.r = r; s.o = o

    def __eq__(s, o): return isinstance(o, Ptr) and s.r == o.r and s.o is o.o

    def __hash__(s): return hash((s.r, s.o.id))

    def __repr__(s): return '&%s+%r' % (s.r, s.o)


class Null:
    def __repr__(s): return 'null'


NULL = Null()


class FnPtr:
    __slots__ = ('n',)

    def __init__(s, n): s.n = n

    def __eq__(s, o): return isinstance(o, FnPtr) and s.n == o.n

    def __hash__(s): return hash(s.n)

    def __repr__(s): return '&' + s.n


class Undef:
    def __repr__(s): return 'undef'


UNDEF = Undef()


class Bits:
    """integer bit pattern of a float term"""
    __slots__ = ('f', 'w')

    def __init__(s, f, w): s.f = f; s.w = w

    def __eq__(s, o): return isinstance(o, Bits) and s.f is o.f and s.w == o.w

    def __hash__(s): return hash((s.f.id, s.w))

    def __repr__(s): return 'bits(%r)' % (s.f,)


class FromBits:
    """float whose bit pattern is an integer/mask value (e.g. a lane mask)"""
    __slots__ = ('v', 'w')

    def __init__(s, v, w): s.v = v; s.w = w

    def __eq__(s, o): return isinstance(o, FromBits) and same(s.v, o.v)

    def __hash__(s): return 7

    def __repr__(s): return 'frombits(%r)' % (s.v,)


class Mask:
    """all-ones if c else zero (w-bit)"""
    __slots__ = ('c', 'w')

    def __init__(s, c, w): s.c = c; s.w = w

    def __eq__(s, o): return isinstance(o, Mask) and s.c is o.c

    def __hash__(s): return hash(s.c.id)

    def __repr__(s): return 'mask(%r)' % (s.c,)


class ITE:
    """undecided choice between two non-float values (kept lazily)"""
    __slots__ = ('c', 'a', 'b')

    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b

    def __eq__(s, o): return isinstance(o, ITE) and s.c is o.c and same(s.a, o.a) and same(s.b, o.b)

    def __hash__(s): return hash(s.c.id)

    def __repr__(s): return 'ite(%r,%r,%r)' % (s.c, s.a, s.b)


class Opq:
    """opaque wide value (bit-level op the engine does not interpret)"""
    __slots__ = ('op', 'a', 'w')

    def __init__(s, op, a, w): s.op = op; s.a = tuple(a); s.w = w

    def __eq__(s, o): return isinstance(o, Opq) and s.op == o.op and len(s.a) == len(o.a) and all(same(x, y) for x, y in zip(s.a, o.a))

    def __hash__(s): return hash(s.op)

    def __repr__(s): return '%s%r' % (s.op, s.a)


def same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, (P, F, B)): return False
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


# ------------------------------------------------------------------ substitution
def subst(v, sub, memo=None):
    """substitute int atoms {id: P}, and float nodes / conditions through the keys (True, id) / (False, id)"""
    if memo is None: memo = {}
    if not sub: return v
    return _subst(v, sub, memo)


def _subst(v, sub, memo):
    if isinstance(v, P): return v.subst(sub)
    if isinstance(v, (F, B)):
        k = (isinstance(v, F), v.id)
        if k in memo: return memo[k]
        r = sub.get(k)
        if r is None:
            r = _subst1(v, sub, memo)
            if r is not v: r = sub.get((isinstance(r, F), r.id), r)
        memo[k] = r
        return r
    if isinstance(v, Ptr):
        o = v.o.subst(sub)
        return v if o is v.o else Ptr(v.r, o)
    if isinstance(v, (list, tuple)): return type(v)(_subst(x, sub, memo) for x in v)
    if isinstance(v, Bits): return Bits(_subst(v.f, sub, memo), v.w)
    if isinstance(v, Mask): return Mask(_subst(v.c, sub, memo), v.w)
    if isinstance(v, FromBits): return FromBits(_subst(v.v, sub, memo), v.w)
    if isinstance(v, ITE): return mk_ite(_subst(v.c, sub, memo), _subst(v.a, sub, memo), _subst(v.b, sub, memo))
    if isinstance(v, Opq): return Opq(v.op, [_subst(x, sub, memo) for x in v.a], v.w)
    return v


def mk_ite(c, a, b):
    if c is TRUE or same(a, b): return a
    if c is FALSE: return b
    if isinstance(a, F) and isinstance(b, F): return fite(c, a, b)
    if isinstance(a, B) and isinstance(b, B): return bor(band(c, a), band(bnot(c), b))
    return ITE(c, a, b)


def _subst1(v, sub, memo):
    if isinstance(v, B):
        o = v.op
        if o == 'const': return v
        if o == 'le': return ble0(v.a[0].subst(sub))
        if o == 'eq': return beq0(v.a[0].subst(sub))
        a = [_subst(x, sub, memo) if isinstance(x, (P, F, B)) else x for x in v.a]
        if o == 'not': return bnot(a[0])
        if o == 'and': return band(*a)
        if o == 'or': return bor(*a)
        if o == 'flt': return bflt(*a)
        if o == 'feq': return bfeq(*a)
        return _B(o, *a)
    o = v.op
    if o in ('c', 's'):
        r = sub.get(('s', v.a[0])) if o == 's' else None
        return r if r is not None else v
    a = [_subst(x, sub, memo) if isinstance(x, (P, F, B)) else x for x in v.a]
    return rebuild(o, a)


def rebuild(o, a):
    if o == '+': return fadd(*a)
    if o == '*': return fmul(*a)
    if o == '/': return fdiv(*a)
    if o == 'sqrt': return fsqrt(*a)
    if o == 'ite': return fite(*a)
    if o == 'i2f': return i2f(*a)
    return _F(o, *a)


def fatoms(v, memo=None):
    """set of leaf nodes (op in s/mem/i2f/fn) of a float term"""
    out = set(); st = [v]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if isinstance(x, F):
            if x.op in ('s', 'mem'): out.add(x)
            else: st += [y for y in x.a if isinstance(y, (F, B))]
        elif isinstance(x, B):
            st += [y for y in x.a if isinstance(y, (F, B))]
    return out


def int_atoms(v):
    """ids of int atoms occurring in v"""
    out = set(); st = [v]; seen = set()
    while st:
        x = st.pop()
        if isinstance(x, P): out |= x.atoms(); continue
        if isinstance(x, (F, B)):
            if (type(x), x.id) in seen: continue
            seen.add((type(x), x.id)); st += [y for y in x.a if isinstance(y, (F, B, P))]
        elif isinstance(x, (list, tuple)): st += list(x)
        elif isinstance(x, Ptr): st.append(x.o)
        elif isinstance(x, Bits): st.append(x.f)
        elif isinstance(x, Mask): st.append(x.c)
        elif isinstance(x, FromBits): st.append(x.v)
        elif isinstance(x, ITE): st += [x.c, x.a, x.b]
        elif isinstance(x, Opq): st += list(x.a)
    return out


# ------------------------------------------------------------------ identity testing
PRIME = (1 << 61) - 1


class PIT:
    """Evaluation in GF(2^61-1) at pseudo-random points (Schwartz-Zippel)."""

    def __init__(s, seed=1, truth=None):
        s.seed = seed; s.memo = {}; s.truth = truth or {}; s.bm = {}
        s.conds = set()
        s.fail = False

    def rnd(s, key):
        import hashlib
        h = hashlib.blake2b(('%d|%s' % (s.seed, key)).encode(), digest_size=8).digest()
        return int.from_bytes(h, 'big') % PRIME

    def ival(s, aid): return s.rnd('I%d' % aid)

    def ev(s, n):
        r = s.memo.get(n)
        if r is not None: return r
        # iterative
        st = [n]
        while st:
            x = st[-1]
            if x in s.memo: st.pop(); continue
            if x.op == 'ite':
                c = s.tv(x.a[0]); y = x.a[1] if c else x.a[2]
                if y not in s.memo: st.append(y); continue
                s.memo[x] = s.memo[y]; st.pop(); continue
            kids = [y for y in x.a if isinstance(y, F) and y not in s.memo]
            if kids and x.op not in ('mem', 's', 'c', 'sum'): st += kids; continue
            s.memo[x] = s._ev(x); st.pop()
        return s.memo[n]

    def _ev(s, x):
        o = x.op
        if o == 'c':
            q = x.a[0]; return q.numerator % PRIME * pow(q.denominator, PRIME - 2, PRIME) % PRIME
        if o == 's': return s.rnd('S' + str(x.a[0]))
        if o == 'mem':
            off = x.a[2]
            return s.rnd('M%s|%s|%d|%s' % (x.a[0], x.a[1], off.eval(s.ival) % PRIME, x.a[3]))
        if o == 'i2f': return x.a[0].eval(s.ival) % PRIME
        m = s.memo
        if o == '+': return (m[x.a[0]] + m[x.a[1]]) % PRIME
        if o == '*': return (m[x.a[0]] * m[x.a[1]]) % PRIME
        if o == '/':
            d = m[x.a[1]]
            if d == 0: s.fail = True; return 0
            return m[x.a[0]] * pow(d, PRIME - 2, PRIME) % PRIME
        if o == 'sqrt':
            v = m[x.a[0]]
            r = pow(v, (PRIME + 1) // 4, PRIME)      # PRIME = 3 mod 4
            if r * r % PRIME != v: s.fail = True
            return min(r, PRIME - r)
        if o == 'fn':
            vals = [m[y] if isinstance(y, F) else (y.eval(s.ival) % PRIME if isinstance(y, P) else y) for y in x.a]
            return s.rnd('F%r' % (vals,))
        if o == 'sum': return s.sumval(x)
        return s.rnd('O%s%r' % (o, [m[y] if isinstance(y, F) else repr(y) for y in x.a]))

    def sumval(s, x):
        # sum over bound atoms (ids, ranges) of body: canonical by de Bruijn renaming at construction
        body = x.a[-1]
        return s.rnd('SUM%r|%d' % ([p.eval(s.ival) % PRIME if isinstance(p, P) else p for p in x.a[:-1]], s.ev(body)))

    def tv(s, b):
        if b.op == 'const': return b.a[0]
        if b.op == 'not': return not s.tv(b.a[0])
        if b.op == 'and': return all(s.tv(y) for y in b.a)
        if b.op == 'or': return any(s.tv(y) for y in b.a)
        if b in s.truth: return s.truth[b]
        nb = bnot(b)
        if nb in s.truth: return not s.truth[nb]
        # canonicalise float comparisons by value
        if b.op in ('flt', 'feq'):
            k = (b.op, s.ev(fsub(b.a[0], b.a[1])))
            k2 = (b.op, (-k[1]) % PRIME)
            if k in s.bm: v = s.bm[k]
            elif k2 in s.bm and b.op == 'feq': v = s.bm[k2]
            elif k2 in s.bm and b.op == 'flt': v = not s.bm[k2]
            else:
                v = (s.rnd('B%d' % k[1]) & 1 == 1); s.bm[k] = v
        else:
            v = (s.rnd('b%d' % b.id) & 1 == 1)
        s.truth[b] = v; s.conds.add(b)
        return v


def feval(n, env, memo=None):
    """numeric evaluation (python floats); env(leaf F)->float, env(('b',B)) for conditions"""
    memo = {} if memo is None else memo
    st = [n]
    import math
    while st:
        x = st[-1]
        if x in memo: st.pop(); continue
        if x.op == 'ite':
            c = env.cond(x.a[0], memo); y = x.a[1] if c else x.a[2]
            if y not in memo: st.append(y); continue
            memo[x] = memo[y]; st.pop(); continue
        if x.op in ('s', 'mem', 'sum'): memo[x] = env.leaf(x); st.pop(); continue
        if x.op == 'i2f': memo[x] = float(x.a[0].eval(env.ival)); st.pop(); continue
        if x.op == 'c': memo[x] = float(x.a[0]); st.pop(); continue
        kids = [y for y in x.a if isinstance(y, F) and y not in memo]
        if kids: st += kids; continue
        a = [memo[y] if isinstance(y, F) else y for y in x.a]
        o = x.op
        if o == '+': r = a[0] + a[1]
        elif o == '*': r = a[0] * a[1]
        elif o == '/': r = a[0] / a[1] if a[1] else float('nan')
        elif o == 'sqrt': r = math.sqrt(a[0]) if a[0] >= 0 else float('nan')
        elif o == 'fn': r = env.fn(a[0], a[1:])
        else: raise ValueError(o)
        memo[x] = r; st.pop()
    return memo[n]


# ------------------------------------------------------------------ dependent integer atoms
def imem(reg, ver, off, size):
    def mk(o): return imem(reg, ver, o, size)
    return A(atom('imem', (reg, ver, off.id, size), '%s%s[%r]:i%d' % (reg, ver or '', off, size * 8), meta={'args': (off,), 'mk': mk, 'reg': reg, 'ver': ver, 'off': off, 'size': size}))


def idiv(a, n):
    """floor division, n > 0 expected (facts only valid then); exact for constants"""
    a = as_p(a); n = as_p(n)
    ca, cn = a.const(), n.const()
    if cn == 1: return a
    if ca is not None and cn: return C(ca // cn)
    if cn:
        # split off multiples
        q = {m: c // cn for m, c in a.t.items() if c % cn == 0}
        r = {m: c for m, c in a.t.items() if c % cn}
        k = r.get((), 0)
        if not r: return P(q)
        if q or (k and not 0 <= k < cn):
            if k:
                q[()] = q.get((), 0) + k // cn; r[()] = k % cn
                if not r[()]: del r[()]
                if not q[()]: del q[()]
            if q: return P(q) + idiv(P(r), n)
        if set(r) <= {()}: return P(q) if q else ZERO
    else:
        # exact multiples of a single-monomial or general n
        qq = _exact_div(a, n)
        if qq is not None: return qq
    nm = '(%r div %r)' % (a, n)
    at = atom('div', (a.id, n.id), nm, meta={'args': (a, n), 'mk': idiv})
    if 'facts' not in at.meta:
        q = A(at)
        at.meta['facts'] = [ble(q * n, a), blt(a, q * n + n)] + ([bor(blt(a, 0), ble(0, q))] if ca is None else [])
    return A(at)


def _exact_div(a, n):
    """polynomial division a = q*n + r by leading monomial; q if r == 0"""
    if not n.t: return None
    lead = max(n.t, key=lambda m: (len(m), m))
    q = ZERO; r = a
    for _ in range(64):
        if not r.t: return q
        for m in sorted(r.t, key=lambda m: (-len(m), m)):
            mm = _mdiv(m, lead)
            if mm is not None and r.t[m] % n.t[lead] == 0:
                t = P({mm: r.t[m] // n.t[lead]})
                q = q + t; r = r - t * n
                break
        else: return None
    return None


def pdivmod(a, n):
    """polynomial division a = q*n + r by the leading monomial of n"""
    lead = max(n.t, key=lambda m: (len(m), m))
    q = ZERO; r = a
    for _ in range(64):
        for m in sorted(r.t, key=lambda m: (-len(m), m)):
            mm = _mdiv(m, lead)
            if mm is not None and r.t[m] % n.t[lead] == 0:
                t = P({mm: r.t[m] // n.t[lead]}); q = q + t; r = r - t * n
                break
        else: break
    return q, r


def _mdiv(m, d):
    m = list(m)
    for x in d:
        if x in m: m.remove(x)
        else: return None
    return tuple(m)


def imod(a, n): return as_p(a) - idiv(a, n) * n


def f2i(f):
    """truncation of a float term, opaque"""
    if f.op == 'c':
        q = f.a[0]
        return C(int(q))
    if f.op == 'i2f': return f.a[0]
    def mk(g): return f2i(g)
    return A(atom('f2i', f.id, 'int(%r)' % (f,), meta={'args': (f,), 'mk': mk, 'f': f}))


def bmem(reg, ver, off, size): return imem(reg, ver, off, size)
