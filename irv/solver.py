"""Arithmetic entailment over integer polynomials: facts |= goal.

Monomials of degree > 1 are treated as independent integer unknowns, plus product
lemmas (p>=0, q>=0 |= p*q>=0) on demand, so a 'yes' is always sound.  A 'no' from
sat() of the conjunction is 'unknown' unless the problem was linear."""
import z3
from . import terms as T
from .terms import P, B, Atom

STATS = {'queries': 0, 'time': 0.0, 'hits': 0}
_vars = {}
_pz = {}
_cache = {}


def mvar(m):
    v = _vars.get(m)
    if v is None:
        v = z3.Int('m_' + '_'.join(map(str, m))); _vars[m] = v
    return v


def pz(p):
    r = _pz.get(p)
    if r is None:
        parts = []
        for m, c in p.t.items():
            if not m: parts.append(z3.IntVal(c))
            elif c == 1: parts.append(mvar(m))
            else: parts.append(c * mvar(m))
        r = z3.Sum(parts) if len(parts) > 1 else (parts[0] if parts else z3.IntVal(0))
        _pz[p] = r
    return r


_bz = {}


def bz(b):
    r = _bz.get(b)
    if r is None:
        o = b.op
        if o == 'const': r = z3.BoolVal(b.a[0])
        elif o == 'le': r = pz(b.a[0]) <= 0
        elif o == 'eq': r = pz(b.a[0]) == 0
        elif o == 'not': r = z3.Not(bz(b.a[0]))
        elif o == 'and': r = z3.And([bz(x) for x in b.a])
        elif o == 'or': r = z3.Or([bz(x) for x in b.a])
        else: r = z3.Bool('b_%d' % b.id)
        _bz[b] = r
    return r


_rng = {}


def atom_facts(aids):
    out = []
    for i in aids:
        f = _rng.get(i)
        if f is None:
            a = Atom._byid[i]; f = []
            if a.lo is not None: f.append(T.ble(T.as_p(a.lo), T.A(a)))
            if a.hi is not None: f.append(T.ble(T.A(a), T.as_p(a.hi)))
            if a.meta and 'facts' in a.meta: f += a.meta['facts']
            _rng[i] = f
        out += f
    return out


def relevant(facts, goal_atoms):
    """closure of range facts for every atom mentioned"""
    seen = set(); todo = set(goal_atoms); out = []
    for b in facts: todo |= T.int_atoms(b)
    while todo:
        i = todo.pop()
        if i in seen: continue
        seen.add(i)
        for b in atom_facts([i]):
            out.append(b); todo |= T.int_atoms(b) - seen
    return out


def monos(b, acc):
    st = [b]
    while st:
        x = st.pop()
        if isinstance(x, P): acc |= {m for m in x.t if len(m) > 1}
        elif isinstance(x, B): st += [y for y in x.a if isinstance(y, (P, B))]
    return acc


def products(facts, goal_monos):
    """p*q >= 0 lemmas from pairs of linear facts p>=0, q>=0 whose product mentions a monomial of interest"""
    ge = []
    for b in facts:
        if b.op == 'le': ge.append(-b.a[0])
        elif b.op == 'eq': ge.append(b.a[0]); ge.append(-b.a[0])
    lin = [p for p in set(ge) if all(len(m) <= 2 for m in p.t)]
    out = []
    atoms_of_interest = set()
    for m in goal_monos: atoms_of_interest |= set(m)
    for i, p in enumerate(lin):
        ap = p.atoms()
        if not (ap & atoms_of_interest): continue
        for q in lin[i:]:
            aq = q.atoms()
            if not (aq & atoms_of_interest): continue
            ok = False
            for m in goal_monos:
                s = set(m)
                if (ap & s) and (aq & s) and s <= (ap | aq): ok = True; break
            if ok:
                pq = p * q
                if all(len(m) <= 3 for m in pq.t): out.append(T.ble0(-pq))
                if len(out) > 400: return out
    return out


# ---- incremental z3: the assertion stack follows the (prefix-sharing) fact lists
_inc = None      # solver
_stack = []      # ids of asserted facts, one push per fact
_byid = {}


def _reset():
    global _inc
    _inc = z3.SimpleSolver(); _inc.set('timeout', 3000); del _stack[:]


def _check(fs, timeout):
    import time
    t = time.time()
    STATS['queries'] += 1
    if _inc is None or STATS['queries'] % 5000 == 0: _reset()
    n = 0
    while n < len(_stack) and n < len(fs) and _stack[n] == fs[n].id: n += 1
    if n < len(_stack): _inc.pop(len(_stack) - n); del _stack[n:]
    for f in fs[n:]:
        _inc.push(); _inc.add(bz(f)); _stack.append(f.id)
    r = _inc.check()
    if r == z3.unknown:
        s = z3.SolverFor('QF_LIA'); s.set('timeout', timeout); s.add([bz(f) for f in fs])
        r = s.check()
        if r == z3.sat: _keep(s.model(), fs)
    elif r == z3.sat: _keep(_inc.model(), fs)
    STATS['time'] += time.time() - t
    return r


# ---- integer models seen so far: a model of the facts that falsifies the goal settles a query
class Model:
    __slots__ = ('v', 'memo')
    def __init__(s, v): s.v = v; s.memo = {}

    def p(s, p):
        r = 0; v = s.v
        for m, c in p.t.items():
            for i in m:
                x = v.get(i)
                if x is None:
                    a = Atom._byid[i]
                    lo = a.lo if isinstance(a.lo, int) else a.lo.const() if a.lo is not None else None
                    x = v[i] = max(lo, 0) if lo is not None else 0
                c *= x
            r += c
        return r

    def b(s, b):
        r = s.memo.get(b.id, 0)
        if r != 0: return r
        o = b.op
        if o == 'le': r = s.p(b.a[0]) <= 0
        elif o == 'eq': r = s.p(b.a[0]) == 0
        elif o == 'const': r = b.a[0]
        elif o == 'not':
            r = s.b(b.a[0]); r = None if r is None else not r
        elif o == 'and':
            q = [s.b(x) for x in b.a]; r = False if False in q else None if None in q else True
        elif o == 'or':
            q = [s.b(x) for x in b.a]; r = True if True in q else None if None in q else False
        else: r = None
        s.memo[b.id] = r
        return r


_models = []
MAXM = 48


def _keep(m, fs):
    v = {}
    for d in m.decls():
        n = d.name()
        if n.startswith('m_') and n.count('_') == 1:
            v[int(n[2:])] = m[d].as_long()
    md = Model(v)
    if all(md.b(f) is True for f in fs):
        _models.insert(0, md); del _models[MAXM:]


def refuted(fs):
    """a remembered integer model satisfies all of fs"""
    for k, md in enumerate(_models):
        b = md.b
        for f in reversed(fs):
            if b(f) is not True: break
        else:
            if k > 4: _models.insert(0, _models.pop(k))
            return True
    return False


def prove(facts, goal, level=1, timeout=3000):
    """True if facts entail goal."""
    if goal is T.TRUE: return True
    facts = [f for f in facts if f is not T.TRUE]
    if goal in facts: return True
    key = (frozenset(f.id for f in facts), goal.id, level)
    r = _cache.get(key)
    if r is not None:
        STATS['hits'] += 1
        return r
    ng = T.bnot(goal)
    ga = T.int_atoms(goal)
    use = cone(facts, ga)
    fs = order(use, ng)
    if refuted(fs):
        _cache[key] = False
        STATS['model'] = STATS.get('model', 0) + 1
        return False
    r = _check(fs, timeout) == z3.unsat
    if not r and level >= 1:
        mo = set()
        for f in fs: monos(f, mo)
        if mo:
            gm = monos(goal, set()) or mo
            ext = products(fs, gm | mo)
            if ext:
                r = _check(fs + ext, timeout) == z3.unsat
    _cache[key] = r
    return r


def order(facts, last):
    """facts with the range facts of their atoms right behind the first mention, so that lists share prefixes"""
    out = []; seen = set(); have = set()

    def put(f):
        if f.id in have: return
        have.add(f.id); out.append(f)
        todo = [i for i in T.int_atoms(f) if i not in seen]
        while todo:
            i = todo.pop()
            if i in seen: continue
            seen.add(i)
            for b in atom_facts([i]):
                if b.id not in have: have.add(b.id); out.append(b); todo += [j for j in T.int_atoms(b) if j not in seen]
    for f in facts: put(f)
    if last is not None: put(last)
    return out


def cone(facts, ga):
    """facts without float-only literals; all integer facts kept"""
    out = []
    for f in facts:
        if T.int_atoms(f) and not _has_float(f): out.append(f)
        elif f.op in ('atom',): out.append(f)
        elif f is T.FALSE: out.append(f)
    return out


_hf = {}


def _has_float(b):
    r = _hf.get(b)
    if r is None:
        if b.op in ('flt', 'feq'): r = True
        elif b.op in ('not', 'and', 'or'): r = any(_has_float(x) for x in b.a if isinstance(x, B))
        else: r = False
        _hf[b] = r
    return r


def sat(facts, timeout=3000):
    """'unsat' / 'sat' / 'unknown' of the conjunction under the linear abstraction with product lemmas"""
    if any(f is T.FALSE for f in facts): return 'unsat'
    fs = order(cone(facts, set()), None)
    key = ('sat', frozenset(f.id for f in fs))
    if key in _cache: return _cache[key]
    if refuted(fs):
        _cache[key] = 'sat'
        return 'sat'
    r = _check(fs, timeout)
    if r == z3.sat:
        mo = set()
        for f in fs: monos(f, mo)
        if mo:
            ext = products(fs, mo)
            if ext and _check(fs + ext, timeout) == z3.unsat: r = z3.unsat
    r = str(r)
    _cache[key] = r
    return r
