"""Local (single-domain) field boundary conditions: ghosts and surface adjustments."""
import struct
from fractions import Fraction
from irv.reg import contract
from fieldlib import *

ANTI, SYM, PMC, ABSORB = -1, -2, -3, -4
KINDS = (ANTI, SYM, PMC, ABSORB, 2)          # 2: rank of a neighbouring domain
SRC = 'src/field_advance/standard/local.cc'
FACES = [('x', -1), ('y', -1), ('z', -1), ('x', 1), ('y', 1), ('z', 1)]
AX = 'xyz'


def f32(v): return T.fc(Fraction(struct.unpack('f', struct.pack('f', v))[0]))


def higend(X, st):
    many = T.bor(*[T.bgt(n, 1) for n in (X.nx, X.ny, X.nz)])
    return f32(1.03527618) if X.E.need(st, many) else F1


def span(X, kind, c):
    """upper bounds (x,y,z) of an entity of the domain: 'edge'/'face' along c, 'node', 'cell'"""
    n = (X.nx, X.ny, X.nz)
    if kind == 'node': return [m + 1 for m in n]
    if kind == 'cell': return list(n)
    if kind == 'edge': return [m if a == c else m + 1 for m, a in zip(n, AX)]
    if kind == 'face': return [m + 1 if a == c else m for m, a in zip(n, AX)]


def on(X, st, p, ax, pos, hi):
    """p lies in plane ax=pos and within 1..hi on the other axes"""
    c = []
    for q, a, h in zip(p, AX, hi):
        c.append(T.beq(q, pos) if a == ax else T.band(T.ble(1, q), T.ble(q, h)))
    return X.E.need(st, T.band(*c))


def nof(X, ax): return dict(zip(AX, (X.nx, X.ny, X.nz)))[ax]


def d(ax, s=1): return tuple(s if a == ax else 0 for a in AX)


# each rule: (X, st, comp, p, ax, side, kind, old) -> new value or None
def tang_b(X, st, comp, p, ax, side, kind, old):
    if comp[:2] != 'cb' or comp[2] == ax: return None
    if not on(X, st, p, ax, C(0) if side < 0 else nof(X, ax) + 1, span(X, 'face', comp[2])): return None
    q = add(p, d(ax, -side))
    if kind == ANTI: return old(comp, q)
    if kind in (SYM, PMC): return -old(comp, q)
    c = comp[2]; a, b = NEXT[c]
    cdt = gk(X, 'cvac') * gk(X, 'dt')
    u = cdt * gk(X, 'rd' + ax) * higend(X, st)
    curl = cdt * gk(X, 'rd' + a) * (old('e' + b, add(q, d(a))) - old('e' + b, q)) - cdt * gk(X, 'rd' + b) * (old('e' + a, add(q, d(b))) - old('e' + a, q))
    return (F1 - u) / (F1 + u) * old(comp, p) + T.fc(2) * u / (F1 + u) * old(comp, q) + curl


def norm_e(X, st, comp, p, ax, side, kind, old):
    if comp not in ('e' + ax, 'tca' + ax): return None
    if not on(X, st, p, ax, C(0) if side < 0 else nof(X, ax) + 1, span(X, 'node', None)): return None
    q = add(p, d(ax, -side))
    if kind == ANTI: return old(comp, q)
    if kind in (SYM, PMC): return -old(comp, q)
    return T.fc(2) * old(comp, q) - old(comp, add(p, d(ax, -2 * side)))


def div_b(X, st, comp, p, ax, side, kind, old):
    if comp != 'div_b_err' or not on(X, st, p, ax, C(0) if side < 0 else nof(X, ax) + 1, span(X, 'cell', None)): return None
    v = old(comp, add(p, d(ax, -side)))
    return v if kind == ANTI else F0 if kind == ABSORB else -v


def surf(X, ax, side): return C(1) if side < 0 else nof(X, ax) + 1


def scaled(comps, ent, scale):
    def rule(X, st, comp, p, ax, side, kind, old):
        if comp not in [c.replace('?', ax) if ent == 'normal' else c for c in comps(ax)]: return None
        s = scale[kind]
        if s == 1: return None
        hi = span(X, 'node', None) if ent == 'node' else span(X, 'edge', comp[-1]) if ent == 'edge' else span(X, 'cell', None)
        if not on(X, st, p, ax, surf(X, ax, side), hi): return None
        return F0 if s == 0 else T.fc(s) * old(comp, p)
    return rule


def tangs(*pre): return lambda ax: [q + a for q in pre for a in AX if a != ax]


RULES = {
    'local_ghost_tang_b': tang_b,
    'local_ghost_norm_e': norm_e,
    'local_ghost_div_b': div_b,
    'local_adjust_tang_e': scaled(tangs('e', 'tca'), 'edge', {ANTI: 0, SYM: 1, PMC: 1, ABSORB: 1}),
    'local_adjust_norm_b': scaled(lambda ax: ['cb' + ax], 'face', {ANTI: 1, SYM: 0, PMC: 1, ABSORB: 1}),
    'local_adjust_div_e': scaled(lambda ax: ['div_e_err'], 'node', {ANTI: 0, SYM: 1, PMC: 1, ABSORB: 0}),
    'local_adjust_jf': scaled(tangs('jf'), 'edge', {ANTI: 0, SYM: 2, PMC: 2, ABSORB: 2}),
    'local_adjust_rhof': scaled(lambda ax: ['rhof'], 'node', {ANTI: 0, SYM: 2, PMC: 2, ABSORB: 2}),
    'local_adjust_rhob': scaled(lambda ax: ['rhob'], 'node', {ANTI: 0, SYM: 1, PMC: 1, ABSORB: 1}),
}


def combos():
    return [[KINDS[k % 5] for k in (a, b, a + b, a + 2 * b, a + 3 * b, a + 4 * b)] for a in range(5) for b in range(5)]


def body(fn):
    rule = RULES[fn]

    def run(X):
        cs = combos()[X.part[0]::X.part[1]]
        for cm in cs:
            X.reset()
            g = X.grid(); f = X.fields()
            reg = X.E.regions['g']
            for (ax, s), k in zip(FACES, cm):
                i = 13 + s * {'x': 1, 'y': 3, 'z': 9}[ax]
                reg.known[X.G['bc'] + 4 * i] = C(k)
            if X.mode != 'native':
                r = X.E.region('@_world_size'); r.known = {0: C(4)}; r.ginit = True
            n = 0
            for o, rv in X.run(fn, [f, g]):
                n += 1

                def val(st, comp, p, k):
                    while k:
                        (ax, s), kd = FACES[k - 1], cm[k - 1]
                        if kd < 0:
                            v = rule(X, st, comp, p, ax, s, kd, lambda c, q, k=k: val(st, c, q, k - 1))
                            if v is not None: return v
                        k -= 1
                    return X.fld(comp, *p)

                def spec(st, comp, p):
                    if comp[:2] not in ('cb', 'ex', 'ey', 'ez', 'tc', 'jf', 'rh', 'di'): return None
                    return val(st, comp, p, 6)
                X.frame(o, 'f', X.FL, spec, 'faces %r' % (cm,))
                X.untouched(o, {'f'}, 'faces %r' % (cm,))
            X.E.notes['kinds'] = 'field boundary kinds of the six faces: 25 of the 5^6 combinations, covering every pair of kinds on every pair of faces'
            X.ob('reached %r' % (cm,), lambda: n > 0 or X._vac())
    return run


for fn in RULES:
    contract('F03', fn, SRC, ('ref',), dims=[(3, 2, 4), (1, 3, 2), (1, 1, 1), (4, 1, 1), (1, 1, 3), (1, 2, 1)],
             opts={'parts': 4 if fn in ('local_adjust_jf', 'local_adjust_rhof', 'local_ghost_tang_b') else 2, 'stub': 'extern "C" { int _world_size = 4; int _world_rank = 0; }\n'})(body(fn))
