"""K01: collisions as relational contracts; conservation of the pair updates in exact arithmetic."""
from irv.reg import contract
import struct, z3
from irv import trace
from irv.bits import Ptr, simp
from irv.ctx import Mismatch
from irv.ir import Unsupported
from c_trace import H, KW, I32, D, F, many, lemma, ALLOC, waited

A3 = ['p'] + I32 * 2
CODE = [
    (r'^@(_Z\d+)?takizuka_abe_pipeline_scalar', 'spec_ta', A3), ('code_ta_like', 'spec_ta_like', ['p'] + A3),
    (r'^@(_Z\d+)?binary_pipeline_scalar', 'spec_binary', A3), ('code_binary_like', 'spec_binary_like', ['p'] + A3),
    (r'^@(_Z\d+)?unary_pipeline_scalar', 'spec_unary', A3), (r'^@(_Z\d+)?langevin_pipeline_scalar', 'spec_langevin', A3),
    (r'^@(_Z\d+)?apply_takizuka_abe(P|$)', 'spec_apply_ta', ['p']), (r'^@(_Z\d+)?apply_binary_collision_model(P|$)', 'spec_apply_binary', ['p']),
    (r'^@(_Z\d+)?apply_unary_collision_model(P|$)', 'spec_apply_unary', ['p']), (r'^@(_Z\d+)?apply_langevin(P|$)', 'spec_apply_langevin', ['p']),
    (r'^@(_Z\d+)?hard_sphere_collision', 'spec_hs', ['p'] * 6 + I32), (r'^@(_Z\d+)?large_angle_coulomb_collision', 'spec_lac', ['p'] * 6 + I32),
    (r'^@(_Z\d+)?hard_sphere_fluid_collision', 'spec_hs_fluid', ['p'] * 4), (r'^@(_Z\d+)?large_angle_coulomb_fluid_collision', 'spec_lac_fluid', ['p'] * 4),
    (r'^@(_Z\d+)?hard_sphere_rate', 'spec_hs_rate', ['p'] * 5), (r'^@(_Z\d+)?large_angle_coulomb_rate', 'spec_lac_rate', ['p'] * 5),
    (r'^@(_Z\d+)?hard_sphere_fluid_rate', 'spec_hs_fluid_rate', ['p'] * 3), (r'^@(_Z\d+)?large_angle_coulomb_fluid_rate', 'spec_lac_fluid_rate', ['p'] * 3),
    (r'^@(_Z\d+)?num_collision_op', 'spec_num', ['p']), (r'^@(_Z\d+)?apply_collision_op_list', 'spec_list', ['p']), (r'^@(_Z\d+)?append_collision_op', 'spec_append', ['p', 'p']),
    (r'^@(_Z\d+)?delete_collision_op_list', 'spec_delete_list', ['p'])]
NEW = [(r'^@(_Z\d+)?hard_sphere(PKc|$)', 'spec_new_hs', ['p', 'p'] + F + ['p'] + F + ['p'] + D + I32), (r'^@(_Z\d+)?large_angle_coulomb(PKc|$)', 'spec_new_lac', ['p', 'p', 'p'] + F + ['p'] + D + I32),
       (r'^@(_Z\d+)?hard_sphere_fluid(PKc|$)', 'spec_new_hs_fluid', ['p'] + F * 7 + ['p'] + F + ['p'] + I32), (r'^@(_Z\d+)?large_angle_coulomb_fluid(PKc|$)', 'spec_new_lac_fluid', ['p'] + F * 7 + ['p'] + F + ['p'] + I32),
       (r'^@(_Z\d+)?takizuka_abe(PKc|$)', 'spec_new_ta', ['p'] * 4 + D + I32), (r'^@(_Z\d+)?langevin(f|$)', 'spec_new_langevin', F * 2 + ['p', 'p'] + I32),
       (r'^@(_Z\d+)?binary_collision_model(PKc|$)', 'spec_new_binary', ['p'] * 7 + D + I32), (r'^@(_Z\d+)?unary_collision_model(PKc|$)', 'spec_new_unary', ['p'] * 6 + I32)]

ARR = r'^a0$|^\*a1\['
ONE = r'^\*a0\[\d+\]$'
part = lambda f: [q + (None, ARR) if q[1] in ('spec_apply_binary', 'spec_apply_unary') or f(q[0]) == 2 else q for q in CODE if f(q[0])]
host = many(part(lambda c: 'apply' in c), ONE, cases=2000, effects=dict(ALLOC, **{r'@thread\[': waited, r'_pipeline_scalar': waited}), locals=True, keep=r'_pipeline_scalar|sort_p')
make = many(NEW, cases=2000, effects=ALLOC, keep=r'binary_collision_model|unary_collision_model', argskip={r'util_malloc': (0,)})
kern = many(part(lambda c: 0 if 'apply' in c else 2 if '_pipeline_scalar' in c or '_like' in c else 1), ONE, cases=2000, locals=True, noarr=True)


def law(X, name, args, out, scale, given=()):
    """the length of the relative velocity does not change, in exact arithmetic (the guard against division by zero left out)"""
    import sympy as sp
    Z = trace.Trace(X.mod, arrays=r'^%'); Z.locarr = Z.noarr = True
    C = Z.cases('@' + name, args)
    if len(C) != 1: raise Unsupported('%d cases' % len(C))
    m = C[0][3]; R = []; memo = {}; roots = []

    def root(a, kind):
        for s, b, k in roots:
            if k == kind and sp.expand(a - b) == 0: return s
        s = sp.Symbol('%s%d' % (kind, len(roots))); roots.append((s, a, kind)); return s

    def ev(t):
        if t.get_id() not in memo: memo[t.get_id()] = ev_(t)
        return memo[t.get_id()]

    def ev_(t):
        if z3.is_bv_value(t):
            v = struct.unpack('<d' if t.size() == 64 else '<f', struct.pack('<Q' if t.size() == 64 else '<I', t.as_long()))[0]
            return sp.Integer(0) if abs(v) < 1e-37 else sp.nsimplify(v, rational=True)
        n = t.decl().name(); a = [ev(q) for q in t.children()] if n[:4] in ('fadd', 'fmul', 'fdiv', 'fsub', 'fptr', 'fpex', 'sqrt', 'sin3', 'cos3', 'sin6', 'cos6', 'sin', 'cos') else None
        if n[:4] == 'fadd': return a[0] + a[1]
        if n[:4] == 'fsub': return a[0] - a[1]
        if n[:4] == 'fmul': return a[0] * a[1]
        if n[:4] == 'fdiv': return a[0] / a[1]
        if n[:4] in ('fptr', 'fpex'): return a[0]
        if n[:4] == 'sqrt': return root(sp.expand(a[0]), 'r')
        if n[:3] in ('sin', 'cos'): return root(a[0], n[:1])
        if n == 'concat' and z3.is_app_of(t.arg(0), z3.Z3_OP_BNOT): return -ev(t.arg(0).arg(0).arg(0))
        return sp.Symbol('v%d' % t.get_id())
    for i in range(3):
        w = m.get(('a%d' % out, 4 * i))
        if w is None: raise Unsupported('no result')
        R.append(ev(simp(w)) * scale)
    u = [ev(q) for q in args[:3]]
    E = sp.numer(sp.together(sum((p + q)**2 - p**2 for p, q in zip(u, R))))
    sn = {b: s for s, b, k in roots if k == 's'}
    for s, b, k in reversed(roots):
        if k == 'c' and b in sn: q = 1 - sn[b]**2
        elif k == 'r': q = b
        else: continue
        P = sp.Poly(sp.expand(E), s); E = sp.numer(sp.together(sum(c * s**(e % 2) * q**(e // 2) for (e,), c in P.terms())))
    if sp.expand(E) != 0: raise Mismatch('%s changes the length of the relative velocity' % name)


def shared():
    """momentum and energy of the pair: m_i mu_i = m_j mu_j and the length of u+r is that of u"""
    mi, mj = z3.Reals('mi mj'); k = z3.Real('k')
    # mu_i = m_j k, mu_j = m_i k with k = 1/(m_i+m_j)
    yield [], mi * (mj * k) - mj * (mi * k) == 0
    pr, qr, rr = z3.Reals('pr qr rr')                 # r.p_i, r.p_j, r.r;  r.u = pr - qr
    yield [k * (mi + mj) == 1, 2 * (pr - qr) + rr == 0], mi * (2 * (mj * k) * pr + (mj * k) * (mj * k) * rr) + mj * (-2 * (mi * k) * qr + (mi * k) * (mi * k) * rr) == mi * mj * k * (2 * (pr - qr) + rr * (k * (mi + mj)))


def laws(X):
    f = lambda n: [z3.BitVec('b%d' % i, 32) for i in range(n)]
    for k in range(3):
        X.ob('conservation turn%d' % k, lambda: law(X, 'law_turn%d' % k, f(4) + [Ptr('a4', 0), Ptr('a5', 0)], 5, 1))
        X.ob('conservation spheres%d' % k, lambda: law(X, 'law_spheres%d' % k, f(5) + [Ptr('a5', 0)], 5, -2))
        X.ob('conservation coulomb%d' % k, lambda: law(X, 'law_coulomb%d' % k, f(6) + [Ptr('a6', 0)], 6, -2))
    X.ob('lemma shared', lambda: lemma(*shared()))


def run(X):
    if X.mode == 'native': return kern(X)
    host(X); make(X); kern(X); laws(X)


contract('K01', 'collide', H + '/coll.cc', ('ref',), **KW)(run)
