"""G02: DISTRIBUTE and DISTRIBUTE_VOXELS decided on the terms of the compiled code; the dispatchers as relational contracts."""
from fractions import Fraction
import z3, struct
from irv.reg import contract
from irv import bits, trace
from irv.bits import Ptr
from irv.ctx import Mismatch, Undecided
from irv.ir import Unsupported
from c_trace import H, KW, I32, many, lemma, replay, ALLOC

PMAX = 1 << 17; NMAX = 1 << 31


def run(X, Z, b, p, P, N):
    C = Z.cases('@code_distribute', [N, b, p, P, Ptr('a4', 0)])
    if len(C) != 1: raise Unsupported('%d cases' % len(C))
    m = C[0][3]; return m[('a4', 0)], m[('a4', 4)]


def entails(A, g):
    S = z3.Solver(); S.set('timeout', 60000); S.add(*A); S.add(z3.Not(g)); r = S.check()
    if r == z3.unknown: raise Undecided('solver')
    return r == z3.unsat


def distribute(X):
    N, b, p, P = [z3.BitVec(n, 32) for n in ('N', 'b', 'p', 'P')]
    dom = [N >= 0, b >= 1, P >= 1, p >= 0, P <= PMAX]
    Z = trace.Trace(X.mod); Z.assume = []           # one executor: equal operations are equal terms
    i0, n0 = run(X, Z, b, p, P, N); i1, n1 = run(X, Z, b, p + 1, P, N); iP, nP = run(X, Z, b, P, P, N)

    def need(A, g, m):
        if not entails(A, g): raise Mismatch(m)

    # one range ends where the next starts; the host's share is what does not fill a block
    F = z3.BoolVal(False); less = lambda t: z3.simplify(z3.substitute(t, (p == P, F), (P == p, F)))
    X.ob('in order', lambda: need(dom + [p < P], less(i0 + n0 == i1), 'the share of a worker does not end where the next starts'))
    X.ob('remainder', lambda: need(dom, nP == z3.SRem(N, b), 'the remainder is not the items outside the whole blocks'))

    def shape():
        """the start is b floor(z) where z computes (N/b) p/P + 1/2 with an error below the distance of that from an integer"""
        F = [t for t in subterms(i0) if z3.is_app(t) and t.decl().name().startswith('fptosi')]
        if len(F) != 1: raise Unsupported('the start is not one truncation')
        if not entails(dom, i0 == b * F[0]): raise Unsupported('the start is not a multiple of the block')
        import sympy as sp
        M_, p_, P_ = sp.symbols('M p P')
        rel = [Fraction(0)]

        def ev(t):
            """exact value, relative error (all operands are non-negative)"""
            if z3.is_bv_value(t):
                v = struct.unpack('<d' if t.size() == 64 else '<f', struct.pack('<Q' if t.size() == 64 else '<I', t.as_long()))[0]
                if v < 0: raise Unsupported('negative constant')
                f = Fraction(v); return sp.Rational(f.numerator, f.denominator), 0
            n = t.decl().name(); u = Fraction(1, 2 ** (53 if t.size() == 64 else 24))
            if n == 'sitofp_32':
                a = t.arg(0); e = 0 if t.size() == 64 else u
                for q, s in ((z3.simplify(N / b), M_), (p, p_), (P, P_), (p + 1, p_ + 1)):
                    if entails(dom + [p <= P], a == q): return s, e
                raise Unsupported('conversion of something else')
            if n[:4] in ('fadd', 'fmul', 'fdiv'):
                (x, ex), (y, ey) = ev(t.arg(0)), ev(t.arg(1))
                if n[:4] == 'fadd': v, e = x + y, max(ex, ey)
                elif n[:4] == 'fmul': v, e = x * y, ex + ey
                else: v, e = x / y, ex + ey
                return v, e + u
            raise Unsupported(n)
        v, e = ev(F[0].arg(0))
        if sp.simplify(v - (M_ * p_ / P_ + sp.Rational(1, 2))) != 0: raise Unsupported('a share starts at %s' % v)
        if not Fraction(11, 10) * e * NMAX < Fraction(1, 2 * PMAX): raise Mismatch('rounding error %s of up to 2^31 blocks reaches the next block boundary' % float(e))
    X.ob('starts', shape)
    for f in (near, shares): X.ob('lemma ' + f.__name__, lambda: lemma(*f()))


def near():
    """e = k/(2P) is an integer or at least 1/(2P) from one; with an error d < 1/(2P), floor(z) is floor(e), or e-1 when e is an integer"""
    k, j, P, f = z3.Ints('k j P f'); e, z, d, h = z3.Reals('e z d h')
    tj = z3.Int('tj')                                               # 2 P j
    yield [P >= 1, tj != k], z3.Or(k - tj >= 1, tj - k >= 1)
    # scaled by 2P: z' = 2P z, e' = k, floor(z) = f means 2Pf <= z' < 2P(f+1); |z'-k| < 1
    zz = z3.Real('zz'); a, b = z3.Ints('a b')                       # a = 2 P f, b = 2 P (f+1)
    yield [P >= 1, b == a + 2 * P, z3.ToReal(a) <= zz, zz < z3.ToReal(b), zz - k < 1, k - zz < 1], z3.And(k >= a, k <= b)
    yield [P >= 1, b == a + 2 * P, z3.ToReal(a) <= zz, zz < z3.ToReal(b), zz - k < 1, k - zz < 1, k != b], z3.And(a <= k, k < b)


def shares():
    """F(p) = floor(z(p)), e(p) = M p/P + 1/2: F(0) = 0, F(P) = M, and F(p+1) - F(p) is M/P rounded down or up"""
    M, P, K, A, B, q, r = z3.Ints('M P K A B q r')                  # K = M p; A = 2P F(p), B = 2P F(p+1)
    # from near: A <= 2K+P <= A+2P and B <= 2(K+M)+P <= B+2P, with equality on the right only when rounding fell below an integer
    h = [P >= 1, M >= 0, A <= 2 * K + P, 2 * K + P <= A + 2 * P, B <= 2 * K + 2 * M + P, 2 * K + 2 * M + P <= B + 2 * P]
    yield h, z3.And(B - A <= 2 * M + 2 * P, B - A >= 2 * M - 2 * P)   # so P (F(p+1)-F(p)) is within P of M
    g, x = z3.Ints('g x'); Pg, Pq, Px = z3.Ints('Pg Pq Px')          # blocks of a worker g, P g; M = P q + r, 0 <= r < P
    c = [P >= 1, r >= 0, r < P, M == Pq + r, Pg <= M + P, Pg >= M - P]
    mono = [z3.Implies(g >= q + 2, Pg >= Pq + 2 * P), z3.Implies(g <= q - 1, Pg <= Pq - P)]
    yield c + mono + [r > 0], z3.And(g >= q, g <= q + 1)
    # monotone products
    n = z3.Int('n')
    yield [P >= 1, n >= 2], P * n >= 2 * P
    yield [P >= 1, n >= 1], P * n >= P
    # when P divides M every e(p) is an integer and a half, so every share is M/P
    t = z3.Int('t'); f = z3.Int('f')
    yield [f <= t, 2 * t + 1 < 2 * f + 2], f == t
    # the ends: e(0) = 1/2, e(P) = M + 1/2
    yield [f <= 0, 1 < 2 * f + 2], f == 0


def subterms(t):
    seen = set(); st = [t]; out = []
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); out.append(x); st += x.children()
    return out


def both(X):
    if X.mode == 'native': return replay(X, 3000)
    distribute(X); rest(X)


def havoc(*pats):
    def f(Z, nm, A, mem):
        """another thread may have run"""
        k = Z.cnt[nm]
        for q in list(mem):
            if q[1] == 'arr' and any(p in q[0] for p in pats): mem[q] = z3.Array('after:%s#%d:%s' % (nm, k, q[0]), z3.BitVecSort(64), z3.BitVecSort(8))
    return f


OTHER = {r'nanodelay|pthread_(cond_wait|mutex_trylock|mutex_lock|mutex_unlock|join|create)': havoc('Pipeline', 'Done', 'a0')}
BOOT = ['p', 'p']; JOB = ['p', 'p'] + I32 * 2
rest = many([('code_voxels', 'spec_voxels', I32 * 9 + ['p']), ('code_serial_boot', 'spec_serial_boot', BOOT), ('code_serial_dispatch', 'spec_serial_dispatch', JOB), ('code_serial_wait', 'spec_serial_wait', []), ('code_serial_halt', 'spec_serial_halt', []),
             ('code_boot', 'spec_boot', BOOT), ('code_halt', 'spec_halt', []), ('_ZL16parallel_execute', 'spec_assign', ['p', 'p'] + I32 * 2 + ['p']), ('code_worker', 'spec_worker', ['p'], None, r'^a0$|Pipeline|Done'), ('code_dispatch', 'spec_dispatch', JOB), ('code_wait', 'spec_wait', [])],
            r'Pipeline|Done', effects=dict(ALLOC, **OTHER), locals=True, keep=r'parallel_execute')
contract('G02', 'work', H + '/work.cc', ('ref',), **KW)(both)
CF = ('ref', 'v4sse', 'v8avx2', 'v16avx512')
contract('G02', 'exec', H + '/work.cc', CF, **dict(KW, qproof=CF, native_dims=[]))(many([('code_exec', 'spec_exec', ['p'] + I32)], r'Pipeline|Done', locals=True))
