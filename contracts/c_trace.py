"""Relational contracts (irv/trace.py): functions of the real code against specification functions of contracts/harness."""
import os, re
from irv.reg import contract
from irv import bits, trace
from irv.bits import Ptr
from irv.ctx import Mismatch, Undecided
from irv.ir import Unsupported

H = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness')


def rel(code, spec, nargs, arrays=r'^$', skip=r'^%', cases=400, **kw):
    return many([(code, spec, nargs)], arrays, skip, cases, **kw)


def many(fs, arrays=r'^$', skip=r'^%', cases=400, **kw):
    def run(X):
        if X.mode == 'native': return replay(X, cases)
        def ob(code, spec, nargs, lab=None, arr=None):
            Z = trace.Trace(X.mod, arrays=arr or arrays, **{k: v for k, v in kw.items() if k in ('ignore', 'keep')}); Z.locarr = bool(kw.get('locals')); Z.noarr = bool(kw.get('noarr')); Z.unroll = 32 if Z.locarr else 0
            for k, v in kw.items():
                if k in ('effects', 'contracts', 'nonnull', 'pure', 'argskip'): getattr(Z, k).update(v)
            f = [n for n in X.mod.fns if re.search(code, n)]
            if len(f) != 1: raise Unsupported('%d functions %s' % (len(f), code))
            trace.refine(X, Z, f[0], '@' + spec, [Ptr('a%d' % i, 0) if t == 'p' else trace.bv(t[1], t[0]) if isinstance(t, tuple) else trace.z3.BitVec('a%d' % i, t) for i, t in enumerate(nargs)], skip=skip)
        for q in kw.get('lemmas', ()): X.ob('lemma ' + q.__name__, lambda: lemma(*q()))
        for q in fs: X.ob(len(q) > 3 and q[3] or q[1], lambda: ob(*q))
    return run


def lemma(*steps):
    """each step follows from the hypotheses of its own"""
    for hyp, con in steps:
        S = trace.z3.Solver(); S.set('timeout', 60000); S.add(*hyp); S.add(trace.z3.Not(con)); r = S.check()
        if r == trace.z3.unknown: raise Undecided('lemma')
        if r != trace.z3.unsat: raise Mismatch('lemma fails: %s' % S.model())


def replay(X, cases):
    import ctypes
    L = ctypes.CDLL(bits.harness_so(X.src, X.cfg), mode=os.RTLD_LAZY); b = ctypes.create_string_buffer(4096)

    def go():
        for i in range(cases):
            sd = X.seed * 100003 + i
            if L.native_case(ctypes.c_uint(sd), b, 4096):
                m = b.value.decode('latin1'); X.record['mismatch'] = {'case': sd, 'where': m}
                raise Mismatch('case %d: %s' % (sd, m))
    X.ob('replay', go)


KW = dict(qproof=('ref',), bounded=False, native_dims=[None], Pn=(1,))
contract('U01', 'step', H + '/advance.cc', ('ref',), **KW)(rel(r'^@_ZN15vpic_simulation7advanceEv$', 'spec_advance', ['p'], r'^\*L\d+\.\d+\[\d+\]$', r'^%|profile_internal', 3000))

D, F, I32 = [64], [32], [32]
contract('I01', 'injection', H + '/inject.cc', ('ref',), **KW)(many([
    (r'^@_ZN15vpic_simulation15inject_particleE', 'spec_inject', ['p', 'p'] + D * 8 + I32),
    (r'^@code_raw1', 'spec_raw1', ['p', 'p'] + F * 3 + I32 + F * 4), (r'^@code_raw2', 'spec_raw2', ['p', 'p'] + F * 3 + I32 + F * 7 + I32)], r'^\*a1\[(24|40)\]$', cases=8000))


def moved(Z, nm, A, mem):
    """move_p may change the mover it is given"""
    p = A[1]; k = Z.cnt['move_p' if nm == 'move_p' else nm]
    if isinstance(p.o, int):
        for i in range(4): mem[(p.r, p.o + 4 * i)] = trace.z3.BitVec('moved%d.%d' % (k, i), 32)


P7 = ['p'] * 5 + I32
contract('B01', 'handlers', H + '/boundary.cc', ('ref',), **KW)(many(
    [(r'interact_absorb_tally', 'spec_absorb', P7 + I32)] + [(r'interact_maxwellian_reflux', 'spec_reflux', P7 + [(32, f)], 'spec_reflux face %d' % f) for f in range(6)] +
    [(r'set_reflux_temp', 'spec_set_reflux', ['p', 'p'] + F * 2), (r'apply_emitter_list', 'spec_emitters', ['p']), (r'emit_child_langmuir', 'spec_child_langmuir', ['p', 'p'] + I32, None, r'^(\*\*a0\[0\]\[(%d|%d)\]|\*\*a0\[8\]\[0\]|a1)$' % (24, 40))],
    r'^(\*a0\[(16|24)\]|\*\*a0\[0\]\[(16|24)\])$', cases=6000, effects={r'move_p': moved}))


def malloc_(Z, nm, A, mem):
    """allocation: a new object"""
    k = Z.cnt[nm]; p = A[1]; r = Ptr('new:%s#%d' % (nm, k), 0); Z.nonnull.add(r.r)
    mem[(p.r, p.o)] = r; mem[(p.r, p.o + 4)] = r


ALLOC = {r'^util_malloc(_aligned)?$|^_Z\d+util_malloc(_aligned)?P': malloc_}
contract('F07', 'materials', H + '/material.cc', ('ref',), **KW)(many(
    [(r'code_params', 'spec_params', ['p', 'p'] + F), (r'new_standard_field_array', 'spec_array', ['p', 'p'] + F), (r'^@(_Z8)?material(P|$)', 'spec_material', ['p'] + F * 12),
     (r'append_material', 'spec_append', ['p', 'p']), (r'find_material_id', 'spec_find', [16, 'p']), (r'num_material', 'spec_num', ['p']),
     (r'^@(_Z\d+)?clear_jf', 'spec_clear_jf', ['p'], None, r'^\*a0\[0\]$'), (r'^@(_Z\d+)?clear_rhof', 'spec_clear_rhof', ['p'], None, r'^\*a0\[0\]$')],
    r'^new:.*aligned', cases=1500, effects=ALLOC, argskip={r'util_malloc': (0,)}))

contract('P05', 'exchange', H + '/exchange.cc', ('ref', 'v4sse', 'v8avx2', 'v8port'), **dict(KW, qproof=('ref', 'v4sse', 'v8avx2', 'v8port')))(many([(r'^@(_Z\d+)?boundary_p', 'spec_boundary_p', ['p'] * 4)], r'^\*L\d+\.\d+\[\d+\]$|^H\d+:|^ret:|^new:|^\*\*\*?a2|^\*a3', cases=4000, effects=ALLOC, locals=True, argskip={r'util_malloc': (0,)}))


def waited(Z, nm, A, mem):
    """the workers may have written every array"""
    k = Z.cnt[nm]
    for q in list(mem):
        if q[1] == 'arr' and q[0][0] != '%': mem[q] = trace.z3.Array('after:%s#%d:%s' % (nm, k, q[0]), trace.z3.BitVecSort(64), trace.z3.BitVecSort(8))


A3 = ['p'] + I32 * 2
contract('P03', 'serial', H + '/sort.cc', ('v4sse',), **dict(KW, qproof=('v4sse',)))(many([(r'^@(_Z\d+)?sort_p(P|$)', 'spec_sort_serial', ['p'])],
    r'^\*a0\[\d+\]$|^\*@static:next|^new:|^H\d+:', cases=4000, effects=ALLOC, locals=True, argskip={r'util_malloc': (0,)}))
contract('P03', 'parallel', H + '/sort.cc', ('ref',), **KW)(many(
    [(r'coarse_count_pipeline_scalar', 'spec_coarse_count', A3), (r'coarse_sort_pipeline_scalar', 'spec_coarse_sort', A3), (r'subsort_pipeline_scalar', 'spec_subsort', A3), (r'^@(_Z\d+)?sort_p(P|$)', 'spec_sort_parallel', ['p'])],
    r'^\*a0\[\d+\]$|^\*@static:|^new:|^H\d+:', cases=4000, effects=dict(ALLOC, **{r'@thread\[': waited, r'^_Z\d+\w*_pipeline_scalar': waited}), locals=True, keep=r'_pipeline_scalar', argskip={r'util_malloc': (0,)}))


def gathered(Z, nm, A, mem):
    """every rank's number"""
    p = A[1]; mem[(p.r, 'arr')] = trace.z3.Array('gathered#%d' % Z.cnt[nm], trace.z3.BitVecSort(64), trace.z3.BitVecSort(8))


def positions():
    """(x,y,z) -> x + px (y + py z) is one to one from 0<=x<px, 0<=y<py, 0<=z<pz onto 0..px py pz-1, inverted by the divisions"""
    I, A, O = trace.z3.Ints, trace.z3.And, trace.z3.Or
    n, a, r, b, q, m = I('n a r b q m')
    box = [n >= 1, a >= 0, a < n, r >= 0, r < n]
    yield box + [b - q >= 1], n * (b - q) >= n                                   # monotone
    yield box + [q - b >= 1], n * (q - b) >= n
    nb, nq = I('nb nq')                                                         # products n b and n q
    yield box + [a + nb == r + nq, trace.z3.Implies(b - q >= 1, nb - nq >= n), trace.z3.Implies(q - b >= 1, nq - nb >= n)], b == q
    yield box + [a + n * b == r + n * b], a == r                                 # quotient and remainder are unique
    yield box + [b >= 0, b <= m - 1, n * b <= n * ( m - 1 )], A(a + n * b >= 0, a + n * b < n * m)  # stay in range
    yield [n >= 1, b <= m - 1], n * b <= n * ( m - 1 )


def tiling():
    """domains of N/P equal cells tile the box: the end of one is the start of the next, N cells fill it, and the last outer cell of
    one domain is followed by the first cell of the next"""
    R, I = trace.z3.Reals, trace.z3.Ints
    x0, x1, p, P, N, n, d = R('x0 x1 p P N n d')
    corner = lambda k: x0 * (1 - k / P) + x1 * (k / P)
    yield [P >= 1], corner(trace.z3.RealVal(0)) == x0
    yield [P >= 1], corner(P) == x1
    yield [P >= 1, N >= 1, n * P == N, d * N == x1 - x0], (corner(p + 1) - corner(p)) * P == x1 - x0
    w = R('w')[0]
    yield [P >= 1, N >= 1, n * P == N, d * N == x1 - x0, w * P == x1 - x0], n * d == w
    i, m = I('i m')
    yield [m >= 1], i * m + (m - 1) + 1 == (i + 1) * m


BOX = ['p'] + D * 6 + I32 * 6
DECK = ['p'] + D * 12
contract('G01', 'domains', H + '/grid.cc', ('ref',), **KW)(many(
    [(r'^@(_Z\d+)?partition_periodic_box', 'spec_periodic', BOX), (r'^@(_Z\d+)?partition_absorbing_box', 'spec_absorbing', BOX + I32), (r'^@(_Z\d+)?partition_metal_box', 'spec_metal', BOX),
     (r'^@(_Z\d+)?size_grid', 'spec_size', ['p'] + I32 * 3, None, r'^a0$|^new:'), (r'^@(_Z\d+)?join_grid', 'spec_join', ['p'] + I32 * 2, None, r'^a0$'), (r'^@(_Z\d+)?set_fbc', 'spec_fbc', ['p'] + I32 * 2, None, r'^a0$'), (r'^@(_Z\d+)?set_pbc', 'spec_pbc', ['p'] + I32 * 2, None, r'^a0$'),
     (r'^@(_Z\d+)?new_grid', 'spec_new', [], None, r'^new:'), (r'^@(_Z\d+)?delete_grid', 'spec_delete', ['p']),
     (r'code_deck_periodic', 'spec_deck_periodic', DECK), (r'code_deck_absorbing', 'spec_deck_absorbing', DECK + I32), (r'code_deck_reflecting', 'spec_deck_reflecting', DECK), (r'code_deck_custom', 'spec_deck_custom', ['p'] + D * 3 + I32 + D + I32 * 4)],
    r'^$', cases=3000, effects=dict(ALLOC, **{r'mp_allgather_i64': gathered}), locals=True, lemmas=(positions, tiling),
    keep=r'partition_|size_grid|join_grid|set_fbc|set_pbc', argskip={r'util_malloc': (0,)}))
