"""Contracts of the thread dispatcher as seen by host-side functions: a dispatched
pipeline function (whose own contract says which items each rank handles) is replaced
by its effect; the dispatcher is taken to call it once per rank, between dispatch and wait."""
import re
from . import terms as T
from .terms import P, C, Ptr, NULL, FnPtr, TRUE, FALSE
from .engine import Spec, Region, demangle, Store, Fam, Havoc
from .ir import Unsupported
from .layout import layout

STUB = '''
#include "src/util/pipelines/pipelines.h"
#if defined(VPIC_USE_PTHREADS)
static void st_dispatch(pipeline_func_t f, void *a, int sz, int str) { for (int i=0;i<IRV_NP;i++) f((char*)a + (long)i*sz*str, i, IRV_NP); }
static void st_wait(void) {}
extern "C" { pipeline_dispatcher_t thread = { IRV_NP, 0, 0, st_dispatch, st_wait }; pipeline_dispatcher_t serial = { IRV_NP, 0, 0, st_dispatch, st_wait }; }
#else
extern "C" { omp_container_t omp_helper = { IRV_NP, 1, 0 }; }
#endif
'''


def effect(X, st, region, comps, spec, only=None):
    """append a callee's effect on a grid array: spec(state, comp, voxel, old) -> value or None"""
    E = X.E; log = st.log(region); reg = E.regions[region]
    inv = {c: f for f, c in comps.items() if f != '#'}

    def fn(E, st1, off, size):
        dg = E.digits(st1, reg, off)
        if dg is None:
            # unknown element: an arbitrary value (sound; a loop candidate that is about to be refined)
            b = inv.get(off.t.get((), 0) % reg.stride) if all(k % reg.stride == 0 for m, k in off.t.items() if m) else '?'
            if b is None: return None
            raise Unsupported('effect on unresolved voxel %r' % (off,))
        c, p = dg
        comp = inv.get(c)
        if comp is None or (only is not None and comp not in only): return None

        def old(cc, *q):
            s0 = st1.copy(); s0.mem[region] = log
            return E.lookup(s0, region, X.vox(*q) * comps['#'] + comps[cc], 4)
        v = spec(st1, comp, p, old)
        if v is None: return None
        return TRUE, v
    sp = Spec(fn)
    if only is not None: sp.bytes = [comps[k] for k in only]
    st.mem[region] = log + (sp,)


class Host:
    def __init__(s, X, pipes, N=None, late=False, whole=False):
        s.X = X; s.E = E = X.E; s.pipes = pipes; s.late = late
        s.N = X.N if N is None else N
        if X.mode == 'native':
            X.opts = dict(X.opts); X.opts['stub'] = X.opts.get('stub', '') + '\n#define IRV_NP %d\n' % X.Pn + STUB
            s.P = C(X.Pn); s.D = None
            return
        if X.mode == 'proof':
            s.P = T.sym('NP', 1); s.D = T.sym('D', 0)
            E.facts.append(T.ble(s.D, s.N))
        else:
            s.P = C(X.Pn); s.D = C(X.i(s.N) // 16 * 16)
        if whole: s.D = T.as_p(s.N)      # the ranks handle every item, nothing is left for the remainder
        omp = 'omp' in X.cfg
        if omp:
            r = E.region('@omp_helper'); r.known = {0: s.P, 4: C(1)}; r.ginit = True; r.kinds = {8: 'ptr'}
        else:
            lay = layout(X.cfg, ('src/util/pipelines/pipelines.h',), {'pipeline_dispatcher_t': ['n_pipeline', 'dispatch', 'wait']})['pipeline_dispatcher_t']
            for nm in ('thread', 'serial'):
                r = E.region('@' + nm); r.ginit = True
                r.known = {lay['n_pipeline']: s.P, lay['dispatch']: FnPtr('@irv.dispatch'), lay['wait']: FnPtr('@irv.wait')}
        E.contracts['irv.dispatch'] = s.dispatch
        E.contracts['irv.wait'] = s.wait
        E.contracts['__kmpc_global_thread_num'] = lambda E, st, a, I: C(0)
        for n in ('__kmpc_push_num_threads', '__kmpc_barrier', '__kmpc_for_static_fini', '__kmpc_for_static_init_4'):
            E.contracts[n] = lambda E, st, a, I: None
        E.contracts['__kmpc_fork_call'] = s.fork
        for b in pipes:
            for suf in ('_scalar', '_v4', '_v8', '_v16'):
                E.contracts[b + suf] = (lambda b, suf: lambda E, st, a, I: s.call(b, suf, st, a))(b, suf)
        E.iter_cb = s.loop

    def win(s, lo, hi): return lambda k: T.band(T.ble(lo, k), T.blt(k, hi))

    def dispatch(s, E, st, a, I):
        fn, ptr, sz, stri = a
        if not isinstance(fn, FnPtr): raise Unsupported('dispatch of %r' % (fn,))
        nm = demangle(fn.n); m = re.match(r'(.*)_(scalar|v4|v8|v16)$', nm)
        if not m or m.group(1) not in s.pipes: raise Unsupported('dispatch of %s (no contract)' % nm)
        if stri.const() != 0: raise Unsupported('dispatch with per-rank arguments')
        st.event('dispatch', nm)
        if s.late:
            st.tags = dict(st.tags); st.tags['pend'] = st.tags.get('pend', ()) + ((m.group(1), ptr),)
        else: s.pipes[m.group(1)](s, st, ptr, s.win(C(0), s.D), 'ranks')

    def wait(s, E, st, a, I):
        st.event('wait')
        for b, ptr in st.tags.get('pend', ()): s.pipes[b](s, st, ptr, s.win(C(0), s.D), 'ranks')
        st.tags = dict(st.tags); st.tags['pend'] = ()

    def call(s, b, suf, st, a):
        ptr, r, n = a
        E = s.E
        if E.decide(st, T.beq(n, s.P)) is not True: raise Unsupported('pipeline called with n_pipeline %r' % (n,))
        last = E.decide(st, T.beq(r, s.P))
        if last is True:
            st.event('remainder', b + suf)
            if suf != '_scalar': raise Unsupported('remainder handled by a vector pipeline')
            s.pipes[b](s, st, ptr, s.win(s.D, s.N), 'remainder'); return
        c = r.const()
        if c is not None:
            st.event('rank', b + suf, c)
            D = s.i(s.D)
            s.pipes[b](s, st, ptr, s.win(C(D * c // s.i(s.P)), C(D * (c + 1) // s.i(s.P))), 'ranks'); return
        st.event('pipe', b, r, ptr)

    def i(s, p): return p.const()

    def fork(s, E, st, a, I):
        fn = a[2]
        if not isinstance(fn, FnPtr): raise Unsupported('omp region')
        E.region('omp.tid', dflt='i32').known = {0: C(0)}
        outs = E.run(fn.n, [Ptr('omp.tid', C(0)), Ptr('omp.tid', C(0))] + list(a[3:]), st.copy())
        # resume every returned state in the caller
        return s.resume(E, st, outs, I)

    def resume(s, E, st, outs, I):
        if len(outs) != 1: raise Unsupported('omp region with several outcomes')
        o = outs[0][0]
        st.mem = o.mem; st.pc = o.pc; st.ev = o.ev
        return None

    def loop(s, E, lp):
        """an OpenMP loop that calls one pipeline per iteration == dispatch"""
        ps = [o for o in lp.latch if any(e[0] == 'pipe' for e in o.ev)]
        if not ps: return
        for o in lp.latch:
            if len(o.ev) != 1: raise Unsupported('omp loop body')
            _, b, r, ptr = o.ev[0]
            if E.decide(o, T.beq(r, T.A(lp.k))) is not True: raise Unsupported('omp loop rank %r' % (r,))
        if lp.K is None or not s.E.prove(lp.pre, T.beq(lp.K, s.P)): raise Unsupported('omp loop runs %r ranks' % (lp.K,))
        for x in lp.exits: s.pipes[b](s, x, ptr, s.win(C(0), s.D), 'ranks')


def snap(name):
    """callee treated by its own contract elsewhere: records the call and the memory it sees"""
    def h(E, st, a, I): st.event('call', name, tuple(a), dict(st.mem))
    h.snap = True
    return h


def calls(o, name): return [e for e in o.ev if e[0] == 'call' and e[1] == name]


def nothing_after(X, o, e, regs, tag):
    def f():
        from .ctx import Mismatch
        for r in regs:
            if o.log(r) is not e[3].get(r, ()) and o.log(r) != e[3].get(r, ()): raise Mismatch('%s is modified after %s' % (r, e[1]))
    X.ob(tag, f)
