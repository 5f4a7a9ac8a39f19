"""Exchange between neighbouring domains (F04) and the hydro synchronisation (S03).

The ports are taken by contract: the message received from a port is what an equal
neighbour running the same code sent through it.  The neighbour's memory is a renamed copy
of this domain's memory, so a received word is the renaming of the word sent at the same
place of the message (the layout of the message itself is not prescribed)."""
from irv.reg import contract
from irv.ctx import Mismatch
from irv.ir import FLOAT, DOUBLE, PTR, INT, Unsupported
from irv.engine import Region
from irv.host import snap, calls, nothing_after
from fieldlib import *
from fractions import Fraction as Fr

SRC = 'src/field_advance/standard/remote.cc'
AX = 'xyz'
DIRS = [(a, s) for s in (-1, 1) for a in AX]
WS = 4


def bnd(ax, s): return 13 + s * {'x': 1, 'y': 3, 'z': 9}[ax]


def ren(X, v, port):
    """the same quantity in the memory of the neighbour that sends through `port`"""
    if X.mode == 'native': return T.fc(Fr(1, 2)) * v
    memo = X.__dict__.setdefault('_ren', {}).setdefault(port, {})

    def go(n):
        if not isinstance(n, T.F): return n
        if n in memo: return memo[n]
        if n.op == 'mem': r = T.fmem('N%d:%s' % (port, n.a[0]), n.a[1], n.a[2], n.a[3])
        elif n.op == 's': r = T.fsym('N%d:%s' % (port, n.a[0]))
        elif n.op == 'c': r = n
        else: r = T._F(n.op, *[go(y) for y in n.a])
        memo[n] = r
        return r
    return go(v)


def dirof(i, j, k):
    v = [q.const() for q in (i, j, k)]
    if None in v or sorted(map(abs, v)) != [0, 0, 1]: raise Mismatch('port (%r,%r,%r) is not a face' % (i, j, k))
    a = [n for n in range(3) if v[n]][0]
    return AX[a], v[a]


NATIVE = '''
#include <cstring>
static float sb[27][1<<16], rb[27][1<<16]; static int ss[27], rs[27];
extern "C" {
int _world_size = %d; int _world_rank = 0; int irv_bc[27];
#define B(i,j,k) ((i)+3*(j)+9*(k)+13)
void begin_recv_port(int i,int j,int k,int size,void*g) { rs[B(i,j,k)] = size; }
void *size_send_port(int i,int j,int k,int size,void*g) { int p=B(i,j,k), d=((int*)((char*)g+IRV_BC))[p]; if (d<0||d>=_world_size) return 0; ss[p]=size; return sb[p]; }
void begin_send_port(int i,int j,int k,int size,void*g) { int p=B(i,j,k); for(int n=0;n<size/4;n++) rb[p][n] = 0.5f*sb[p][n]; }
void *end_recv_port(int i,int j,int k,void*g) { int p=B(i,j,k), d=((int*)((char*)g+IRV_BC))[B(-(i),-(j),-(k))]; if (d<0||d>=_world_size) return 0; return rb[p]; }
void end_send_port(int i,int j,int k,void*g) {}
}
''' % WS


def ports(X, g, bcs):
    """contracts of the port layer"""
    on = lambda ax, s: bcs[(ax, s)] >= 0
    for (ax, s), b in bcs.items(): X.E.regions['g'].known[X.G['bc'] + 4 * bnd(ax, s)] = C(b)
    if X.mode == 'native':
        X.opts = dict(X.opts); X.opts['stub'] = X.opts.get('stub', '') + '\n#define IRV_BC %d\n' % X.G['bc'] + NATIVE
        return
    E = X.E
    r = E.region('@_world_size'); r.known = {0: C(WS)}; r.ginit = True

    def chk(a, n):
        if a[-1] != g: raise Mismatch('port used with grid %r' % (a[-1],))
        return dirof(*a[:3])

    def size(q):
        c = q.const()
        if c is None or c < 0 or c % 4: raise Mismatch('message size %r' % (q,))
        return c

    def tag(st, k, v=None):
        if v is not None: st.tags = dict(st.tags); st.tags[k] = v
        return st.tags.get(k)

    def begin_recv(E, st, a, I):
        ax, s = chk(a, 'begin_recv')
        if tag(st, ('r', ax, s)): raise Mismatch('receive on port %s%+d begun twice' % (ax, s))
        tag(st, ('r', ax, s), size(a[3]) + 1)

    def size_send(E, st, a, I):
        ax, s = chk(a, 'size_send')
        if not on(ax, s): return NULL_
        n = 'send%d' % bnd(ax, s)
        E.region(n)
        st.mem[n] = ()
        tag(st, ('s', ax, s), size(a[3]) + 1)
        return Ptr(n, ZERO)

    def begin_send(E, st, a, I):
        ax, s = chk(a, 'begin_send')
        if not on(ax, s): return
        if tag(st, ('s', ax, s)) is None or size(a[3]) + 1 > tag(st, ('s', ax, s)): raise Mismatch('message on port %s%+d larger than the buffer requested' % (ax, s))
        if tag(st, ('m', ax, s)): raise Mismatch('port %s%+d sends twice' % (ax, s))
        tag(st, ('m', ax, s), (st.log('send%d' % bnd(ax, s)), size(a[3]), dict(st.mem)))
        X.sent.append((ax, s, dict(st.mem), st))

    def end_recv(E, st, a, I):
        ax, s = chk(a, 'end_recv')
        if not on(ax, -s): return NULL_
        if not tag(st, ('r', ax, s)): raise Mismatch('receive on port %s%+d ended before it began' % (ax, s))
        n = 'recv%d' % bnd(ax, s)
        m = tag(st, ('m', ax, s))
        if m is None and on(ax, s): raise Mismatch('message of port %s%+d awaited before this domain sends its own' % (ax, s))

        def val(E, st1, off, sz, ver, ty):
            if m is None: return None
            o = off.const()
            if o is None: raise Unsupported('message word at %r' % (off,))
            if o < 0 or o + sz > m[1]: raise Mismatch('reads word %d of a message of %d bytes' % (o, m[1]))
            x = st1.copy(); x.mem = dict(x.mem); x.mem['send%d' % bnd(ax, s)] = m[0]
            v = E.lookup(x, 'send%d' % bnd(ax, s), off, sz)
            v = E.tof(v)
            for w in T.fatoms(v):
                if w.op == 'mem' and w.a[0].startswith('send'): raise Mismatch('word %d of the message on port %s%+d is never written' % (o // 4, ax, s))
            return ren(X, v, bnd(ax, s))
        E.region(n, symval=val)
        if m is not None and m[1] + 1 != tag(st, ('r', ax, s)): raise Mismatch('port %s%+d sends %d bytes, %d are expected' % (ax, s, m[1], tag(st, ('r', ax, s)) - 1))
        tag(st, ('r', ax, s), 0)
        return Ptr(n, ZERO)

    def end_send(E, st, a, I):
        ax, s = chk(a, 'end_send')
        tag(st, ('e', ax, s), 1)
    X.sent = []
    E.contracts.update({'begin_recv_port': begin_recv, 'size_send_port': size_send, 'begin_send_port': begin_send, 'end_recv_port': end_recv, 'end_send_port': end_send})


from irv.terms import NULL as NULL_
# faces shared with a neighbour (>= 0) or local (< 0); the last ones have the neighbour on one side only
PERIODIC = {d: i % WS for i, d in enumerate(DIRS)}
def only(*ds): return {d: (1 if d in ds else -1) for d in DIRS}
BCS = [PERIODIC, only(), only(('x', -1), ('x', 1)), only(('y', -1), ('y', 1), ('z', 1), ('z', -1)), only(('z', -1), ('z', 1)), only(('x', -1), ('x', 1), ('y', -1), ('y', 1))]


def nof(X, ax): return {'x': X.nx, 'y': X.ny, 'z': X.nz}[ax]


def dax(X, ax): return gk(X, 'd' + ax)


def at(p, ax, v): return tuple(v if a == ax else q for a, q in zip(AX, p))


def pl(X, p, ax): return X.i(p[AX.index(ax)])


def inspan(X, p, ax, hi):
    """the coordinates of p other than ax lie in 1..n+hi"""
    return all(1 <= X.i(q) <= X.i(nof(X, a)) + hi[a] for a, q in zip(AX, p) if a != ax)


CELL = {a: 0 for a in AX}; NODE = {a: 1 for a in AX}


def edge(c): return {a: 0 if a == c else 1 for a in AX}


# ---- ghost exchange
def ghost_span(what, ax, comp):
    if what == 'tang_b': return dict(NODE, **{a: 0 for a in AX if a != comp[-1] and a != ax}) if comp in ['cb' + a for a in AX if a != ax] else None
    if what == 'norm_e': return NODE if comp == 'e' + ax else None
    return CELL if comp == 'div_b_err' else None


def ghost(what):
    def run(X):
        for bi, bcs in enumerate(BCS):
            X.reset()
            g = X.grid(); f = X.fields(); ports(X, g, bcs)
            tag = '%s faces %r' % (what, [bcs[d] for d in DIRS])
            outs = X.run('begin_remote_ghost_' + what, [f, g])
            X.ob(tag + '/begin', lambda: len(outs) == 1)
            X.untouched(outs[0][0], {'send%d' % bnd(*d) for d in DIRS}, tag + '/begin')
            outs = X.run('end_remote_ghost_' + what, [f, g], outs[0][0])
            for o, r in outs:
                def spec(st, comp, p):
                    for ax, s in DIRS:
                        sp = ghost_span(what, ax, comp)
                        if bcs[(ax, -s)] < 0 or sp is None: continue
                        n = X.i(nof(X, ax))
                        if pl(X, p, ax) != (n + 1 if s < 0 else 0) or not inspan(X, p, ax, sp): continue
                        src, own = (1, n) if s < 0 else (n, 1)
                        N = ren(X, X.fld(comp, *at(p, ax, C(src))), bnd(ax, s)); dN = ren(X, dax(X, ax), bnd(ax, s)); dX = dax(X, ax)
                        return (T.fc(2) * dX / (dN + dX)) * N + ((dN - dX) / (dN + dX)) * X.fld(comp, *at(p, ax, C(own)))
                    return None
                X.frame(o, 'f', X.FL, spec, tag)
                X.untouched(o, {'f'} | {'send%d' % bnd(*d) for d in DIRS}, tag)
                if X.mode != 'native': X.ob(tag + '/messages completed', lambda: finished(X, o, bcs))
    return run


def finished(X, o, bcs):
    for ax, s in DIRS:
        if bcs[(ax, s)] >= 0 and not (o.tags.get(('m', ax, s)) and o.tags.get(('e', ax, s))): raise Mismatch('send on port %s%+d not completed' % (ax, s))
        if bcs[(ax, -s)] >= 0 and o.tags.get(('r', ax, s)) != 0: raise Mismatch('receive on port %s%+d not completed' % (ax, s))


# ---- synchronisation of the values shared by both sides of a face
def tw(X, ax, s, own, N, half=False):
    """weighted combination of both copies: each side is weighted with the cell size on its side"""
    dN = ren(X, dax(X, ax), bnd(ax, s)); dX = dax(X, ax); k = T.fc(1 if half else 2)
    return k * dX / (dN + dX) * own + k * dN / (dN + dX) * N


def avg(X, ax, s, own, N): return T.fc(Fr(1, 2)) * (own + N)


HYD = 'jx jy jz rho px py pz ke txx tyy tzz tyz tzx txy'.split()
SYNC = {
    'synchronize_tang_e_norm_b': lambda ax, c: (CELL, avg) if c == 'cb' + ax else (edge(c[-1]), avg) if c in [q + a for q in ('e', 'tca') for a in AX if a != ax] else None,
    'synchronize_jf': lambda ax, c: (edge(c[-1]), tw) if c in ['jf' + a for a in AX if a != ax] else None,
    'synchronize_rho': lambda ax, c: (NODE, tw) if c == 'rhof' else (NODE, lambda *a: tw(*a, half=True)) if c == 'rhob' else None,
    'synchronize_hydro_array': lambda ax, c: (NODE, tw) if c in HYD else None,
}
LOCAL = {'synchronize_tang_e_norm_b': ['local_adjust_tang_e', 'local_adjust_norm_b'], 'synchronize_jf': ['local_adjust_jf'], 'synchronize_rho': ['local_adjust_rhof', 'local_adjust_rhob'], 'synchronize_hydro_array': ['reduce_hydro_array']}


def sync(fn):
    hyd = fn == 'synchronize_hydro_array'; reg = 'h' if hyd else 'f'; rule = SYNC[fn]

    def run(X):
        for bi, bcs in enumerate(BCS):
            X.reset()
            g = X.grid()
            if hyd:
                L = layout(X.cfg, ('src/sf_interface/sf_interface.h',), {'hydro_t': HYD, 'hydro_array_t': ['h', 'g', 'n_pipeline', 'stride']}); HL = L['hydro_t']; A_ = L['hydro_array_t']
                X.E.region('h', stride=HL['#'], grid=(X.sx, X.sy)); X.sizes['h'] = HL['#'] * X.i(X.nv)
                arr = Ptr('h', ZERO); top = X.struct('ha', {A_['h']: arr, A_['g']: g}, A_['#'])
                fld = lambda c, *p: T.fmem('h', '', X.vox(*p) * HL['#'] + HL[c], 'f32')
            else: f = arr = X.fields(); top = fa_struct(X, f, g); HL = X.FL; fld = X.fld
            ports(X, g, bcs); allsum(X)
            for n in LOCAL[fn]: X.E.contracts[n] = snap(n)
            tag = 'faces %r' % ([bcs[d] for d in DIRS],)
            memo = {}

            def val(comp, p, k):
                """value after the exchange along the first k axes"""
                if k == 0:
                    v = fld(comp, *p)
                    if hyd and comp in HYD:
                        for ax, s in DIRS:
                            if bcs[(ax, s)] < 0 and pl(X, p, ax) == (1 if s < 0 else X.i(nof(X, ax)) + 1) and inspan(X, p, ax, NODE): v = T.fc(2) * v
                    return v
                key = (comp, p, k)
                if key in memo: return memo[key]
                ax = AX[k - 1]; v = val(comp, p, k - 1); r = rule(ax, comp)
                if r and inspan(X, p, ax, r[0]):
                    n = X.i(nof(X, ax))
                    for s in (-1, 1):
                        if bcs[(ax, -s)] >= 0 and pl(X, p, ax) == (n + 1 if s < 0 else 1):
                            v = r[1](X, ax, s, v, ren(X, val(comp, at(p, ax, C(1 if s < 0 else n + 1)), k - 1), bnd(ax, s)))
                memo[key] = v
                return v

            def err():
                t = F0
                for k, ax in enumerate(AX):
                    for p in allcells(X, 1, (1, 1, 1)):
                        n = X.i(nof(X, ax))
                        for s in (-1, 1):
                            if bcs[(ax, -s)] < 0 or pl(X, p, ax) != (n + 1 if s < 0 else 1): continue
                            for comp in ['cb' + ax] + ['e' + a for a in AX if a != ax]:
                                r = rule(ax, comp)
                                if not inspan(X, p, ax, r[0]): continue
                                d = val(comp, p, k) - ren(X, val(comp, at(p, ax, C(1 if s < 0 else n + 1)), k), bnd(ax, s))
                                t = t + d * d
                return t
            n = 0
            for o, r in X.run(fn, [top]):
                n += 1
                X.frame(o, reg, HL, lambda st, c, p: val(c, p, 3) if any(rule(a, c) for a in AX) else None, tag)
                X.untouched(o, {reg} | {'send%d' % bnd(*d) for d in DIRS}, tag)
                if X.mode != 'native':
                    X.ob(tag + '/messages completed', lambda: finished(X, o, bcs))
                    def first():
                        for nm in LOCAL[fn]:
                            es = calls(o, nm)
                            if len(es) != 1 or es[0][2] != ((top,) if hyd else (arr, g)): raise Mismatch('%s is called %d times' % (nm, len(es)))
                            if es[0][3].get(reg, ()): raise Mismatch('values are changed before ' + nm)
                            for ax, s, mem, st in X.sent:
                                if not any(e is es[0] for e in st.ev): raise Mismatch('values are sent before ' + nm)
                    X.ob(tag + '/local adjustment first', first)
                if fn == 'synchronize_tang_e_norm_b': X.ob(tag + '/reported error', lambda: X.equal(o, r, T.ffn('allsum', err(), T.fc(0)), 'desynchronisation error'))
            X.ob('reached ' + tag, lambda: n > 0 or X._vac())
    return run


RD = [(2, 3, 4), (1, 3, 2), (3, 1, 1), (1, 1, 1)]
for what in ('tang_b', 'norm_e', 'div_b'):
    contract('F04', 'remote_ghost_' + what, SRC, ('ref',), dims=RD, proof=False)(ghost(what))
for fn in SYNC:
    pr, src = ('S03', 'src/sf_interface/hydro_array.cc') if 'hydro' in fn else ('F04', SRC)
    contract(pr, fn, src, ('ref',), dims=RD, proof=False, opts={'ret': {fn: 'f64' if fn == 'synchronize_tang_e_norm_b' else None}})(sync(fn))


# ---- the port layer itself: which message goes where
def portlayer(X):
    for d in [(i, j, k) for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1) if (i, j, k) != (0, 0, 0)]:
        for fn in ('begin_recv_port', 'end_recv_port', 'size_send_port', 'begin_send_port', 'end_send_port'):
            X.reset()
            E = X.E
            own = 13 + d[0] + 3 * d[1] + 9 * d[2]; opp = 26 - own
            port = opp if 'recv' in fn else own
            peer = T.sym('peer'); mp = Ptr('mp', ZERO); E.region('mp')
            bc = {X.L('grid_t')['grid_t']['bc'] + 4 * n: T.sym('bc%d' % n) for n in range(27)}
            bc[X.L('grid_t')['grid_t']['bc'] + 4 * port] = peer
            bc[X.L('grid_t')['grid_t']['mp']] = mp; g = X.grid(extra=bc)
            r = E.region('@_world_size'); ws = T.sym('ws', 1); r.known = {0: ws}; r.ginit = True
            size = T.sym('size', 0); buf = {n: Ptr(n, ZERO) for n in ('sendbuf', 'recvbuf')}
            for n in buf: E.region(n)
            def ev(name, ret=None):
                def h(E, st, a, I): st.event('mp', name, tuple(a)); return ret
                return h
            for n in ('mp_size_recv_buffer', 'mp_begin_recv', 'mp_end_recv', 'mp_size_send_buffer', 'mp_begin_send', 'mp_end_send'): E.contracts[n] = ev(n)
            E.contracts['mp_send_buffer'] = ev('mp_send_buffer', buf['sendbuf']); E.contracts['mp_recv_buffer'] = ev('mp_recv_buffer', buf['recvbuf'])
            pc, sz, tg = C(port), (size,), C(own)
            want = {'begin_recv_port': [('mp_size_recv_buffer', (mp, pc, size)), ('mp_begin_recv', (mp, pc, size, peer, tg))],
                    'end_recv_port': [('mp_end_recv', (mp, pc)), ('mp_recv_buffer', (mp, pc))],
                    'size_send_port': [('mp_size_send_buffer', (mp, pc, size)), ('mp_send_buffer', (mp, pc))],
                    'begin_send_port': [('mp_begin_send', (mp, pc, size, peer, tg))], 'end_send_port': [('mp_end_send', (mp, pc))]}[fn]
            a = [C(q) for q in d] + ([size] if fn in ('begin_recv_port', 'size_send_port', 'begin_send_port') else []) + [g]
            seen = set()
            for o, rv in X.run(fn, a):
                remote = E.decide(o, T.band(T.ble(0, peer), T.blt(peer, ws)))
                seen.add(remote)
                def same():
                    if remote is None: raise Mismatch('one path for local and remote faces')
                    got = [e[1:] for e in o.ev if e[0] == 'mp']
                    w = want if remote else []
                    if len(got) != len(w): raise Mismatch('calls %r, expected %r' % (got, w))
                    for (n1, a1), (n2, a2) in zip(got, w):
                        if n1 != n2 or len(a1) != len(a2): raise Mismatch('calls %r, expected %r' % (got, w))
                        for x, y in zip(a1, a2):
                            if isinstance(y, Ptr) and x != y or not isinstance(y, Ptr) and E.decide(o, T.beq(x, y)) is not True: raise Mismatch('%s is called with %r, expected %r' % (n1, a1, a2))
                    if fn in ('end_recv_port', 'size_send_port'):
                        w = NULL_ if not remote else buf['recvbuf' if 'recv' in fn else 'sendbuf']
                        if rv != w: raise Mismatch('returns %r, expected %r' % (rv, w))
                X.ob('%s %r %s' % (fn, d, {True: 'remote', False: 'local', None: '?'}[remote]), same)
                X.untouched(o, set(), '%s %r' % (fn, d))
            X.ob('%s %r both kinds of face' % (fn, d), lambda: seen == {True, False})


contract('F04', 'message ports', 'src/grid/grid_comm.cc', ('ref',), bounded=False, native=False)(portlayer)
