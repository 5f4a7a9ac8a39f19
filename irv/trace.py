"""Relational contracts: the code and a specification function written against the same headers are executed
symbolically (irv/bits.py) from the same arbitrary state; the calls they make, in order, with their guards and
arguments, what they return and the memory they leave must agree.

Branches fork and join at their post-dominator (memory is merged, calls keep a guard); a branch that ends the
function on one side splits into cases.  A loop is one event: entry values, continuation condition, one
arbitrary iteration from an arbitrary state (its calls and its writes), so that equal events mean equal loops
for every number of iterations.  A side that does not return (ERROR) is a precondition of the contract."""
import z3, re
from . import bits
from .bits import Ptr, simp, bv, is_c, Loops
from .ir import Unsupported, postdom, ipdom
from .ctx import Mismatch, Undecided

IGNORE = {'log_printf', 'wallclock', '_Z9wallclockv', 'printf', 'fflush', 'puts'}


HARD = {z3.Z3_OP_BMUL, z3.Z3_OP_BSDIV, z3.Z3_OP_BUDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BUREM, z3.Z3_OP_BSMOD, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSREM_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSMOD_I}


class Dead(Exception):
    pass


class Abstract(Exception):
    """a loop whose exit is not decided by constants"""


class Back(Exception):
    """the iteration at which a loop ends does not go round again"""


class Trace(Loops):
    def __init__(s, mod, arrays=r'^$', ignore=(), keep=r'^$'):
        super().__init__(mod); s.apat = re.compile(arrays); s.ignore = IGNORE | set(ignore); s.ev = []; s.guard = []; s.nl = 0; s.cnt = {}
        s.dec = []; s.at = 0; s.pc = []; s.inloop = set(); s.keep_ = re.compile(keep); s.dirty = None; s.effects = {}; s.nonnull = set(); s.pure = set(); s.onlyret = ()
        s.lp = {}; s.splits = set(); s.noback = set(); s.deadphi = set(); s.phis = {}; s.argskip = {}
        s.conc = set(); s.at_ = {}; s.locarr = False; s.noarr = False; s.pkind = set(); s.uninit = set(); s.ignored = set(); s.reg = True; s.altc = {}; s.la = set(); s.unroll = 0; s.iter = []; s.ipd = {}; s.concg = {}

    # ---- memory
    def isarr(s, p, n): return p.r in s.la or p.r.startswith('at:') or bool(s.apat.search(p.r))

    # pointers kept in byte arrays: 64-bit terms
    def enc(s, p):
        if not isinstance(p, Ptr): return p
        b = s.at_[p.r] if p.r in s.at_ else z3.BitVec('addr:' + p.r, 64)
        return b if isinstance(p.o, int) and p.o == 0 else simp(b + s.sym(p.o))

    def dec_(s, t):
        t = simp(t); ks = list(t.children()) if z3.is_app_of(t, z3.Z3_OP_BADD) else [t]
        for q in ks:
            if z3.is_const(q) and q.decl().kind() == z3.Z3_OP_UNINTERPRETED and q.decl().name().startswith('addr:'):
                o = simp(t - q); return Ptr(q.decl().name()[5:], o.as_signed_long() if is_c(o) else o)
        if is_c(t): return t
        for r, u in s.at_.items():
            if u.eq(t): return Ptr(r, 0)
        r = 'at:%d' % len(s.at_); s.at_[r] = t
        return Ptr(r, 0)

    def nullt(s, t):
        if z3.is_app_of(t, z3.Z3_OP_ITE): return z3.If(t.arg(0), s.nullt(t.arg(1)), s.nullt(t.arg(2)))
        p = s.dec_(t)
        return p == 0 if not isinstance(p, Ptr) else z3.Bool('null(%s)' % p.r) if p.r in s.at_ and p.o == 0 else s.null(p)

    def icmp(s, pr, x, y):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                a, b = s.sym(x.o), s.sym(y.o)
                if x.r == y.r:
                    g = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ugt': lambda: z3.UGT(a, b), 'ule': lambda: z3.ULE(a, b), 'uge': lambda: z3.UGE(a, b)}[pr]
                    return simp(g())
                if pr not in ('eq', 'ne'): raise Unsupported('pointer comparison')
                l, r = sorted([x.r, y.r]); e = z3.Bool('same(%s,%s)' % (l, r)) if not (l[0] in '%@' or r[0] in '%@') and x.o == y.o else z3.BoolVal(False)
                return e if pr == 'eq' else simp(z3.Not(e))
            p = x if isinstance(x, Ptr) else y
            if pr not in ('eq', 'ne'): raise Unsupported('pointer comparison')
            e = s.null(p)
            return e if pr == 'eq' else simp(z3.Not(e))
        return super().icmp(pr, x, y)

    def null(s, p):
        if p.r in s.at_ and p.o == 0 and z3.is_app_of(s.at_[p.r], z3.Z3_OP_ITE): return simp(s.nullt(s.at_[p.r]))
        if p.r[0] in '%@' or p.r in s.nonnull or not (isinstance(p.o, int) and p.o == 0): return z3.BoolVal(False)
        return z3.Bool('null(%s)' % p.r)

    def load(s, mem, p, t):
        if isinstance(p, Ptr) and t.k in ('vec', 'arr') and not (t.k == 'vec' and t.e.k == 'int' and t.e.w == 1) and not isinstance(p.o, int):
            n = s.mod.size(t.e); return [s.load(mem, Ptr(p.r, simp(s.sym(p.o) + bv(i * n, 64))), t.e) for i in range(t.n)]
        if isinstance(p, Ptr) and p.r[0] == '@' and not isinstance(p.o, int) and not s.isarr(p, 8) and t.k in ('int', 'float', 'double', 'fp'): return s.table(p, t)
        if isinstance(p, Ptr) and t.k == 'ptr':
            if s.isarr(p, 8):
                a = s.arr(mem, p.r); o = s.sym(p.o)
                for k in range(3):      # read over the stores
                    while z3.is_app_of(a, z3.Z3_OP_STORE) and s.apart(a.arg(1), o): a = a.arg(0)
                return s.dec_(z3.Concat(*[simp(z3.Select(a, simp(o + bv(i, 64)))) for i in range(7, -1, -1)]))
            if not isinstance(p.o, int): raise Unsupported('pointer at a symbolic address')
            v = mem.get((p.r, p.o))
            if isinstance(v, Ptr): return v
            if v is not None:
                w = simp(z3.Concat(s.word(mem, p.r, p.o + 4), v))
                if is_c(w) and w.as_long() == 0: return bv(0, 64)
                raise Unsupported('pointer made of words')
            q = Ptr('*%s[%d]' % (p.r, p.o), 0); mem[(p.r, p.o)] = q; mem[(p.r, p.o + 4)] = q
            return q
        return super().load(mem, p, t)

    def cast(s, op, v, t0, t1):
        if s.locarr and op == 'ptrtoint' and isinstance(v, Ptr): return s.enc(v)
        if s.locarr and op == 'inttoptr' and not isinstance(v, (Ptr, list)): return s.dec_(v)
        return super().cast(op, v, t0, t1)

    def apart(s, i, o):
        d = simp(i - o); return is_c(d) and d.as_long() >= 8

    def table(s, p, t):
        """an entry of a constant table, the index in range"""
        if p.r not in s.mod.globals or not s.mod.globals[p.r][2]: raise Unsupported('symbolic address in %s' % p.r)
        ty = s.mod.globals[p.r][0]; n = s.mod.size(ty); w = t.w // 8; o = s.sym(p.o); m = {}
        c = z3.And(z3.ULE(o, bv(n - w, 64)), z3.URem(o, bv(w, 64)) == 0); v = None
        s.pre.append(z3.Implies(z3.And(*s.guard), c) if s.guard else c)
        for k in range(n - w, -1, -w):
            x = s.load(m, Ptr(p.r, k), t); v = x if v is None else z3.If(o == bv(k, 64), x, v)
        return simp(v)

    def store(s, mem, p, v, t):
        if isinstance(p, Ptr) and isinstance(v, Ptr) and s.isarr(p, 8): v = s.enc(v)
        if isinstance(p, Ptr) and isinstance(v, list) and t.k in ('vec', 'arr') and not isinstance(p.o, int):
            n = s.mod.size(t.e)
            for i, x in enumerate(v): s.store(mem, Ptr(p.r, simp(s.sym(p.o) + bv(i * n, 64))), x, t.e)
            return
        return super().store(mem, p, v, t)

    def cval(s, v, ty, env):
        if v[0] == 'glob':
            m = re.match(r'^@_ZZ.*?E\d+([A-Za-z]\w*?)(_\d+)?$', v[1])
            if m and v[1] in s.mod.globals and not s.mod.globals[v[1]][2]: return Ptr('@static:' + re.sub(r'^.*E\d+', '', v[1]), 0)
        return super().cval(v, ty, env)

    def ins(s, I, env, mem):
        p = super().ins(I, env, mem)
        if I.op == 'alloca':
            ty = next((x for x in I.a if getattr(x, 'k', None)), None); s.altc[p.r] = repr(ty)
        if I.op == 'alloca' and s.locarr:
            ty = next((x for x in I.a if getattr(x, 'k', None)), None)
            if ty is not None and ty.k == 'arr': s.la.add(p.r)
        return p

    def word(s, mem, r, o):
        if o == 'arr': return s.arr(mem, r)
        k = (r, o)
        if r[0] == '%' and k not in mem and s.reg: s.uninit.add(k)
        if r.startswith('@static:'):
            if k not in mem: mem[k] = z3.BitVec('%s@%d' % (r, o), 32)
            return mem[k]
        if k not in mem and r[0] == '@' and r in s.mod.globals and not s.mod.globals[r][2]: mem[k] = z3.BitVec('%s@%d' % (r, o), 32)
        return super().word(mem, r, o)

    # ---- merging
    def merge(s, c, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a is None or b is None: return a or b
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r: 
                o = simp(z3.If(c, s.sym(a.o), s.sym(b.o))); return Ptr(a.r, o.as_signed_long() if is_c(o) else o)
            if all(isinstance(x, Ptr) and x.r.startswith('@.str') for x in (a, b)): return Ptr('@.str?', 0)
            if s.locarr: return s.dec_(z3.If(c, s.enc(a), s.enc(b)))
            raise Unsupported('alternative addresses')
        if z3.is_array(a) and z3.is_array(b) and not a.eq(b):
            I = {}; f = flat(a, I); g = flat(b, I)
            if f[0].eq(g[0]) and len({k[0] for k in list(f[1]) + list(g[1])}) == 1 and (f[1] or g[1]):
                r = f[0]
                for k in sorted(set(f[1]) | set(g[1]), key=lambda k: k[1]):
                    x = f[1].get(k); y = g[1].get(k); old = simp(z3.Select(f[0], I[k])) if x is None or y is None else None
                    x = old if x is None else x; y = old if y is None else y
                    r = z3.Store(r, I[k], x if x.eq(y) else simp(z3.If(c, x, y)))
                return r
        return super().merge(c, a, b)

    # ---- calls
    def result(s, nm, t):
        if t is None or t.k == 'void': return None
        k = s.cnt.get(nm, 0)
        n = '%s#%d' % (nm, k)
        if t.k == 'ptr': return Ptr('ret:' + n, 0)
        if t.k == 'int' and t.w == 1: return z3.Bool('ret:' + n)
        if t.k in ('int', 'float', 'double', 'fp'): return z3.BitVec('ret:' + n, t.w)
        if t.k == 'struct': return [z3.BitVec('ret:%s.%d' % (n, i), x.w) for i, x in enumerate(t.f)]
        raise Unsupported('call result %r' % t)

    def call(s, I, env, mem):
        d = I.a; cal = d['callee']
        if cal[0] == 'glob':
            nm = cal[1][1:].strip('"')
            if nm.startswith('llvm.') or nm in s.contracts or nm in bits.LIBM:
                if nm.startswith(('llvm.memcpy', 'llvm.memmove')): return s.copy([s.cval(v, t, env) for t, v, _ in d['args']], mem)
                if nm.startswith('llvm.memset'): return s.fill([s.cval(v, t, env) for t, v, _ in d['args']], mem)
                return super().call(I, env, mem)
            if nm in s.ignore: return s.undef(I.ty) if I.ty is not None and I.ty.k != 'void' else None
            if cal[1] in s.mod.fns and not (s.keep_.search(nm)): return super().call(I, env, mem)
            nm = re.sub(r'^(c_|s_)', '', nm)
        else:
            v = s.cval(cal, None, env)
            if not isinstance(v, Ptr): raise Unsupported('indirect call')
            nm = v.r.lstrip('@') if v.r[0] == '@' else '%s+%s' % (v.r, v.o)
            if v.r[0] == '@' and nm in s.contracts: raise Unsupported('indirect call of ' + nm)
        A = []
        for t, v, _ in d['args']:
            try: A.append(s.cval(v, t, env))
            except Unsupported: A.append(None)
        r = s.result(nm, I.ty)
        s.cnt[nm] = s.cnt.get(nm, 0) + 1
        if nm not in s.pure: s.ev.append(('call', z3.And(*s.guard) if s.guard else z3.BoolVal(True), nm, A, dict(mem)))
        for k in list(s.effects):
            if re.search(k, nm): s.effects[k](s, nm, A, mem)
        return r

    def copy(s, A, mem):
        n = simp(A[2]); p, q = A[0], A[1]
        if not is_c(n):
            if not s.locarr: raise Unsupported('memcpy of a variable size')
            s.ev.append(('call', z3.And(*s.guard) if s.guard else z3.BoolVal(True), 'memcpy', [p, q, n], dict(mem))); s.cnt['memcpy'] = s.cnt.get('memcpy', 0) + 1
            if s.isarr(p, 1): mem[(p.r, 'arr')] = z3.Array('copied:%d' % s.cnt['memcpy'], z3.BitVecSort(64), z3.BitVecSort(8))
            return None
        n = n.as_long()
        if s.isarr(p, 1) or s.isarr(q, 1):
            bs = []
            for i in range(n):
                if s.isarr(q, 1): bs.append(simp(z3.Select(s.arr(mem, q.r), simp(s.sym(q.o) + bv(i, 64)))))
                else:
                    w = s.word(mem, q.r, (q.o + i) & ~3)
                    if isinstance(w, Ptr): raise Unsupported('copy of a pointer')
                    b = ((q.o + i) & 3) * 8; bs.append(simp(z3.Extract(b + 7, b, w)))
            if s.isarr(p, 1):
                a = s.arr(mem, p.r)
                for i in range(n): a = z3.Store(a, simp(s.sym(p.o) + bv(i, 64)), bs[i])
                mem[(p.r, 'arr')] = a
            else:
                if n % 4 or p.o % 4: raise Unsupported('memcpy size')
                for i in range(0, n, 4): mem[(p.r, p.o + i)] = simp(z3.Concat(*bs[i:i + 4][::-1]))
            return None
        if n % 4 or p.o % 4 or q.o % 4: raise Unsupported('memcpy size')
        vs = []
        for i in range(0, n, 4):
            if (q.r, q.o + i) not in mem and q.r[0] == '@' and q.r in s.mod.globals:
                v = s.ginit(q.r, q.o + i, True) if s.mod.globals[q.r][1] is not None else None
                vs.append(v if v is not None else s.word(mem, q.r, q.o + i))
            else: vs.append(s.word(mem, q.r, q.o + i))
        for i, x in enumerate(vs): mem[(p.r, p.o + 4 * i)] = x
        return None

    def fill(s, A, mem):
        n = simp(A[2]); p = A[0]; v = simp(A[1])
        if is_c(n) and not s.isarr(p, 1):
            n = n.as_long(); w = simp(z3.Concat(v, v, v, v))
            if n % 4 or p.o % 4: raise Unsupported('memset size')
            for i in range(0, n, 4): mem[(p.r, p.o + i)] = w
            return None
        k = s.cnt['memset'] = s.cnt.get('memset', 0) + 1
        s.ev.append(('call', z3.And(*s.guard) if s.guard else z3.BoolVal(True), 'memset', [p, v, n], dict(mem) if s.locarr else {}))
        if s.locarr and s.isarr(p, 1): mem[(p.r, 'arr')] = z3.Array('set:%d' % k, z3.BitVecSort(64), z3.BitVecSort(8))
        s.effects.get('memset', lambda *a: None)(s, 'memset', A, mem)
        return None

    # ---- control
    def deadend(s, f, b):
        """every path from b ends without returning"""
        memo = s.__dict__.setdefault('dd', {})
        k = (f.name, b)
        if k not in memo:
            seen = set(); w = [b]; ok = True
            while w:
                x = w.pop()
                if x in seen: continue
                seen.add(x); t = f.blocks[x].ins[-1]
                if t.op == 'ret': ok = False; break
                w += list(f.blocks[x].succs)
            memo[k] = ok
        return memo[k]

    def loopsof(s, f):
        if f.name not in s.lp:
            out = {}

            def rec(LL):
                for h, L in LL: out[h] = L; rec(s.loops(f, (L, h)))
            rec(s.loops(f)); s.lp[f.name] = out
        return s.lp[f.name]

    def choose(s, c):
        """case split, replayed"""
        if s.at < len(s.dec): v = s.dec[s.at]
        else: v = True; s.dec.append(v)
        s.at += 1; k = c if v else simp(z3.Not(c)); s.pc.append(k)
        if z3.is_false(simp(k)): raise Dead()
        return v

    def go(s, f, b, prev, env, mem, stop):
        LP = s.loopsof(f)
        while True:
            if (b == stop or isinstance(stop, tuple) and b in stop) and prev != '@set':
                if isinstance(stop, tuple): s.where = b
                return ('at', prev)
            s.steps += 1
            if s.steps > 100000: raise Unsupported('too many steps')
            B = f.blocks[b]
            if (f.name, b) in s.noback and prev != '@set': raise Back()
            if b in LP and (f.name, b) not in s.inloop and prev != '@set':
                r = s.loop(f, b, LP[b], prev, env, mem)
                if r[0] == 'ret': return r
                prev, b = r[1], r[2]; continue
            if B.phis and prev != '@set':
                nv = [(I.res, s.phival(I, prev, env)) for I in B.phis]
                for k, v in nv: env[k] = v
            for I in B.ins:
                if I.op == 'phi': continue
                if I.op == 'br':
                    if I.a[0] is None: prev, b = b, I.a[1]; break
                    c = simp(s.cval(I.a[0], None, env)); k = (f.name, b)
                    if k in s.conc and (not z3.is_true(c) and not z3.is_false(c) or len(s.guard) > s.concg.get(k, 0)): raise Abstract()
                    if k in s.force:
                        q = c if s.force[k] == 0 else simp(z3.Not(c)); c = z3.BoolVal(s.force[k] == 0)
                        s.taken[k] = simp(z3.Implies(z3.And(*s.guard), q)) if s.guard else q; s.nested[k] = bool(s.guard)
                    if z3.is_true(c): prev, b = b, I.a[1]; break
                    if z3.is_false(c): prev, b = b, I.a[2]; break
                    d1, d2 = s.deadend(f, I.a[1]), s.deadend(f, I.a[2])
                    if d1 and d2: raise Dead()
                    if d1: s.pre.append(z3.Implies(z3.And(*s.guard), z3.Not(c)) if s.guard else simp(z3.Not(c))); prev, b = b, I.a[2]; break
                    if d2: s.pre.append(z3.Implies(z3.And(*s.guard), c) if s.guard else c); prev, b = b, I.a[1]; break
                    if s.quick(c): prev, b = b, I.a[1]; break
                    if s.quick(simp(z3.Not(c))): prev, b = b, I.a[2]; break
                    j = s.join(f, b)
                    if k in s.splits and not s.guard and not s.inloop:
                        prev, b = (b, I.a[1]) if s.choose(c) else (b, I.a[2]); break
                    if j == '%__exit__' or j is None or s.last(f, j):
                        if not s.guard and not s.inloop:
                            prev, b = (b, I.a[1]) if s.choose(c) else (b, I.a[2]); break
                    if j == '%__exit__': j = None
                    m0 = dict(mem); env0 = dict(env); e1, e2 = dict(env), dict(env); m1, m2 = dict(mem), dict(mem); pr = len(s.pc)
                    ng = len(s.guard); s.guard.append(c); r1 = s.try_(f, I.a[1], b, e1, m1, j)
                    s.guard[ng:] = [simp(z3.Not(c))]; r2 = s.try_(f, I.a[2], b, e2, m2, j); del s.guard[ng:]
                    if r1 is None or r2 is None:
                        if r1 is r2: raise Back()
                        s.pre.append(z3.Implies(z3.And(*s.guard), c if r2 is None else z3.Not(c))); e, m, r = (e1, m1, r1) if r2 is None else (e2, m2, r2)
                        env.update(e); mem.clear(); mem.update(m)
                        if r[0] == 'ret': return r
                        prev = r[1]; b = j; break
                    if r1[0] != r2[0]: raise Unsupported('one-sided return')
                    try:
                        mm = {}
                        for k in set(m1) | set(m2):
                            x = m1.get(k); y = m2.get(k)
                            if x is None or y is None:
                                z = y if x is None else x
                                if k[0][0] == '%': mm[k] = z; continue
                                o = s.initial(k, z)
                                x, y = (o, z) if x is None else (z, o)
                            mm[k] = s.merge(c, x, y)
                        if r1[0] == 'ret': return ('ret', None if r1[1] is None and r2[1] is None else s.merge(c, r1[1], r2[1]))
                        for e in (e1, e2):
                            for k, v in e.items():
                                if k not in env0 or v is not env0[k]: env[k] = v
                        for I2 in (f.blocks[j].phis if j else ()): 
                            s.merge(c, s.phival(I2, r1[1], e1), s.phival(I2, r2[1], e2))
                        mem.clear(); mem.update(mm)
                    except Unsupported as x:
                        if 'alternative' in str(x) and not s.guard and not s.inloop: raise Split(f, b, c)
                        raise
                    prev = (c, r1[1], r2[1]); b = j
                    break
                if I.op == 'switch':
                    v = simp(s.cval(I.a[0], None, env)); t = None
                    if is_c(v):
                        for cv, l in I.a[2]:
                            if simp(s.cval(cv, I.ty, env)).as_long() == v.as_long(): t = l
                    else:
                        by = {}
                        for cv, l in I.a[2]: by.setdefault(l, []).append(simp(v == s.cval(cv, I.ty, env)))
                        by = [(simp(z3.Or(*q)), l) for l, q in by.items() if l != I.a[1]]
                        if not s.guard and not s.inloop:
                            for q, l in by:
                                if s.choose(q): t = l; break
                        else:
                            j = s.join(f, b)
                            if j == '%__exit__': j = None
                            prev = s.fan(f, b, by, I.a[1], j, env, mem)
                            if isinstance(prev, tuple) and isinstance(prev[0], str): return ('ret', prev[1])
                            b = j; break
                    prev, b = b, t or I.a[1]; break
                if I.op == 'ret': return ('ret', None if I.a[0] is None else s.cval(I.a[0], I.ty, env))
                if I.op == 'unreachable': raise Dead()
                v = s.ins(I, env, mem)
                if I.res: env[I.res] = v
            else: raise Unsupported('block without terminator')

    def join(s, f, b):
        """where the branches at b come together: in an iteration, its end is where it goes back"""
        for fn, h, L, ex in reversed(s.iter):
            if fn != f.name: continue
            if b not in L: break
            k = (fn, h, tuple(sorted(ex)))
            if k not in s.ipd:
                su = {}
                for q in L:
                    if f.blocks[q].ins[-1].op == 'unreachable': su[q] = []; continue
                    su[q] = [('%back' if x == h else x) for x in f.blocks[q].succs if x in L]
                su['%back'] = []; s.ipd[k] = ipdom(su, '%back')
            j = s.ipd[k].get(b)
            return h if j == '%back' else j
        return postdom(f).get(b)

    def try_(s, f, l, b, e, m, j):
        n = len(s.ev)
        try: return s.go(f, l, b, e, m, j)
        except Back: del s.ev[n:]; return None

    def fan(s, f, b, by, dflt, j, env, mem):
        """a switch on a symbolic value: every branch under its guard, joined at j"""
        R = []; no = []
        for c, l in by + [(None, dflt)]:
            if s.deadend(f, l):
                q = z3.Not(c) if c is not None else z3.Or(*[x for x in no]); s.pre.append(simp(z3.Implies(z3.And(*s.guard), q) if s.guard else q)); 
                if c is not None: no.append(c)
                continue
            g = simp(z3.And(*([z3.Not(x) for x in no] + ([c] if c is not None else [])))) if no or c is not None else z3.BoolVal(True)
            if c is not None: no.append(c)
            e, m = dict(env), dict(mem); s.guard.append(g); r = s.go(f, l, b, e, m, j); s.guard.pop()
            R.append((c, r, e, m))
        if len({r[0] for c, r, e, m in R}) != 1: raise Unsupported('one-sided return')
        keys = set().union(*[set(m) for c, r, e, m in R]); prev = R[-1][1][1]; mm = dict(R[-1][3]); ee = {k: v for k, v in R[-1][2].items()}
        for c, r, e, m in R[-2::-1]:
            for k in keys:
                x, y = m.get(k), mm.get(k)
                if x is None and y is None: continue
                if x is None or y is None:
                    z = y if x is None else x
                    if k[0][0] == '%': mm[k] = z; continue
                    o = s.initial(k, z); x, y = (o, z) if x is None else (z, o)
                mm[k] = s.merge(c, x, y)
            ee.update({k: v for k, v in e.items() if k not in env or v is not env[k]})
            prev = (c, r[1], prev) if r[0] == 'at' else (None if prev is None else s.merge(c, r[1], prev))
        env.update({k: v for k, v in ee.items()}); mem.clear(); mem.update(mm)
        return prev if R[0][1][0] == 'at' else ('ret!', prev)

    def last(s, f, j):
        """block j only returns"""
        J = f.blocks.get(j)
        return J is not None and J.ins[-1].op == 'ret' and len([I for I in J.ins if I.op != 'phi']) == 1

    def abst(s, t):
        """products, quotients and remainders as variables (the same variable for the same term)"""
        memo = s.__dict__.setdefault('amemo', {}); st = [t]
        while st:
            x = st[-1]; i = x.get_id()
            if i in memo: st.pop(); continue
            kids = [x.arg(q) for q in range(x.num_args())]
            w = [q for q in kids if q.get_id() not in memo]
            if w: st += w; continue
            st.pop(); k = x.decl().kind()
            if (k in HARD or k == z3.Z3_OP_SELECT and s.noarr) and not (k == z3.Z3_OP_BMUL and sum(not is_c(q) for q in kids) < 2): r = z3.BitVec('hard!%d' % i, x.size())
            elif kids and any(not memo[q.get_id()][1].eq(q) for q in kids): r = z3.substitute(x, *[(q, memo[q.get_id()][1]) for q in kids if not memo[q.get_id()][1].eq(q)])
            else: r = x
            memo[i] = (x, r)
        return memo[t.get_id()][1]

    def quick(s, c):
        if not s.assume and not s.pc and not s.guard: return False
        return s.entails(list(s.assume) + s.pc + s.guard, c)

    def entails(s, A, c):
        so = z3.Solver(); so.set('timeout', 2000); so.add(*[s.abst(x) for x in A]); so.add(z3.Not(s.abst(c))); s.q += 1
        return so.check() == z3.unsat

    def decide(s, c, assume=()):
        c = simp(c)
        if z3.is_true(c): return 'ok'
        if s.entails(list(assume), c): return 'ok'
        return super().decide(c, assume)

    def initial(s, k, like):
        r, o = k
        if o == 'arr': return z3.Array('%s[]' % r, z3.BitVecSort(64), z3.BitVecSort(8))
        if isinstance(like, Ptr):
            m = re.search(r'^\*(.*)\[(\d+)\]$', like.r)
            if m and m.group(1) == r: return like
            return Ptr('*%s[%d]' % (r, o), 0)
        g, s.reg = s.reg, False
        try: return s.word({}, r, o)
        finally: s.reg = g

    # ---- loops
    def loop(s, f, h, L, prev, env, mem):
        s.nl += 1; k = s.nl; key = (f.name, h)
        phis = [(I, s.phival(I, prev, env)) for I in f.blocks[h].phis]
        phis.sort(key=lambda q: (0 if isinstance(q[1], Ptr) else 1, '' if not isinstance(q[1], Ptr) else q[1].r, str(q[1].o if isinstance(q[1], Ptr) else q[1]), 0 if any(J.op == 'icmp' and re.search(re.escape(q[0].res) + r'\b', J.text) for b in L for J in f.blocks[b].ins if (b == h or f.blocks[b].ins[-1] is f.blocks[h].ins[-1])) else 1))
        dp = [q for q in phis if (f.name, h, q[0].res) in s.deadphi]; phis = [q for q in phis if (f.name, h, q[0].res) not in s.deadphi]
        ex = s.exits(f, L)
        ex = [q for q in ex if not s.deadend(f, f.blocks[q[0]].ins[-1].a[2 - q[1]])]
        if not ex: raise Unsupported('loop without exit')
        xts = {f.blocks[q].ins[-1].a[2 - st] for q, st in ex}; pd = postdom(f); many = len(ex) > 1
        if len(xts) == 1: xt = list(xts)[0]
        else:       # where the exits come together again
            ch = []
            for x in xts:
                c = [x]
                while c[-1] in pd and pd[c[-1]] != '%__exit__' and pd[c[-1]] is not None: c.append(pd[c[-1]])
                ch.append(c)
            xt = next((x for x in ch[0] if all(x in c for c in ch)), None)
            if xt is None: raise Unsupported('loop exits do not join')
        ex.sort(key=lambda q: (q[0] != h, q[0])); eb = ex[0][0] if not many else None
        if s.unroll and not many and not dp:
            r = s.concrete(f, h, L, prev, env, mem, ex, xt, key)
            if r: return r
        relist = set(); dirty = set(); dl = set(); np0 = len(s.pre); nl0 = s.nl; cnt0 = dict(s.cnt); al0 = s.al
        for attempt in range(8):
            s.nl = nl0; s.cnt = dict(cnt0); s.al = al0; del s.pre[np0:]
            e = dict(env); m = dict(mem)
            for n, (I, v) in enumerate(phis):
                nm = 'L%d.%d' % (k, n)
                if isinstance(v, Ptr): e[I.res] = Ptr(v.r, z3.BitVec(nm, 64)) if I.res not in relist else Ptr(nm, 0)
                elif I.ty.k == 'ptr': e[I.res] = Ptr(nm, 0); relist.add(I.res)
                elif z3.is_bool(v): e[I.res] = z3.Bool(nm)
                else: e[I.res] = z3.BitVec(nm, v.size())
                s.phis[nm] = (f.name, h, I.res)
            for n, (I, v) in enumerate(dp): e[I.res] = Ptr('D%d.%d' % (k, n), 0) if I.ty.k == 'ptr' else z3.Bool('D%d.%d' % (k, n)) if z3.is_bool(v) else z3.BitVec('D%d.%d' % (k, n), v.size())
            for q in dirty: s.havoc(m, q, k, dl)
            mh = dict(m); eh = dict(e); sv = s.ev, s.guard; s.ev = []; s.guard = []
            s.inloop.add(key); s.force.update({(f.name, q): st for q, st in ex}); s.iter.append((f.name, h, L, frozenset(q for q, st in ex)))
            for q, st in ex: s.taken.pop((f.name, q), None)
            try: r = s.go(f, h, '@set', e, m, h)
            except Unsupported as x:
                pp = {I.res for I, v in phis if isinstance(v, Ptr) and I.res not in relist and not s.arith(f, L, I)}
                if not pp: raise
                relist |= pp; s.ev, s.guard = sv; continue
            finally:
                s.inloop.discard(key); body = s.ev; s.ev, s.guard = sv; s.iter.pop()
                for q, st in ex: s.force.pop((f.name, q), None)
            if r[0] != 'at': raise Unsupported('loop body returns')
            if not many and s.nested.get((f.name, eb)): many, eb = True, None       # an exit that is not reached in every iteration
            cond = s.taken.pop((f.name, eb)) if not many else simp(z3.And(*[s.taken.pop((f.name, q), z3.BoolVal(True)) for q, st in ex])); nx = [s.phival(I, r[1], e) for I, v in phis]
            more = False
            for (I, v), y in zip(phis, nx):
                if isinstance(v, Ptr) and I.res not in relist and isinstance(y, Ptr) and y.r != v.r: relist.add(I.res); more = True
            w = {q for q in m if q[0][0] != '%' and (q not in mh and not s.isinit(q, m[q]) or q in mh and m[q] is not mh[q] and not s.eqv(m[q], mh[q]))}
            lw = {q for q in m if q[0][0] == '%' and (q not in mh and not s.isinit(q, m[q]) or q in mh and not s.eqv(m[q], mh[q]))}
            ig = {q for q in lw if q not in mh and q[1] != 'arr' and q not in s.uninit}; s.ignored |= ig; w |= lw - ig
            s.pkind |= {q for q in w if isinstance(m[q], Ptr)}
            nd = {q for q in w & dirty if q not in dl and q[1] == 'arr' and 0 < s.alsize.get(q[0], 0) <= 64 and s.rewritten(m[q], q[0])}
            if nd and s.noarr: dl |= nd; more = True
            if w - dirty: dirty |= w; more = True
            if not more: break
        else: raise Unsupported('loop state does not settle')
        g = z3.And(*s.guard) if s.guard else z3.BoolVal(True)
        s.ev.append(('loop', g, [(v, eh[I.res], y) for (I, v), y in zip(phis, nx)], cond, eb == h, body, {q: m[q] for q in dirty - dl}, {q: mem[q] for q in dirty - dl if q in mem}))
        # afterwards
        e = dict(env); 
        for I, v in phis + dp: e[I.res] = eh[I.res]
        m = mh; sv = s.ev; s.ev = []; s.inloop.add(key); nl1 = s.nl; cn1 = dict(s.cnt)
        if not many: s.force[(f.name, eb)] = 1 - ex[0][1]
        else: s.noback.add((f.name, h)); s.guard.append(z3.BoolVal(True))
        it = s.iter; s.iter = [q for q in it if q[0] != f.name]
        try: r = s.go(f, h, '@set', e, m, xt)
        finally:
            s.iter = it
            s.inloop.discard(key); s.force.pop((f.name, eb), None); tail = s.ev; s.ev = sv; s.nl = nl1
            if many: s.noback.discard((f.name, h)); s.guard.pop()
        s.taken.pop((f.name, eb), None)
        if tail: s.ev.append(('tail', g, tail))
        env.clear(); env.update(e); mem.clear(); mem.update(m)
        return ('at', r[1], xt)

    def concrete(s, f, h, L, prev, env, mem, ex, xt, key):
        """a loop whose exit is decided by constants: every iteration in turn"""
        b0 = (len(s.ev), dict(s.cnt), s.nl, s.al, len(s.pre), list(s.guard)); e, m = dict(env), dict(mem); n = 0; p = prev
        s.nl -= 1; s.inloop.add(key); add = {(f.name, q) for q, _ in ex} - s.conc; s.conc |= add; s.concg.update({q: len(s.guard) for q in add}); s.iter.append((f.name, h, L, frozenset()))
        try:
            while n < s.unroll:
                for k, v in [(I.res, s.phival(I, p, e)) for I in f.blocks[h].phis]: e[k] = v
                r = s.go(f, h, '@set', e, m, (h, xt)); n += 1
                if r[0] != 'at': raise Abstract()
                p = r[1]
                if s.where == xt:
                    env.clear(); env.update(e); mem.clear(); mem.update(m)
                    return ('at', p, xt)
            raise Abstract()
        except Abstract:
            del s.ev[b0[0]:]; s.cnt = b0[1]; s.nl = b0[2]; s.al = b0[3]; del s.pre[b0[4]:]; s.guard[:] = b0[5]
            return None
        finally: s.inloop.discard(key); s.conc -= add; s.iter.pop()

    def arith(s, f, L, I):
        """the loop changes the pointer by address arithmetic only"""
        d = {J.res: J for b in L for J in f.blocks[b].ins if J.res}
        for v, l in I.a:
            if l not in L: continue
            while v[0] == 'loc' and v[1] != I.res:
                J = d.get(v[1])
                if J is None or J.op != 'getelementptr': return False
                v = J.a[1]
            if v[0] != 'loc': return False
        return True

    def havoc(s, m, q, k, dl=()):
        r, o = q
        if q in dl: m[q] = z3.Array('dead:%s:%d:%s[]' % (s.fname, k, r), z3.BitVecSort(64), z3.BitVecSort(8))
        elif o == 'arr': m[q] = z3.Array('H%d:%s[]' % (k, r), z3.BitVecSort(64), z3.BitVecSort(8))
        elif isinstance(m.get(q), Ptr) or q not in m and q in s.pkind: m[q] = Ptr('H%d:*%s[%d]' % (k, r, o), 0)
        else: m[q] = z3.BitVec('H%d:%s@%d' % (k, r, o), 32)

    def rewritten(s, a, r):
        """a local array that an iteration writes in full before reading, or does not touch"""
        if z3.is_app_of(a, z3.Z3_OP_ITE): return s.rewritten(a.arg(1), r) and s.rewritten(a.arg(2), r)
        b = a
        while z3.is_app_of(b, z3.Z3_OP_STORE): b = b.arg(0)
        n = b.decl().name(); return n == 'local:[]' or b is a and ( n.endswith(':%s[]' % r) and n[0] in 'Hd' or n == '%s[]' % r)

    def isinit(s, q, v):
        try: return s.eqv(s.initial(q, v), v)
        except Unsupported: return False

    def eqv(s, a, b):
        if a is b: return True
        if isinstance(a, Ptr) or isinstance(b, Ptr): return isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r and (a.o is b.o or (isinstance(a.o, int) and a.o == b.o) or (not isinstance(a.o, int) and not isinstance(b.o, int) and a.o.eq(b.o)))
        return a.eq(b)

    def cases(s, name, args, mem0=None, limit=400):
        """the cases, without the carried loop values nothing depends on"""
        s.deadphi = set(); s.uninit = set()
        while True:
            s.ignored = set()
            s.phis = {}; out = s.cases_(name, args, mem0, limit)
            live = set()
            for pc, pre, ev, mem, r in out: live |= uses(ev, mem, r)
            dead = {k for n, k in s.phis.items() if n not in live} - {k for n, k in s.phis.items() if n in live}
            if not dead - s.deadphi:
                if s.uninit & s.ignored: raise Unsupported('a local value flows out of an iteration')
                return out
            s.deadphi |= dead

    def cases_(s, name, args, mem0=None, limit=400):
        """every case: (path condition, events, memory, returned value)"""
        f = s.mod.body(s.mod.fns[name]); out = []; todo = [[]]; sets = []
        while todo:
            pre = todo.pop(); s.dec = list(pre); s.at = 0; s.pc = []; s.pre = []; s.ev = []; s.guard = []; s.nl = 0; s.cnt = {}; s.al = 0; s.steps = 0; s.inloop = set(); s.taken = {}; s.nested = {}; s.fname = name
            mem = dict(mem0 or {}); env = {p[1]: a for p, a in zip(f.params, args)}
            try: r = s.go(f, f.entry, None, env, mem, None); ok = True
            except Dead: ok = False
            except Split as x:
                if x.key in s.splits: raise
                s.splits.add(x.key); out = []; todo = [[]]; continue
            for i in range(len(pre), len(s.dec)): todo.append(s.dec[:i] + [False])
            if ok:
                if not s.entails(list(s.assume) + s.pc, z3.BoolVal(False)): out.append((list(s.pc), list(s.pre), s.ev, mem, r[1]))
            if len(out) > limit: raise Unsupported('too many cases')
        return out


def syms(v, memo):
    """loop symbols in a value"""
    if v is None: return set()
    if isinstance(v, (list, tuple)): return set().union(*[syms(x, memo) for x in v]) if v else set()
    if isinstance(v, Ptr): return {x for x in re.findall(r'L\d+\.\d+', v.r)} | syms(v.o, memo)
    if not z3.is_expr(v): return set()
    st = [v]
    while st:
        x = st[-1]; i = x.get_id()
        if i in memo: st.pop(); continue
        ks = x.children(); w = [q for q in ks if q.get_id() not in memo]
        if w: st += w; continue
        st.pop(); r = set()
        if not ks and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: r = set(re.findall(r'L\d+\.\d+', x.decl().name()))
        else:
            for q in ks: r = r | memo[q.get_id()][1]
        memo[i] = (x, frozenset(r))
    return set(memo[v.get_id()][1])


def uses(ev, mem, r):
    """the carried loop values that calls, conditions, memory or the result depend on"""
    memo = {}; live = syms(r, memo); nx = []
    for k, v in mem.items():
        if k[0][0] != '%': live |= syms(v, memo) | set(re.findall(r'L\d+\.\d+', k[0]))

    def walk(E):
        nonlocal live
        for e in E:
            live |= syms(e[1], memo)
            if e[0] == 'call':
                live |= syms(e[3], memo) | set(re.findall(r'L\d+\.\d+', e[2])); R = {a.r for a in e[3] if isinstance(a, Ptr)}
                for k, v in e[4].items():
                    if k[0] in R: live |= syms(v, memo)
            elif e[0] == 'tail': walk(e[2])
            else:
                for v, h, n in e[2]: nx.append((syms(h, memo), syms([v, n], memo)))
                live |= syms(e[3], memo); walk(e[5])
                for k, v in list(e[6].items()) + list(e[7].items()): live |= syms(v, memo) | set(re.findall(r'L\d+\.\d+', k[0]))
    walk(ev)
    while True:
        n = len(live)
        for h, d in nx:
            if h & live: live |= d
        if len(live) == n: return live


class Split(Unsupported):
    def __init__(s, f, b, c): Unsupported.__init__(s, 'alternative addresses at %s' % b); s.key = (f.name, b)


# ---------------------------------------------------------------- comparison
class Cmp:
    def __init__(s, Z, skip=r'^%', quiet=()):
        s.Z = Z; s.skip = re.compile(skip); s.und = None; s.n = 0; s.real = False

    def eq(s, a, b, A, what):
        s.n += 1
        if a is b: return
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            for x, y in zip(a, b): s.eq(x, y, A, what)
            return
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            p, q = a, b
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r != b.r:
                    if s.Z.locarr and (a.r in s.Z.at_ or b.r in s.Z.at_): return s.ok(s.Z.enc(a) == s.Z.enc(b), A, lambda: '%s: %s instead of %s' % (what, sh(s.Z.enc(a)), sh(s.Z.enc(b))))
                    if a.r[0] == '%' and b.r[0] == '%': return     # locals: their contents are compared
                    if all(x.r.startswith('@.str') for x in (a, b)) and s.strings: return s.str_(a, b, what)
                    if all(re.match(r'@(_Z\w*|)', x.r) for x in (a, b)) and strip(a.r) == strip(b.r): return
                    raise Mismatch('%s: %s instead of %s' % (what, a.r, b.r))
                return s.eq(s.Z.sym(a.o), s.Z.sym(b.o), A, what + ' offset')
            p = a if isinstance(a, Ptr) else b; o = b if p is a else a
            if o is not None and z3.is_bv(o) and is_c(o) and o.as_long() == 0:
                return s.ok(s.Z.null(p), A, what + ': null')
            raise Mismatch('%s: %s instead of %s' % (what, sh(a), sh(b)))
        if a is None or b is None:
            if (a is None) != (b is None): raise Mismatch('%s: value missing' % what)
            return
        if a.eq(b): return
        if a.sort() != b.sort(): raise Mismatch('%s: sorts' % what)
        if z3.is_array(a):
            f, g = flat(a), flat(b)
            if f[0].eq(g[0]) and f[1] and set(f[1]) == set(g[1]):
                ks = {k for k in f[1]}; done = set()
                for k in sorted(ks):
                    if k in done or f[1][k].eq(g[1][k]): continue
                    w = next(([(k[0], k[1] - r + i) for i in range(4)] for r in range(4) if all((k[0], k[1] - r + i) in ks for i in range(4)) and (k[1] - r) % 4 == 0), [k])
                    done |= set(w); s.eq(simp(z3.Concat(*[f[1][q] for q in w[::-1]])) if len(w) > 1 else f[1][k], simp(z3.Concat(*[g[1][q] for q in w[::-1]])) if len(w) > 1 else g[1][k], A, '%s at %s%+d' % (what, k[0][:60], k[1]))
                return
            if s.arreq(a, b, A, what): return
        if z3.is_bv(a) and a.size() in (32, 64) and same_real(s.Z, a, b): s.real = True; return
        s.ok(a == b, A, lambda: '%s: %s instead of %s' % (what, sh(a), sh(b)))

    def arreq(s, a, b, A, what):
        """arrays written in cases and through several addresses: entry by entry"""
        for x, y in ((a, b), (b, a)):
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                for c, z in ((x.arg(0), x.arg(1)), (simp(z3.Not(x.arg(0))), x.arg(2))):
                    B = A + [c]; w = y
                    if s.Z.entails(B, z3.BoolVal(False)): continue
                    while z3.is_app_of(w, z3.Z3_OP_ITE):
                        if s.Z.entails(B, w.arg(0)): w = w.arg(1)
                        elif s.Z.entails(B, z3.Not(w.arg(0))): w = w.arg(2)
                        else: break
                    if x is a: s.eq(z, w, B, what)
                    else: s.eq(w, z, B, what)
                return True
        ix = []
        ch = []
        for x in (a, b):
            while z3.is_app_of(x, z3.Z3_OP_STORE):
                if not any(q.eq(x.arg(1)) for q in ix): ix.append(x.arg(1))
                x = x.arg(0)
            ch.append(x)
        if not ch[0].eq(ch[1]) or len(ix) > 200: return False
        g, K = flat(a), {}
        if z3.is_app_of(g[0], z3.Z3_OP_STORE) or z3.is_app_of(flat(b)[0], z3.Z3_OP_STORE):       # several addresses: split on a small field they depend on
            seen = set(); st = list(ix); fld = None
            while st and fld is None:
                x = st.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app_of(x, z3.Z3_OP_EXTRACT) and x.size() == 3: fld = x; break
                if z3.is_select(x): continue
                st += x.children()
            if fld is not None:
                for k in range(8):
                    B = A + [fld == k]
                    if s.Z.entails(B, z3.BoolVal(False)): continue
                    x, y = (simp(z3.substitute(v, (fld, z3.BitVecVal(k, 3)))) for v in (a, b)); s.eq(x, y, B, what)
                return True
        left = list(ix)
        while left:
            i = left[0]; w = [simp(i + bv(k, 64)) for k in range(4)]
            g = next(([simp(i + bv(k - r, 64)) for k in range(4)] for r in range(4) if all(any(simp(i + bv(k - r, 64)).eq(q) for q in left) for k in range(4))), [i]) if len(left) > 3 else [i]
            left = [q for q in left if not any(q.eq(y) for y in g)]
            p, q = ([simp(z3.Select(x, y)) for y in g[::-1]] for x in (a, b))
            s.eq(simp(z3.Concat(*p)) if len(p) > 1 else p[0], simp(z3.Concat(*q)) if len(q) > 1 else q[0], A, '%s at %s' % (what, sh(g[0])[-60:]))
        return True

    def ok(s, c, A, what):
        r = s.Z.decide(c, A)
        if r == 'ok': return
        if callable(what): what = what()
        if r is None: s.und = s.und or what[:500]; return
        raise Mismatch(what + ' when ' + str(r)[:300].replace('\n', ' '))

    def words(s, m1, m2, A, what, only=None, loc=False):
        Z = s.Z; keys = isinstance(only, set) and any(isinstance(x, tuple) for x in only); loc = loc or keys
        for k in sorted(set(only) if keys else set(m1) | set(m2), key=str):
            if s.skip.search(k[0]) and not (loc and k[0][0] == '%') or only is not None and not keys and k[0] not in only: continue
            if k[0][0] == '%' and not s.locals:
                if s.und is None: s.und = '%s: locals do not correspond' % what
                continue
            a, b = m1.get(k), m2.get(k)
            if a is None and b is None: continue
            if a is None: a = Z.initial(k, b)
            if b is None: b = Z.initial(k, a)
            if isinstance(a, Ptr) and isinstance(b, Ptr) or not isinstance(a, Ptr) and not isinstance(b, Ptr): s.eq(a, b, A, '%s %s[%s]' % (what, k[0], k[1])); continue
            p, o = (a, b) if isinstance(a, Ptr) else (b, a)
            s.eq(p, simp(z3.Concat(o, o)) if z3.is_bv(o) and o.size() == 32 else o, A, '%s %s[%s]' % (what, k[0], k[1]))

    strings = False; locals = True

    def str_(s, a, b, what):
        G = s.Z.mod.globals; x, y = (str(G[q.r][1]) if q.r in G else q.r for q in (a, b))
        if x != y: raise Mismatch('%s: %s instead of %s' % (what, x, y))

    def local(s, x, y, m1, m2, A, what):
        f = {o - x.o: v for (r, o), v in m1.items() if r == x.r and isinstance(o, int)}; g = {o - y.o: v for (r, o), v in m2.items() if r == y.r and isinstance(o, int)}
        for o in sorted(set(f) & set(g)):
            p, q = f[o], g[o]
            if isinstance(p, Ptr) != isinstance(q, Ptr):
                p, q = (simp(z3.Concat(v, v)) if not isinstance(v, Ptr) and v.size() == 32 else v for v in (p, q))
            s.eq(p, q, A, '%s local word %d' % (what, o))
        p, q = m1.get((x.r, 'arr')), m2.get((y.r, 'arr'))
        if p is not None or q is not None: s.eq(s.Z.initial((x.r, 'arr'), q) if p is None else p, s.Z.initial((y.r, 'arr'), p) if q is None else q, A, what + ' local array')
        if set(f) != set(g): raise Undecided('%s: locals of different extent' % what)

    def events(s, E1, E2, A, where=''):
        def live(E):
            r = []
            for e in E:
                g = simp(e[1])
                if z3.is_false(g): continue
                if not z3.is_true(g) and s.Z.entails(A, z3.Not(g)): continue
                r.append(e)
            return r
        E1, E2 = live(E1), live(E2)
        for i in range(max(len(E1), len(E2))):
            if i >= len(E1): raise Mismatch('%smissing: %s' % (where, name(E2[i])))
            if i >= len(E2): raise Mismatch('%sextra: %s' % (where, name(E1[i])))
            a, b = E1[i], E2[i]; w = '%s%d. %s' % (where, i + 1, name(b))
            if a[0] != b[0] or a[0] == 'call' and strip(a[2]) != strip(b[2]): raise Mismatch('%s: %s instead of %s' % (w, name(a), name(b)))
            s.ok(a[1] == b[1], A, lambda: w + ': performed under another condition (%s instead of %s)' % (sh(a[1]), sh(b[1])))
            B = A + [b[1]]
            if a[0] == 'call':
                if len(a[3]) != len(b[3]): raise Mismatch(w + ': arguments')
                for j, (x, y) in enumerate(zip(a[3], b[3])):
                    if any(j in v and re.search(k, a[2]) for k, v in s.Z.argskip.items()): continue
                    s.eq(x, y, B, '%s argument %d' % (w, j + 1))
                    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r[0] == '%' and y.r[0] == '%': s.local(x, y, a[4], b[4], B, w + ' sees')
                    elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.r == y.r: s.words(a[4], b[4], B, w + ' sees', {x.r})
            elif a[0] == 'tail': s.events(a[2], b[2], B, w + ' ')
            else:
                if len(a[2]) != len(b[2]): raise Mismatch('%s: %d carried values instead of %d' % (w, len(a[2]), len(b[2])))
                for (v1, h1, n1), (v2, h2, n2) in zip(a[2], b[2]):
                    s.eq(v1, v2, B, w + ' starts at'); s.eq(h1, h2, B, w + ' state'); s.eq(n1, n2, B + [b[3]], w + ' goes on with')
                s.ok(a[3] == b[3], B, lambda: w + ': continues while %s instead of %s' % (sh(a[3]), sh(b[3])))
                s.events(a[5], b[5], B + [b[3]], w + ' > ')
                s.words(a[7], b[7], B, w + ' starts from', set(a[6]) | set(b[6])); s.words(a[6], b[6], B + [b[3]], w + ' leaves', loc=True)


def same_real(Z, a, b):
    """equal as expressions over the reals (rounded operations read as exact ones, at random rational points)"""
    import random
    from fractions import Fraction
    for seed in range(4):
        vals = {}

        def env(t):
            if z3.is_app_of(t, z3.Z3_OP_ITE) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED and not z3.is_select(t) and t.decl().kind() not in (z3.Z3_OP_EXTRACT, z3.Z3_OP_CONCAT): return None
            return vals.setdefault(t.get_id(), Fraction(random.Random('%d%d' % (seed, t.get_id())).randrange(2, 10**6), 7919))
        x, y = bits.rational(Z, a, env, {}), bits.rational(Z, b, env, {})
        if x is None or x != y: return False
    return True


def flat(a, idx=None):
    """a chain of stores as base and {(address term, constant): byte}; the base stays a chain where addresses may coincide"""
    out = {}; base = None
    while z3.is_app_of(a, z3.Z3_OP_STORE):
        i = a.arg(1); k = 0; t = 'const'
        if is_c(i): k = i.as_signed_long()
        elif z3.is_app_of(i, z3.Z3_OP_BADD) and is_c(i.arg(0)): k = i.arg(0).as_signed_long(); t = ' + '.join(i.arg(q).sexpr() for q in range(1, i.num_args()))
        else: t = i.sexpr()
        if base is None: base = t
        elif t != base: break
        if idx is not None: idx[(t, k)] = i
        out.setdefault((t, k), a.arg(2)); a = a.arg(0)
    return a, out


def strip(n):
    n = n.lstrip('@'); return re.sub(r'^_Z\d+(c_|s_)?', '', n)


def sh(x):
    if isinstance(x, Ptr): return '%s+%s' % (x.r, x.o)
    return str(x)[:160].replace('\n', ' ')


def name(e): return e[2] if e[0] == 'call' else e[0]


def refine(X, Z, code, spec, args, mem=None, skip=r'^%', assume=(), ret=True, specpre=False):
    """the code refines the specification function, for every state"""
    Z.assume = list(assume)
    Z.altc = {}; C = Z.cases(code, args, mem); ac = Z.altc; Z.altc = {}; S = Z.cases(spec, args, mem); K = Cmp(Z, skip); n = 0; K.locals = ac == Z.altc
    for p1, q1, e1, m1, r1 in C:
        for p2, q2, e2, m2, r2 in S:
            A = list(assume) + p1 + p2 + q1 + q2; 
            if Z.entails(A, z3.BoolVal(False)): continue
            n += 1
            K.events(e1, e2, A)
            if ret and not (r1 is None and r2 is None): K.eq(r1, r2, A, 'returns')
            K.words(m1, m2, A, 'leaves')
    if not n: raise Undecided('no case to compare')
    if K.und: raise Undecided(K.und)
    from . import solver
    solver.STATS['queries'] += Z.q; solver.STATS['time'] += Z.qt
    if hasattr(X, 'E'): X.E.notes.update({'bits-' + k: v for k, v in Z.notes.items()})
    return n
