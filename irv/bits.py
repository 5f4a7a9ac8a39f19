"""Bit-precise discharge of straight-line contracts: code and specification functions of one harness
module are executed from the same symbolic memory and the whole final memory is compared.

Integers are machine words, comparisons and sign operations of floats are exact on their bits, and
rounded float operations (+ - * / sqrt, conversions, libm) are uninterpreted functions of their operand
bits that satisfy only exact IEEE identities (commutativity, x-y = x+(-y), sign symmetry of * and /)."""
import z3, itertools
from fractions import Fraction
import struct
from .ir import Unsupported, postdom

TIMEOUT = 20000
bv = z3.BitVecVal
simp = z3.simplify


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(s, r, o): s.r = r; s.o = o


def is_c(x): return z3.is_bv_value(x)


def fbits(q, w):
    if isinstance(q, str):
        v = {'nan': float('nan'), '+inf': float('inf'), '-inf': float('-inf'), '-0': -0.}[q]
    else: v = float(q)
    return bv(struct.unpack('<I' if w == 32 else '<Q', struct.pack('<f' if w == 32 else '<d', v))[0], w)


class Bits:
    def __init__(s, mod):
        s.mod = mod; s.uf = {}; s.n = 0; s.heads = frozenset(); s.negs = {}; s.notes = {}; s.keep = []
        s.contracts = {}; s.contract_fma = True; s.memo = {}; s.q = 0; s.qt = 0.

    # ------------------------------------------------------------ float terms
    def fn(s, name, args, w):
        k = (name, tuple(a.size() for a in args), w)
        if k not in s.uf: s.uf[k] = z3.Function(name, *([z3.BitVecSort(a.size()) for a in args] + [z3.BitVecSort(w)]))
        r = s.uf[k](*args); s.keep.append(r); return r

    def neg_of(s, x):
        """y when x is the float negation of y"""
        return s.negs.get(x.get_id())

    def fneg(s, x):
        y = s.neg_of(x)
        if y is not None: return y
        w = x.size(); r = simp(x ^ bv(1 << (w - 1), w))
        if not is_c(r): s.negs[r.get_id()] = x; s.keep.append((r, x))
        return r

    def split(s, x):
        y = s.neg_of(x)
        if y is not None: return 1, y
        return 0, x

    def fadd(s, a, b):
        w = a.size()
        ka, kb = a.get_id(), b.get_id()
        if ka > kb: a, b = b, a
        return s.fn('fadd%d' % w, (a, b), w)

    def fsub(s, a, b): return s.fadd(a, s.fneg(b))

    def fmul(s, a, b):
        w = a.size(); na, x = s.split(a); nb, y = s.split(b)
        r = s.fn('fmul%d' % w, sorted((x, y), key=lambda t: t.get_id()), w)
        return s.fneg(r) if na ^ nb else r

    def fdiv(s, a, b):
        w = a.size(); na, x = s.split(a); nb, y = s.split(b)
        r = s.fn('fdiv%d' % w, (x, y), w)
        return s.fneg(r) if na ^ nb else r

    def fma(s, a, b, c):
        s.notes['fma'] = 'a fused multiply-add counts as the product and sum it fuses (rounded once or twice)'
        return s.fadd(s.fmul(a, b), c)

    def fabs(s, a):
        w = a.size()
        return simp(a & bv((1 << (w - 1)) - 1, w))

    def isnan(s, a):
        e = {32: 0x7f800000, 64: 0x7ff0000000000000}[a.size()]
        return z3.UGT(s.fabs(a), bv(e, a.size()))

    def feq(s, a, b):       # ordered equality
        if a.get_id() > b.get_id(): a, b = b, a
        w = a.size()
        return z3.And(z3.Not(s.isnan(a)), z3.Not(s.isnan(b)), z3.Or(a == b, s.fabs(a | b) == bv(0, w)))

    def flt(s, a, b):       # ordered less-than
        w = a.size(); sa = z3.Extract(w - 1, w - 1, a) == 1; sb = z3.Extract(w - 1, w - 1, b) == 1
        both0 = s.fabs(a | b) == bv(0, w)
        return z3.And(z3.Not(s.isnan(a)), z3.Not(s.isnan(b)), z3.Not(both0),
                      z3.If(sa, z3.If(sb, z3.ULT(b, a), True), z3.If(sb, False, z3.ULT(a, b))))

    def fcmp(s, pr, a, b):
        un = z3.Or(s.isnan(a), s.isnan(b))
        if pr == 'true': return z3.BoolVal(True)
        if pr == 'false': return z3.BoolVal(False)
        if pr == 'ord': return z3.Not(un)
        if pr == 'uno': return un
        o, r = pr[0], pr[1:]
        c = {'eq': lambda: s.feq(a, b), 'lt': lambda: s.flt(a, b), 'gt': lambda: s.flt(b, a), 'le': lambda: z3.Or(s.flt(a, b), s.feq(a, b)),
             'ge': lambda: z3.Or(s.flt(b, a), s.feq(a, b)), 'ne': lambda: z3.And(z3.Not(un), z3.Not(s.feq(a, b)))}[r]()
        return z3.Or(un, c) if o == 'u' else c

    def fpext(s, a):
        return s.fn('fpext', (a,), 64)

    def fptrunc(s, a):
        d = a.decl()
        if z3.is_app_of(a, z3.Z3_OP_ITE): return simp(z3.If(a.arg(0), s.fptrunc(a.arg(1)), s.fptrunc(a.arg(2))))
        if a.num_args() == 1 and d.name() == 'fpext': return a.arg(0)
        # rounding operations that are exact or correctly rounded through double
        if a.num_args() == 1 and d.name() in ('floor64', 'ceil64', 'sqrt64') and a.arg(0).decl().name() == 'fpext':
            return s.fn(d.name()[:-2] + '32', (a.arg(0).arg(0),), 32)
        if z3.is_app_of(a, z3.Z3_OP_BAND) or z3.is_app_of(a, z3.Z3_OP_CONCAT):
            pass
        if is_c(a):
            import struct
            try: return bv(struct.unpack('<I', struct.pack('<f', struct.unpack('<d', struct.pack('<Q', a.as_long()))[0]))[0], 32)
            except OverflowError: pass
        return s.fn('fptrunc', (a,), 32)

    # ------------------------------------------------------------ values
    def fresh(s, w):
        s.n += 1; return z3.BitVec('undef!%d' % s.n, w)

    def cval(s, v, ty, env):
        k = v[0]
        if k == 'loc': return env[v[1]]
        if k == 'undef': return s.undef(v[1] if len(v) > 1 else ty)
        if k == 'zero': return s.zero(v[1])
        if k == 'i':
            if v[2].w == 1: return z3.BoolVal(bool(v[1] % 2))
            return bv(v[1], v[2].w)
        if k == 'f': return fbits(v[1], v[2].w)
        if k == 'null': return bv(0, 64)
        if k == 'agg': return [s.cval(x, t, env) for t, x in v[1]]
        if k == 'glob':
            return Ptr(v[1], 0)
        if k == 'cgep': return s.gep(v[1], s.cval(v[2], None, env), [(t, s.cval(x, t, env)) for t, x in v[3]])
        if k == 'str':
            raise Unsupported('string')
        if k == 'cbin' or k == 'ccast': raise Unsupported('constant expression')
        raise Unsupported('value %r' % (v,))

    def undef(s, t):
        if t.k == 'vec' or t.k == 'arr': return [s.undef(t.e) for _ in range(t.n)]
        if t.k == 'struct': return [s.undef(x) for x in t.f]
        if t.k == 'ptr': return None
        if t.k == 'int' and t.w == 1: s.n += 1; return z3.Bool('undefb!%d' % s.n)
        return s.fresh(t.w)

    def zero(s, t):
        if t.k in ('vec', 'arr'): return [s.zero(t.e) for _ in range(t.n)]
        if t.k == 'struct': return [s.zero(x) for x in t.f]
        if t.k == 'ptr': return bv(0, 64)
        if t.k == 'int' and t.w == 1: return z3.BoolVal(False)
        return bv(0, t.w)

    def gep(s, bt, base, idx):
        if not isinstance(base, Ptr): raise Unsupported('address computed from %r' % (base,))
        off = base.o; t = bt
        for n, (it, i) in enumerate(idx):
            i = simp(i)
            if not is_c(i): raise Unsupported('symbolic index')
            i = i.as_signed_long()
            if n == 0: off += i * s.mod.size(t)
            elif t.k == 'struct': off += s.mod.layout(t)[0][i]; t = t.f[i]
            else: t = t.e; off += i * s.mod.size(t)
        return Ptr(base.r, off)

    # ------------------------------------------------------------ memory (32-bit words)
    def word(s, mem, r, o):
        k = (r, o); v = mem.get(k)
        if v is None:
            if r[0] == '@' and r in s.mod.globals: v = s.ginit(r, o)
            else: v = z3.BitVec('%s@%d' % (r, o), 32)
            mem[k] = v
        return v

    def ginit(s, r, o, anyway=False):
        t, ini, const = s.mod.globals[r]
        if ini is None or not (const or anyway): raise Unsupported('global ' + r)
        d = {}

        def put(v, t, off):
            if isinstance(v, list):
                if t.k == 'struct':
                    for x, y, p in zip(v, t.f, s.mod.layout(t)[0]): put(x, y, off + p)
                else:
                    for i, x in enumerate(v): put(x, t.e, off + i * s.mod.size(t.e))
            elif isinstance(v, Ptr): d[off] = v; d[off + 4] = v
            else: s.storew(d, '', off, v)
        put(s.cval(ini, t, {}), t, 0)
        return d.get(('', o), d.get(o))

    def load(s, mem, p, t):
        if t.k in ('vec', 'arr'):
            n = s.mod.size(t.e)
            if t.k == 'vec' and t.e.k == 'int' and t.e.w < 32:
                raise Unsupported('load of %r' % t)
            return [s.load(mem, Ptr(p.r, p.o + i * n), t.e) for i in range(t.n)]
        if t.k == 'struct': return [s.load(mem, Ptr(p.r, p.o + o), x) for x, o in zip(t.f, s.mod.layout(t)[0])]
        if not isinstance(p, Ptr): raise Unsupported('load through %r' % (p,))
        if t.k == 'ptr':
            v = mem.get((p.r, p.o))
            if isinstance(v, Ptr): return v
            raise Unsupported('load of a pointer')
        w = t.w
        if p.o % 4 == 0 and w in (32, 64, 128, 256, 512):
            ws = [s.word(mem, p.r, p.o + 4 * i) for i in range(w // 32)]
            if any(isinstance(x, Ptr) for x in ws): return ws[0]
            return ws[0] if w == 32 else simp(z3.Concat(*ws[::-1]))
        if w in (8, 16, 1):
            x = s.word(mem, p.r, p.o & ~3); b = (p.o & 3) * 8
            if w == 1: return simp(z3.Extract(b, b, x) == 1)
            return simp(z3.Extract(b + w - 1, b, x))
        raise Unsupported('load of %r at %d' % (t, p.o))

    def storew(s, mem, r, o, v):
        if isinstance(v, Ptr): mem[(r, o)] = v; mem[(r, o + 4)] = v; return
        if z3.is_bool(v): v = z3.If(v, bv(1, 8), bv(0, 8))
        w = v.size()
        if w == 32 and o % 4 == 0: mem[(r, o)] = v; return
        if w % 32 == 0 and o % 4 == 0:
            for i in range(w // 32): mem[(r, o + 4 * i)] = simp(z3.Extract(32 * i + 31, 32 * i, v))
            return
        if w in (8, 16):
            x = s.word(mem, r, o & ~3); b = (o & 3) * 8
            parts = []
            if b + w < 32: parts.append(z3.Extract(31, b + w, x))
            parts.append(v)
            if b: parts.append(z3.Extract(b - 1, 0, x))
            mem[(r, o & ~3)] = simp(z3.Concat(*parts)) if len(parts) > 1 else v
            return
        raise Unsupported('store of %d bits at %d' % (w, o))

    def store(s, mem, p, v, t):
        if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
        if v is None: return
        if isinstance(v, list):
            if t.k == 'struct':
                for x, y, o in zip(v, t.f, s.mod.layout(t)[0]): s.store(mem, Ptr(p.r, p.o + o), x, y)
            else:
                n = s.mod.size(t.e)
                for i, x in enumerate(v): s.store(mem, Ptr(p.r, p.o + i * n), x, t.e)
            return
        s.storew(mem, p.r, p.o, v)

    # ------------------------------------------------------------ execution
    def merge(s, c, a, b):
        if a is b: return a
        if a is None: return b
        if b is None: return a
        if isinstance(a, list): return [s.merge(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and (a.r, a.o) == (b.r, b.o): return a
            raise Unsupported('alternative addresses')
        if a.eq(b): return a
        return simp(z3.If(c, a, b))

    def run(s, name, args, mem):
        f = s.mod.body(s.mod.fns[name]); env = {p[1]: x for p, x in zip(f.params, args)}
        s.al = getattr(s, 'al', 0); s.steps = getattr(s, 'steps', 0)
        r = s.go(f, f.entry, None, env, mem, None)
        return r[1]

    def go(s, f, b, prev, env, mem, stop):
        """runs from block b until block `stop` (not entered) or return: ('at', prev) | ('ret', value)"""
        while True:
            if b == stop and prev != '@set': return ('at', prev)
            if isinstance(stop, frozenset) and b in stop: return ('at', prev, b)
            if b in s.heads: raise Unsupported('a loop inside a branch')
            s.steps += 1
            if s.steps > 200000: raise Unsupported('too many steps')
            B = f.blocks[b]
            if B.phis and prev != '@set':
                nv = []
                for I in B.phis:
                    v = [x for x, l in I.a if l == prev]
                    if not v and isinstance(prev, tuple):
                        c, p1, p2 = prev
                        v1 = s.phival(I, p1, env); v2 = s.phival(I, p2, env)
                        nv.append((I.res, s.merge(c, v1, v2)))
                    else: nv.append((I.res, s.cval(v[0], I.ty, env)))
                for k, v in nv: env[k] = v
            for I in B.ins:
                if I.op == 'phi': continue
                if I.op == 'br':
                    if I.a[0] is None: prev, b = b, I.a[1]; break
                    c = s.branch(f, b, I, simp(s.cval(I.a[0], None, env)))
                    if z3.is_true(c): prev, b = b, I.a[1]; break
                    if z3.is_false(c): prev, b = b, I.a[2]; break
                    j = postdom(f).get(b)
                    if j == '%__exit__': j = None
                    env0 = dict(env); e1, e2 = dict(env), dict(env); m1, m2 = dict(mem), dict(mem)
                    r1 = s.go(f, I.a[1], b, e1, m1, j); r2 = s.go(f, I.a[2], b, e2, m2, j)
                    for k in set(m1) | set(m2):
                        mem[k] = s.merge(c, m1[k] if k in m1 else s.word(m1, *k), m2[k] if k in m2 else s.word(m2, *k))
                    if r1[0] == 'ret' and r2[0] == 'ret': return ('ret', s.merge(c, r1[1], r2[1]))
                    if r1[0] != r2[0]: raise Unsupported('one-sided return')
                    for e in (e1, e2):          # a value is defined on one side only (phis merge what flows on)
                        for k, v in e.items():
                            if k not in env0 or v is not env0[k]: env[k] = v
                    prev = (c, r1[1], r2[1]); b = j
                    break
                if I.op == 'switch':
                    v = simp(s.cval(I.a[0], None, env))
                    if not is_c(v): raise Unsupported('symbolic switch')
                    t = I.a[1]
                    for cv, l in I.a[2]:
                        if simp(s.cval(cv, I.ty, env)).as_long() == v.as_long(): t = l
                    prev, b = b, t; break
                if I.op == 'ret': return ('ret', None if I.a[0] is None else s.cval(I.a[0], I.ty, env))
                if I.op == 'unreachable': raise Unsupported('unreachable')
                v = s.ins(I, env, mem)
                if I.res: env[I.res] = v
            else: raise Unsupported('block without terminator')

    def branch(s, f, b, I, c): return c

    def phival(s, I, p, env):
        if isinstance(p, tuple): return s.merge(p[0], s.phival(I, p[1], env), s.phival(I, p[2], env))
        return s.cval([x for x, l in I.a if l == p][0], I.ty, env)

    def ins(s, I, env, mem):
        op = I.op; a = I.a; V = lambda x, t=None: s.cval(x, t, env)
        if op in BIN: return s.vec(lambda x, y: s.bin(op, x, y), V(a[0], I.ty), V(a[1], I.ty))
        if op == 'fneg': return s.vec(s.fneg, V(a[0]))
        if op == 'icmp': return s.vec(lambda x, y: s.icmp(a[0], x, y), V(a[1], I.ty), V(a[2], I.ty))
        if op == 'fcmp': return s.vec(lambda x, y: simp(s.fcmp(a[0], x, y)), V(a[1]), V(a[2]))
        if op == 'load': return s.load(mem, V(a[0]), I.ty)
        if op == 'store': s.store(mem, V(a[1]), V(a[0], I.ty), I.ty); return
        if op == 'getelementptr': return s.gep(a[0], V(a[1]), [(t, V(x, t)) for t, x in a[2]])
        if op == 'alloca':
            s.al += 1; s.__dict__.setdefault('alsize', {})['%%al%d' % s.al] = s.mod.size(I.a[0]) if I.a[1] is None else 0
            return Ptr('%%al%d' % s.al, 0)
        if op == 'select':
            c = V(a[1]); x, y = V(a[2]), V(a[3])
            if isinstance(c, list): return [s.merge(simp(k), p, q) if not z3.is_true(simp(k)) and not z3.is_false(simp(k)) else (p if z3.is_true(simp(k)) else q) for k, p, q in zip(c, x, y)]
            c = simp(c)
            if z3.is_true(c): return x
            if z3.is_false(c): return y
            return s.merge(c, x, y)
        if op == 'freeze': return V(a[0])
        if op == 'extractelement':
            i = simp(V(a[1]))
            if not is_c(i): raise Unsupported('symbolic lane')
            return V(a[0])[i.as_long()]
        if op == 'insertelement':
            i = simp(V(a[2])); v = list(V(a[0])); v[i.as_long()] = V(a[1]); return v
        if op == 'shufflevector':
            vt, x, y, mt, m = a; xs = V(x) + V(y, vt); ms = V(m)
            if m[0] == 'undef': return [s.undef(vt.e) for _ in range(mt.n)]
            return [xs[simp(q).as_long()] if is_c(simp(q)) else s.undef(vt.e) for q in ms]
        if op == 'extractvalue':
            v = V(a[1])
            for i in a[2]: v = v[i]
            return v
        if op == 'insertvalue':
            def ins_(v, ix, e):
                v = list(v); v[ix[0]] = e if len(ix) == 1 else ins_(v[ix[0]], ix[1:], e); return v
            return ins_(V(a[1]), a[4], V(a[3]))
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint', 'inttoptr'):
            return s.cast(op, V(a[1], a[0]), a[0], I.ty)
        if op == 'call': return s.call(I, env, mem)
        raise Unsupported('instruction ' + I.text[:100])

    def vec(s, g, *xs):
        if isinstance(xs[0], list): return [s.vec(g, *y) for y in zip(*xs)]
        return g(*xs)

    def bin(s, op, x, y):
        if op == 'fadd': return s.fadd(x, y)
        if op == 'fsub': return s.fsub(x, y)
        if op == 'fmul': return s.fmul(x, y)
        if op == 'fdiv': return s.fdiv(x, y)
        if op == 'frem': return s.fn('frem%d' % x.size(), (x, y), x.size())
        if z3.is_bool(x):
            return simp({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor, 'mul': z3.And}[op](x, y))
        w = x.size()
        if op == 'xor':
            for p, q in ((x, y), (y, x)):
                if is_c(q) and q.as_long() == 1 << (w - 1): return s.fneg(p)
        return simp({'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
                     'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'sdiv': lambda: x / y, 'udiv': lambda: z3.UDiv(x, y), 'srem': lambda: z3.SRem(x, y), 'urem': lambda: z3.URem(x, y)}[op]())

    def icmp(s, pr, x, y):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r == y.r:
                return z3.BoolVal({'eq': x.o == y.o, 'ne': x.o != y.o, 'ult': x.o < y.o, 'ugt': x.o > y.o, 'ule': x.o <= y.o, 'uge': x.o >= y.o}[pr])
            if pr in ('eq', 'ne'): return z3.BoolVal(pr == 'ne')
            raise Unsupported('pointer comparison')
        if z3.is_bool(x): return simp(x == y if pr == 'eq' else x != y) if pr in ('eq', 'ne') else s.icmp(pr, s.b2v(x), s.b2v(y))
        return simp({'eq': lambda: x == y, 'ne': lambda: x != y, 'slt': lambda: x < y, 'sgt': lambda: x > y, 'sle': lambda: x <= y, 'sge': lambda: x >= y,
                     'ult': lambda: z3.ULT(x, y), 'ugt': lambda: z3.UGT(x, y), 'ule': lambda: z3.ULE(x, y), 'uge': lambda: z3.UGE(x, y)}[pr]())

    def b2v(s, x): return z3.If(x, bv(1, 1), bv(0, 1))

    def cast(s, op, v, t0, t1):
        if op == 'bitcast':
            if t0.k == 'ptr': return v
            return s.bitcast(v, t0, t1)
        if isinstance(v, list): return [s.cast(op, x, t0.e, t1.e) for x in v]
        if op in ('ptrtoint', 'inttoptr'): return v
        if op == 'zext': return simp(z3.If(v, bv(1, t1.w), bv(0, t1.w)) if t0.w == 1 else z3.ZeroExt(t1.w - t0.w, v))
        if op == 'sext': return simp(z3.If(v, bv(-1, t1.w), bv(0, t1.w)) if t0.w == 1 else z3.SignExt(t1.w - t0.w, v))
        if op == 'trunc':
            if t1.w == 1: return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(t1.w - 1, 0, v))
        if op == 'fpext': return s.fpext(v)
        if op == 'fptrunc': return s.fptrunc(v)
        if z3.is_app_of(v, z3.Z3_OP_ITE) and op in ('sitofp', 'uitofp') and is_c(v.arg(1)) and is_c(v.arg(2)): return simp(z3.If(v.arg(0), s.cast(op, v.arg(1), t0, t1), s.cast(op, v.arg(2), t0, t1)))
        if is_c(v) and op in ('sitofp', 'uitofp'): return fbits(Fraction(v.as_signed_long() if op == 'sitofp' else v.as_long()), t1.w)
        if z3.is_bool(v): v = s.b2v(v)
        return s.fn('%s_%d' % (op, v.size()), (v,), t1.w)

    def flat(s, v, t):
        """value -> list of bits, low first, as one bitvector"""
        if isinstance(v, list):
            if t.e.k == 'int' and t.e.w == 1: return simp(z3.Concat(*[s.b2v(x) for x in v[::-1]])) if len(v) > 1 else s.b2v(v[0])
            return simp(z3.Concat(*v[::-1])) if len(v) > 1 else v[0]
        return s.b2v(v) if z3.is_bool(v) else v

    def bitcast(s, v, t0, t1):
        if t0.k == 'vec' and t1.k == 'vec' and t0.n == t1.n: return v
        if t0.k != 'vec' and t1.k != 'vec': return v
        x = s.flat(v, t0)
        if t1.k != 'vec': return x
        w = x.size() // t1.n
        return [simp(z3.Extract(w * i + w - 1, w * i, x)) if t1.e.w != 1 else simp(z3.Extract(i, i, x) == 1) for i in range(t1.n)]

    def call(s, I, env, mem):
        d = I.a; cal = d['callee']
        if cal[0] != 'glob': raise Unsupported('indirect call')
        nm = cal[1][1:].strip('"')
        if nm.startswith('llvm.lifetime') or nm.startswith('llvm.dbg') or nm.startswith('llvm.assume') or nm.startswith('llvm.experimental.noalias'): return None
        A = [s.cval(v, t, env) for t, v, _ in d['args']]; b = nm
        if b.startswith('llvm.memset'):
            n = simp(A[2]).as_long(); p = A[0]; v = simp(A[1]); w = simp(z3.Concat(v, v, v, v))
            if n % 4 or p.o % 4: raise Unsupported('memset size')
            for i in range(0, n, 4): mem[(p.r, p.o + i)] = w
            return None
        if b.startswith('llvm.memcpy') or b.startswith('llvm.memmove'):
            n = simp(A[2]).as_long(); p, q = A[0], A[1]
            if n % 4 or p.o % 4 or q.o % 4: raise Unsupported('memcpy size')
            vs = [s.word(mem, q.r, q.o + i) for i in range(0, n, 4)]
            for i, x in enumerate(vs): mem[(p.r, p.o + 4 * i)] = x
            return None
        if b.startswith('llvm.'):
            q = b.split('.')[1:]
            if q[0] == 'x86': return s.x86(b[9:], A, I, mem)
            n = q[0]
            if n in ('fma', 'fmuladd'): return s.vec(s.fma, *A)
            if n == 'fabs': return s.vec(s.fabs, A[0])
            if n in ('sqrt', 'floor', 'ceil', 'rint', 'trunc', 'nearbyint', 'round', 'exp', 'log', 'log10', 'sin', 'cos', 'pow', 'exp2', 'log2'):
                return s.vec(lambda *x: s.libm(n, *x), *A)
            if n == 'copysign': return s.vec(lambda x, y: simp(s.fabs(x) | (y & bv(1 << (x.size() - 1), x.size()))), *A)
            if n in ('smax', 'smin', 'umax', 'umin'):
                g = {'smax': lambda x, y: x > y, 'smin': lambda x, y: x < y, 'umax': z3.UGT, 'umin': z3.ULT}[n]
                return s.vec(lambda x, y: simp(z3.If(g(x, y), x, y)), *A)
            if n == 'abs': return s.vec(lambda x: simp(z3.If(x < 0, -x, x)), A[0])
            if n == 'fshl': return s.vec(lambda x, y, c: simp(z3.If(z3.URem(c, bv(x.size(), x.size())) == 0, x, (x << z3.URem(c, bv(x.size(), x.size()))) | z3.LShR(y, bv(x.size(), x.size()) - z3.URem(c, bv(x.size(), x.size()))))), *A)
            if n == 'vector' and q[1] == 'reduce' and q[2] in ('or', 'and', 'add', 'xor'):
                r = A[0][0]
                for x in A[0][1:]: r = s.bin(q[2], r, x)
                return r
            if n == 'masked' and q[1] in ('load', 'store'): return s.masked(q[1], A, I, mem, d)
            if n == 'masked' and q[1] in ('gather', 'scatter'): raise Unsupported(b)
            if n == 'expect': return A[0]
            raise Unsupported('intrinsic ' + b)
        h = s.contracts.get(b)
        if h: return h(A, mem, I)
        if cal[1] in s.mod.fns: return s.run(cal[1], A, mem)
        if b in LIBM:
            return s.libm(LIBM[b], *A)
        if b.startswith('_mm'): raise Unsupported(b)
        raise Unsupported('call to ' + b)

    def libm(s, n, *xs):
        w = xs[0].size()
        if n == 'fabs': return s.fabs(xs[0])
        if n == 'copysign': return simp(s.fabs(xs[0]) | (xs[1] & bv(1 << (w - 1), w)))
        return s.fn('%s%d' % (n, w), xs, w)

    def masked(s, k, A, I, mem, d):
        if k == 'load':
            p, _, m, pt = A; t = I.ty; n = s.mod.size(t.e)
            return [s.merge(simp(c), s.load(mem, Ptr(p.r, p.o + i * n), t.e), x) if not z3.is_false(simp(c)) else x for i, (c, x) in enumerate(zip(m, pt))]
        v, p, _, m = A; t = d['args'][0][0]; n = s.mod.size(t.e)
        for i, (x, c) in enumerate(zip(v, m)):
            c = simp(c)
            if z3.is_false(c): continue
            s.store(mem, Ptr(p.r, p.o + i * n), x if z3.is_true(c) else s.merge(c, x, s.load(mem, Ptr(p.r, p.o + i * n), t.e)), t.e)

    def x86(s, n, A, I, mem):
        if n in ('sse.rsqrt.ps', 'avx.rsqrt.ps.256', 'avx512.rsqrt14.ps.512'):
            s.notes['rsqrt'] = 'the approximate reciprocal (square root) instructions return some approximation r(x) of the value'
            return [s.fn('rsqrta', (x,), 32) for x in A[0]]
        if n in ('sse.rcp.ps', 'avx.rcp.ps.256', 'avx512.rcp14.ps.512'):
            s.notes['rsqrt'] = 'the approximate reciprocal (square root) instructions return some approximation r(x) of the value'
            return [s.fn('rcpa', (x,), 32) for x in A[0]]
        if n in ('avx512.sqrt.ps.512',): return [s.libm('sqrt', x) for x in A[0]]
        if n in ('avx512.add.ps.512', 'avx512.sub.ps.512', 'avx512.mul.ps.512', 'avx512.div.ps.512'):
            return s.vec(lambda x, y: s.bin('f' + n.split('.')[1], x, y), A[0], A[1])
        if n in ('avx512.vfmadd.ps.512',): return s.vec(s.fma, A[0], A[1], A[2])
        if n.startswith('sse.cmp.ps') or n.startswith('avx.cmp.ps') or n.startswith('sse.cmp.'):
            pr = simp(A[2]).as_long()
            P = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord', 'ueq', 'ult', 'ule', 'false', 'one', 'oge', 'ogt', 'true']
            return s.vec(lambda x, y: simp(z3.If(s.fcmp(P[pr & 15], x, y), bv(-1, 32), bv(0, 32))), A[0], A[1])
        if n.endswith('movmsk.ps') or n.endswith('movmsk.ps.256'):
            return simp(z3.ZeroExt(32 - len(A[0]), z3.Concat(*[z3.Extract(31, 31, x) for x in A[0][::-1]])))
        if n in ('sse2.psrli.d', 'sse2.pslli.d'): return s.vec(lambda x: simp(z3.LShR(x, A[1]) if 'psr' in n else x << A[1]), A[0])
        if n.startswith('avx2.psllv') or n.startswith('avx512.psllv'): return s.vec(lambda x, y: simp(x << y), A[0], A[1])
        if n.startswith('avx2.psrav') or n.startswith('avx512.psrav'): return s.vec(lambda x, y: simp(x >> y), A[0], A[1])
        if n.startswith('avx.blendv.ps') or n.startswith('sse41.blendvps'):
            return s.vec(lambda x, y, c: simp(z3.If(z3.Extract(31, 31, c) == 1, y, x)), A[0], A[1], A[2])
        if n in ('avx2.permd', 'avx2.permps', 'avx512.permvar.sf.512'):
            r = []
            for i in A[1]:
                i = simp(i)
                if not is_c(i): raise Unsupported('symbolic permutation')
                r.append(A[0][i.as_long() % len(A[0])])
            return r
        if n.startswith('avx512.vpermi2var.ps'):
            N = len(A[0]); r = []
            for i in A[1]:
                i = simp(i)
                if not is_c(i): raise Unsupported('symbolic permutation')
                k = i.as_long() % (2 * N); r.append(A[0][k] if k < N else A[2][k - N])
            return r
        raise Unsupported('intrinsic ' + n)

    # ------------------------------------------------------------ deciding
    def decide(s, claim, assume=()):
        """'ok' | model | None"""
        import time
        c = simp(claim)
        if z3.is_true(c): return 'ok'
        so = z3.Solver(); so.set('timeout', TIMEOUT)
        for x in assume: so.add(x)
        so.add(z3.Not(c)); t = time.time(); r = so.check(); s.q += 1; s.qt += time.time() - t
        if r == z3.unsat: return 'ok'
        return so.model() if r == z3.sat else None



class Loops(Bits):
    """adds: byte-array regions addressed by symbolic offsets, branches decided under assumptions, pointer loads
    from unknown memory, and the loop rule (an arbitrary iteration from an arbitrary state)"""

    def __init__(s, mod):
        super().__init__(mod); s.arrays = {}; s.assume = []; s.force = {}; s.taken = {}; s.side = []; s.onside = None; s.cut = None; s.events = []; s.steps = 0; s.al = 0; s.alsize = {}

    # ---- memory
    def sym(s, o): return o if not isinstance(o, int) else bv(o, 64)

    def gep(s, bt, base, idx):
        if not isinstance(base, Ptr): raise Unsupported('address computed from %r' % (base,))
        ix = [simp(i) for _, i in idx]
        if all(is_c(i) for i in ix) and isinstance(base.o, int): return super().gep(bt, base, idx)
        off = s.sym(base.o); t = bt
        for n, i in enumerate(ix):
            if i.size() < 64: i = z3.SignExt(64 - i.size(), i)
            if n == 0: off = off + i * bv(s.mod.size(t), 64)
            elif t.k == 'struct': k = simp(i).as_long(); off = off + bv(s.mod.layout(t)[0][k], 64); t = t.f[k]
            else: t = t.e; off = off + i * bv(s.mod.size(t), 64)
        off = simp(off)
        return Ptr(base.r, off.as_signed_long() if is_c(off) else off)

    def arr(s, mem, r):
        k = (r, 'arr')
        if k not in mem: mem[k] = z3.Array('%s[]' % r, z3.BitVecSort(64), z3.BitVecSort(8))
        return mem[k]

    def word(s, mem, r, o):
        if o == 'arr': return s.arr(mem, r)
        k = (r, o)
        if k not in mem and r[0] == '@' and not s.mod.globals[r][2]: mem[k] = z3.BitVec('%s@%d' % (r, o), 32)
        return super().word(mem, r, o)

    def isarr(s, p, n):
        if p.r not in s.arrays: return False
        lim = s.arrays[p.r]
        if isinstance(p.o, int): return lim is None or p.o < lim
        if lim is not None: s.side.append(('access of %d bytes inside the state' % n, z3.And(z3.ULE(p.o, bv(lim - n, 64)))))
        return True

    def load(s, mem, p, t):
        if isinstance(p, Ptr) and t.k == 'ptr':
            v = mem.get((p.r, p.o)) if isinstance(p.o, int) else None
            if isinstance(v, Ptr): return v
            return Ptr('*%s[%s]' % (p.r, simp(s.sym(p.o))), 0)
        if isinstance(p, Ptr) and t.k in ('int', 'float', 'double', 'fp') and s.isarr(p, t.w // 8):
            a = s.arr(mem, p.r); o = s.sym(p.o); bs = [z3.Select(a, simp(o + bv(i, 64))) for i in range(t.w // 8)]
            return simp(z3.Concat(*bs[::-1])) if len(bs) > 1 else simp(bs[0])
        if isinstance(p, Ptr) and not isinstance(p.o, int): raise Unsupported('symbolic address in %s' % p.r)
        if t.k == 'vec' and t.e.k == 'int' and t.e.w < 32:
            n = s.mod.size(t.e); return [s.load(mem, Ptr(p.r, p.o + i * n), t.e) for i in range(t.n)]
        return super().load(mem, p, t)

    def store(s, mem, p, v, t):
        if isinstance(p, Ptr) and z3.is_bv(v) and s.isarr(p, v.size() // 8):
            a = s.arr(mem, p.r); o = s.sym(p.o)
            for i in range(v.size() // 8): a = z3.Store(a, simp(o + bv(i, 64)), simp(z3.Extract(8 * i + 7, 8 * i, v)))
            mem[(p.r, 'arr')] = s.rebase(p.r, a); return
        if isinstance(p, Ptr) and not isinstance(p.o, int): raise Unsupported('symbolic address in %s' % p.r)
        super().store(mem, p, v, t)

    def rebase(s, r, a):
        """a small local array written in full no longer depends on what it held"""
        n = s.alsize.get(r, 0)
        if not 0 < n <= 64 or not getattr(s, 'noarr', 0): return a
        w = {}; t = a
        while len(w) < n and z3.is_app_of(t, z3.Z3_OP_STORE) and is_c(t.arg(1)): w.setdefault(t.arg(1).as_long(), t.arg(2)); t = t.arg(0)
        if set(w) != set(range(n)): return a
        t = z3.Array('local:[]', z3.BitVecSort(64), z3.BitVecSort(8))
        for i in range(n): t = z3.Store(t, bv(i, 64), w[i])
        return t

    def storew(s, mem, r, o, v):
        if s.cut and r == s.cut[0] and not isinstance(v, Ptr) and v.size() % 32 == 0 and o % 4 == 0:
            for i in range(v.size() // 32):
                k = o + 4 * i; s.cut[1].append((k, simp(z3.Extract(32 * i + 31, 32 * i, v)))); mem[(r, k)] = z3.BitVec('cut@%d' % k, 32)
            return
        super().storew(mem, r, o, v)

    # ---- control
    def implied(s, c):
        so = z3.Solver(); so.set('timeout', 5000); so.add(*s.assume); so.add(z3.Not(c)); s.q += 1
        return so.check() == z3.unsat

    def branch(s, f, b, I, c):
        if (f.name, b) in s.force:
            k = s.force[(f.name, b)]; s.taken[(f.name, b)] = c if k == 0 else simp(z3.Not(c))
            return z3.BoolVal(k == 0)
        if z3.is_true(c) or z3.is_false(c) or not s.assume: return c
        if s.implied(c): return z3.BoolVal(True)
        if s.implied(z3.Not(c)): return z3.BoolVal(False)
        return c

    def loops(s, f, within=None):
        """loop headers in program order and the blocks of each loop (not counting an enclosing loop's own back edge)"""
        if within is None: bs, skip = set(f.blocks), None
        else: bs, skip = within
        order = []; seen = set(); st = []; heads = []

        def dfs(b):
            seen.add(b); st.append(b)
            for x in f.blocks[b].succs:
                if x not in bs or x == skip: continue
                if x in st:
                    if x not in heads: heads.append(x)
                elif x not in seen: dfs(x)
            st.pop()
        import sys
        sys.setrecursionlimit(10000)
        root = f.entry if within is None else None
        if root is not None: dfs(root)
        else:
            for x in f.blocks[skip].succs:
                if x in bs and x != skip and x not in seen: dfs(x)
        out = []
        for h in heads:
            def reach(g):
                r = set(); w = [h]
                while w:
                    b = w.pop()
                    for x in g(b):
                        if x in bs and x != skip and x not in r: r.add(x); w.append(x)
                return r
            pr = {}
            for b in f.blocks:
                for x in f.blocks[b].succs: pr.setdefault(x, []).append(b)
            fw, bw = reach(lambda b: f.blocks[b].succs), reach(lambda b: pr.get(b, []))
            out.append((h, (fw & bw) | {h}))
        # the header of a loop is the block it is entered by; others are nested
        top = [(h, L) for h, L in out if h == f.entry or any(h in f.blocks[b].succs and b not in L for b in f.blocks)]
        return sorted(top, key=lambda q: list(f.blocks).index(q[0]))

    def exits(s, f, L):
        """exit branches of loop L: (block, index of the successor that stays)"""
        r = []
        for b in L:
            I = f.blocks[b].ins[-1]
            if I.op == 'br' and I.a[0] is not None:
                i1, i2 = I.a[1] in L, I.a[2] in L
                if i1 != i2: r.append((b, 0 if i1 else 1))
            elif I.op not in ('br',) and any(x not in L for x in f.blocks[b].succs): raise Unsupported('loop leaves through ' + I.op)
        return r

    def upto(s, f, h, env, mem):
        """runs from the entry to loop header h; phis of h get their entry values"""
        r = s.go(f, f.entry, None, env, mem, h)
        if r[0] != 'at': raise Unsupported('loop not reached')
        return {I.res: s.phival(I, r[1], env) for I in f.blocks[h].phis}

    def first(s, f, env, mem):
        """runs from the entry to the first loop reached: header, blocks, entry values of its phis"""
        L = dict(s.loops(f)); s.heads = frozenset(L)
        try: r = s.go(f, f.entry, None, env, mem, s.heads)
        finally: s.heads = frozenset()
        if r[0] != 'at': raise Unsupported('no loop reached')
        return r[2], L[r[2]], {I.res: s.phival(I, r[1], env) for I in f.blocks[r[2]].phis}

    def body(s, f, h, L, env, mem, phis):
        """one iteration of loop (h, L) from phi values `phis`: phi values of the next iteration and the condition to continue"""
        ex = s.exits(f, L)
        if len(ex) != 1: raise Unsupported('%d exits' % len(ex))
        env.update(phis); s.force[(f.name, ex[0][0])] = ex[0][1]
        r = s.go(f, h, '@set', env, mem, h)
        del s.force[(f.name, ex[0][0])]
        if r[0] != 'at': raise Unsupported('loop body returns')
        return {I.res: s.phival(I, r[1], env) for I in f.blocks[h].phis}, s.taken[(f.name, ex[0][0])], ex[0][0] == h


BIN = {'add', 'sub', 'mul', 'shl', 'sdiv', 'udiv', 'srem', 'urem', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
LIBM = {}
for _n in ('acos', 'asin', 'atan', 'atan2', 'ceil', 'cos', 'cosh', 'exp', 'fabs', 'floor', 'fmod', 'log', 'log10', 'pow', 'sin', 'sinh', 'sqrt', 'tan', 'tanh', 'copysign'):
    LIBM[_n] = _n; LIBM[_n + 'f'] = _n


def rational(Z, t, env, memo):
    """value of a float term with rounded operations read as exact ones, at rational points (None: not such a term)"""
    k = t.get_id()
    if k in memo: return memo[k]
    n = t.decl().name(); kids = [t.arg(i) for i in range(t.num_args())]; r = None
    y = Z.neg_of(t)
    if y is not None:
        r = rational(Z, y, env, memo); r = None if r is None else -r
    elif z3.is_bv_value(t):
        v = struct.unpack('<f' if t.size() == 32 else '<d', struct.pack('<I' if t.size() == 32 else '<Q', t.as_long()))[0]
        r = Fraction(v)
    elif n[:4] in ('fadd', 'fmul', 'fdiv'):
        x, y = [rational(Z, q, env, memo) for q in kids]
        r = None if x is None or y is None else x + y if n[1] == 'a' else x * y if n[1] == 'm' else (x / y if y else None)
    elif n in ('fpext', 'fptrunc'): r = rational(Z, kids[0], env, memo)
    else: r = env(t)
    memo[k] = r
    return r


# ---------------------------------------------------------------- the compiled harness
def harness_so(src, cfg):
    import subprocess, hashlib, os
    from . import build
    pp = build._run(['g++', '-E', '-P'] + build.flags(cfg) + [src])
    out = os.path.join(build.CACHE, 'h' + hashlib.sha256(('%s|%s|' % (src, cfg) + pp).encode()).hexdigest() + '.so')
    if not os.path.exists(out):
        os.makedirs(build.CACHE, exist_ok=True)
        t = out + '.%d' % os.getpid()
        p = subprocess.run(['g++', '-O2', '-ffp-contract=off', '-fPIC', '-w', '-shared'] + build.flags(cfg) + [src, '-o', t, '-lm'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode: raise Unsupported('harness does not compile: ' + p.stderr[-500:])
        os.rename(t, out)
    return out


def symbols(so):
    import subprocess
    return subprocess.run(['nm', '-D', '--defined-only', so], stdout=subprocess.PIPE, text=True).stdout
