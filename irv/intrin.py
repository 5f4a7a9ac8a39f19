"""LLVM / SIMD / libm intrinsics."""
from . import terms as T
from .terms import P, F, B, Ptr, NULL, UNDEF, Bits, FromBits, Mask, ITE, Opq, C, ZERO, ONE, A, F0, F1, TRUE, FALSE
from .ir import Unsupported

MATH1 = {'sin', 'cos', 'tan', 'exp', 'log', 'floor', 'ceil', 'atan', 'asin', 'acos', 'tanh', 'log2', 'exp2', 'erf', 'erfc', 'log10', 'sinh', 'cosh', 'trunc', 'rint', 'round', 'cbrt', 'nearbyint'}
MATH2 = {'pow', 'atan2', 'fmod', 'fmin', 'fmax', 'copysign', 'hypot'}
SKIP = {'log_printf', '__cxa_atexit', 'srand', 'printf', 'puts', 'fflush', 'putchar'}


def vmap(f, *a):
    if isinstance(a[0], list): return [f(*x) for x in zip(*a)]
    return f(*a)


def intrinsic(E, st, nm, base, args, I):
    n = nm[1:].strip('"')
    if n.startswith('llvm.'):
        return llvm(E, st, n[5:], args, I)
    b = base
    if b.endswith('f') and b[:-1] in MATH1 | MATH2 | {'sqrt', 'fabs'}: b = b[:-1]
    if b.startswith('std::'): b = b[5:]
    if b == 'sqrt': return True, T.fsqrt(E.tof(args[0]))
    if b == 'fabs' or b == 'abs' and isinstance(args[0], F): return True, T.fabs_(E.tof(args[0]))
    if b in MATH1: return True, T.ffn(b, E.tof(args[0]))
    if b in MATH2:
        x, y = E.tof(args[0]), E.tof(args[1])
        if b == 'copysign': return True, T.copysign(x, y)
        if b in ('fmin', 'fmax'): return True, fminmax(b, x, y)
        return True, T.ffn(b, x, y)
    if b in SKIP: return True, ZERO
    if b in ('exit', 'abort', '_exit', '__assert_fail', '__clang_call_terminate', '_Unwind_Resume'):
        from .engine import Abort
        raise Abort()
    return False, None


def fminmax(b, x, y):
    c = T.bflt(x, y)
    return T.fite(c, x, y) if b == 'fmin' else T.fite(c, y, x)


def llvm(E, st, n, args, I):
    p = n.split('.')
    h = p[0]
    tof = E.tof
    if h == 'memcpy' or h == 'memmove':
        d, r, k = args[0], args[1], args[2]
        c = k.const() if isinstance(k, P) else None
        if c is None:
            E.memcpy_sym(st, d, r, k); return True, None
        E.copy(st, d, r, c)
        return True, None
    if h == 'memset':
        d, v, k = args[0], args[1], args[2]
        c = k.const()
        if not (isinstance(v, P) and v.const() is not None): raise Unsupported('memset value')
        if c is None:
            E.memset_sym(st, d, v, k); return True, None
        bv = v.const() & 255
        if not isinstance(d, Ptr): raise Unsupported('memset ptr')
        i = 0
        reg = E.regions[d.r]
        from .engine import SZ, _sgn
        while i < c:
            w = SZ[reg.kind(d.o + i)] if reg.dflt != 'uninit' else 4
            if w > c - i: w = c - i
            x = 0
            for j in range(w): x |= bv << (8 * j)
            E.store_raw(st, Ptr(d.r, d.o + i), C(_sgn(x, 8 * w)), w)
            i += w
        return True, None
    if h == 'fmuladd' or h == 'fma':
        f = lambda a, b, c: T.fadd(T.fmul(tof(a), tof(b)), tof(c))
        return True, vmap(f, args[0], args[1], args[2])
    if h == 'sqrt': return True, vmap(lambda a: T.fsqrt(tof(a)), args[0])
    if h == 'fabs': return True, vmap(lambda a: T.fabs_(tof(a)), args[0])
    if h == 'copysign': return True, vmap(lambda a, b: T.copysign(tof(a), tof(b)), args[0], args[1])
    if h in ('minnum', 'maxnum'): return True, vmap(lambda a, b: fminmax('f' + h[:3], tof(a), tof(b)), args[0], args[1])
    if h in MATH1: return True, vmap(lambda a: T.ffn(h, tof(a)), args[0])
    if h in MATH2: return True, vmap(lambda a, b: T.ffn(h, tof(a), tof(b)), args[0], args[1])
    if h == 'abs':
        a = E.toint(st, args[0])
        return True, a if E.need(st, T.ble(0, a)) else -a
    if h in ('smax', 'smin', 'umax', 'umin'):
        def mm(a, b):
            a = E.toint(st, a); b = E.toint(st, b)
            c = E.need(st, T.ble(a, b))
            return (b if c else a) if h.endswith('max') else (a if c else b)
        return True, vmap(mm, args[0], args[1])
    if h in ('trap', 'ubsantrap'):
        from .engine import Abort
        raise Abort()
    if h in ('expect', 'launder', 'strip'): return True, args[0]
    if h == 'va_start' or h == 'va_end': return True, None
    if h == 'is' and p[1] == 'constant': return True, FALSE
    if h == 'objectsize': return True, C(-1)
    if h == 'vector' and p[1] == 'reduce':
        v = args[-1]
        if p[2] in ('fadd', 'add'):
            r = args[0] if p[2] == 'fadd' else ZERO
            for x in v: r = T.fadd(r, x) if p[2] == 'fadd' else r + x
            return True, r
        if p[2] == 'or' or p[2] == 'and':
            r = v[0]
            for x in v[1:]: r = E.bin(st, p[2], r, x, I.ty)
            return True, r
    if h == 'x86':
        k = '.'.join(p[1:])
        if k in ('sse.rsqrt.ps', 'avx.rsqrt.ps.256', 'sse.rsqrt.ss'):
            E.note('rsqrt', 'hardware reciprocal-sqrt / reciprocal estimates are exact (Newton refinement over the reals)')
            return True, [T.fdiv(F1, T.fsqrt(tof(a))) for a in args[0]]
        if k in ('sse.rcp.ps', 'avx.rcp.ps.256', 'sse.rcp.ss'):
            E.note('rsqrt', 'hardware reciprocal-sqrt / reciprocal estimates are exact (Newton refinement over the reals)')
            return True, [T.fdiv(F1, tof(a)) for a in args[0]]
        if k in ('sse.movmsk.ps', 'avx.movmsk.ps.256'):
            cs = []
            for x in args[0]:
                y = x.v if isinstance(x, FromBits) else x
                if isinstance(y, Mask): cs.append(y.c)
                elif isinstance(y, P) and y.const() is not None: cs.append(T.bconst(y.const() < 0))
                elif isinstance(y, P): cs.append(T.blt(y, 0))
                elif isinstance(y, F): cs.append(T.bflt(y, F0))
                elif isinstance(y, ITE): cs.append(E.icmp(st, 'slt', y, ZERO))
                else: raise Unsupported('movmsk %r' % (y,))
            return True, Opq('movmsk', cs, 32)
        if k in ('sse41.blendvps', 'avx.blendv.ps.256'):
            out = []
            for a, b, m in zip(*args):
                y = m.v if isinstance(m, FromBits) else m
                if isinstance(y, Mask): c = y.c
                elif isinstance(y, P) and y.const() is not None: c = T.bconst(y.const() < 0)
                elif isinstance(y, F): c = T.bflt(y, F0)
                else: raise Unsupported('blendv %r' % (y,))
                out.append(E.sel(st, c, b, a))
            return True, out
        if k in ('sse.min.ps', 'sse.max.ps', 'avx.min.ps.256', 'avx.max.ps.256'):
            f = 'fmin' if 'min' in k else 'fmax'
            return True, [fminmax(f, tof(a), tof(b)) for a, b in zip(args[0], args[1])]
        if k in ('sse.cmp.ps', 'avx.cmp.ps.256'):
            pr = {0: 'oeq', 1: 'olt', 2: 'ole', 4: 'une', 5: 'uge', 6: 'ugt', 13: 'oge', 14: 'ogt', 17: 'olt', 18: 'ole', 30: 'ogt', 29: 'oge'}[args[2].const() if isinstance(args[2], P) else args[2]]
            return True, [FromBits(Mask(E.fcmp(pr, a, b), 32), 32) for a, b in zip(args[0], args[1])]
        if k in ('sse2.cvttps2dq', 'sse2.cvtps2dq', 'avx.cvtt.ps2dq.256', 'avx.cvt.ps2dq.256'):
            return True, [E.fptoi(st, tof(a)) for a in args[0]]
        raise Unsupported('intrinsic ' + k)
    if h in ('ctpop', 'ctlz', 'cttz', 'bswap', 'fshl', 'fshr', 'bitreverse'):
        a = args[0]
        if isinstance(a, P) and a.const() is not None and h == 'ctpop': return True, C(bin(a.const() % (1 << 64)).count('1'))
        raise Unsupported('intrinsic ' + h)
    if h in ('sadd', 'uadd', 'smul', 'umul', 'ssub', 'usub') and len(p) > 2 and p[1] == 'with':
        a, b = args[0], args[1]
        E.note('ovf', 'checked arithmetic does not overflow')
        r = a + b if h.endswith('add') else a * b if h.endswith('mul') else a - b
        return True, [r, FALSE]
    raise Unsupported('intrinsic llvm.' + n)
