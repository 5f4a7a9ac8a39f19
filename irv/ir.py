"""Parser for the textual LLVM-18 IR produced from /repo's sources.

Only the subset clang emits for this code base is supported; anything else
raises Unsupported, which the driver reports as a tool limit (never as a
property violation)."""
import re, struct
from fractions import Fraction


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'n', 'e', 'f', 'name', 'packed')

    def __init__(s, k, w=0, n=0, e=None, f=None, name=None, packed=False):
        s.k, s.w, s.n, s.e, s.f, s.name, s.packed = k, w, n, e, f, name, packed

    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.w
        if s.k in ('arr', 'vec'): return '%s[%d x %r]' % (s.k, s.n, s.e)
        return s.name or s.k


VOID = Ty('void'); FLOAT = Ty('float', 32); DOUBLE = Ty('double', 64); PTR = Ty('ptr', 64)
LABEL = Ty('label'); META = Ty('meta'); X86FP80 = Ty('x86_fp80', 80); HALF = Ty('half', 16)
_ints = {}


def INT(w):
    if w not in _ints: _ints[w] = Ty('int', w)
    return _ints[w]


TOK = re.compile(r'''
   (?P<ws>\s+) | (?P<str>c?"[^"]*") | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<hexf>0x[KLMHR]?[0-9A-Fa-f]+) | (?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|-?\d+) | (?P<dots>\.\.\.)
 | (?P<meta>![-a-zA-Z$._0-9]*(?:"[^"]*")?) | (?P<attr>\#\d+) | (?P<id>[a-zA-Z$._][-a-zA-Z$._0-9]*) | (?P<p>[(){}\[\]<>,=*:;|^])
''', re.X)


def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m: raise Unsupported('token at %r' % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k == 'ws': continue
        if k == 'p' and m.group() == ';': break
        out.append((k, m.group()))
    return out


class Toks:
    def __init__(s, toks, mod):
        s.t = toks; s.i = 0; s.m = mod

    def peek(s, o=0):
        return s.t[s.i + o][1] if s.i + o < len(s.t) else None

    def kind(s, o=0):
        return s.t[s.i + o][0] if s.i + o < len(s.t) else None

    def next(s):
        v = s.t[s.i][1]; s.i += 1; return v

    def accept(s, v):
        if s.peek() == v:
            s.i += 1; return True
        return False

    def expect(s, v):
        if s.peek() != v: raise Unsupported('expected %r got %r in %r' % (v, s.peek(), ' '.join(x[1] for x in s.t)[:300]))
        s.i += 1

    def done(s):
        return s.i >= len(s.t)

    # ---- types
    def type(s):
        p = s.next()
        if p == 'void': t = VOID
        elif p == 'float': t = FLOAT
        elif p == 'double': t = DOUBLE
        elif p == 'x86_fp80': t = X86FP80
        elif p == 'half': t = HALF
        elif p == 'ptr':
            t = PTR
            if s.peek() == 'addrspace':
                s.i += 4
        elif p == 'label': t = LABEL
        elif p == 'metadata': t = META
        elif p == 'opaque': t = Ty('opaque')
        elif re.match(r'^i\d+$', p): t = INT(int(p[1:]))
        elif p == '[':
            n = int(s.next()); s.expect('x'); e = s.type(); s.expect(']'); t = Ty('arr', n=n, e=e)
        elif p == '<':
            if s.peek() == '{':
                s.next(); f = s._fields(); s.expect('>'); t = Ty('struct', f=f, packed=True)
            else:
                n = int(s.next()); s.expect('x'); e = s.type(); s.expect('>'); t = Ty('vec', n=n, e=e)
        elif p == '{':
            t = Ty('struct', f=s._fields())
        elif p[0] == '%':
            t = s.m.named(p)
        else:
            raise Unsupported('type %r' % p)
        while s.peek() == '(':   # function type
            d = 0
            while True:
                q = s.next()
                if q == '(': d += 1
                elif q == ')':
                    d -= 1
                    if d == 0: break
            t = Ty('fn', e=t)
        return t

    def _fields(s):
        f = []
        if s.accept('}'): return f
        while True:
            f.append(s.type())
            if s.accept('}'): return f
            s.expect(',')

    # ---- values -> ('loc',name) ('glob',name) ('c',ty,...)
    def value(s, ty):
        k, v = s.t[s.i]
        if k == 'loc': s.i += 1; return ('loc', v)
        if k == 'glob': s.i += 1; return ('glob', v)
        if k == 'num':
            s.i += 1
            if ty.k in ('float', 'double'): return ('f', fval(v, ty), ty)
            return ('i', int(v), ty)
        if k == 'hexf':
            s.i += 1
            return ('f', fval(v, ty), ty)
        if k == 'str':
            s.i += 1
            return ('str', v)
        if v in ('true', 'false'): s.i += 1; return ('i', 1 if v == 'true' else 0, ty)
        if v == 'null': s.i += 1; return ('null',)
        if v in ('undef', 'poison'): s.i += 1; return ('undef', ty)
        if v == 'zeroinitializer': s.i += 1; return ('zero', ty)
        if v == '<' :
            s.i += 1
            if s.peek() == '{':
                s.next(); out = s._elts('}'); s.expect('>'); return ('agg', out, ty)
            return ('agg', s._elts('>'), ty)
        if v == '[': s.i += 1; return ('agg', s._elts(']'), ty)
        if v == '{': s.i += 1; return ('agg', s._elts('}'), ty)
        if v in ('getelementptr',):
            s.i += 1; s.accept('inbounds'); s.expect('(')
            bt = s.type(); s.expect(','); pt = s.type(); base = s.value(pt); idx = []
            while s.accept(','):
                s.accept('inrange')
                it = s.type(); idx.append((it, s.value(it)))
            s.expect(')')
            return ('cgep', bt, base, idx)
        if v in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext', 'sext'):
            s.i += 1; s.expect('('); t0 = s.type(); x = s.value(t0); s.expect('to'); t1 = s.type(); s.expect(')')
            return ('ccast', v, t0, x, t1)
        if v in ('sub', 'add', 'mul', 'icmp', 'xor', 'and', 'or', 'shl'):
            s.i += 1
            while s.peek() != '(': s.i += 1
            s.expect('('); t0 = s.type(); a = s.value(t0); s.expect(','); t1 = s.type(); b = s.value(t1); s.expect(')')
            return ('cbin', v, t0, a, b)
        if v in ('dso_local_equivalent', 'no_cfi'):
            s.i += 1; return s.value(ty)
        raise Unsupported('value %r in %r' % (v, ' '.join(x[1] for x in s.t)[:200]))

    def _elts(s, close):
        out = []
        if s.accept(close): return out
        while True:
            t = s.type(); out.append((t, s.value(t)))
            if s.accept(close): return out
            s.expect(',')

    PATTR = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext',
             'returned', 'inreg', 'immarg', 'noreturn', 'swiftself', 'nofree', 'allocptr', 'allocalign', 'writable', 'dead_on_unwind'}

    def pattrs(s):
        """skip parameter attributes; returns a dict for byval/sret/signext..."""
        d = {}
        while True:
            p = s.peek()
            if p in s.PATTR:
                s.i += 1
                d[p] = True
                continue
            if p in ('byval', 'sret', 'elementtype', 'byref', 'preallocated', 'inalloca'):
                s.i += 1; s.expect('('); d[p] = s.type(); s.expect(')'); continue
            if p == 'align':
                s.i += 1
                if s.accept('('): s.next(); s.expect(')')
                else: s.next()
                continue
            if p in ('dereferenceable', 'dereferenceable_or_null', 'nofpclass', 'range', 'captures', 'initializes'):
                s.i += 1; s.expect('(')
                d2 = 1
                while d2:
                    q = s.next()
                    if q == '(': d2 += 1
                    elif q == ')': d2 -= 1
                continue
            if s.kind() == 'str':
                s.i += 1
                if s.accept('='): s.next()
                continue
            return d


def fval(v, ty):
    """constant -> Fraction or special string.  Hex floats are IEEE double bits."""
    if v.startswith('0x'):
        if v[2] in 'KLMHR': raise Unsupported('fp const ' + v)
        b = int(v[2:], 16)
        d = struct.unpack('<d', struct.pack('<Q', b))[0]
    else:
        d = float(v)
    if d != d: return 'nan'
    if d in (float('inf'), float('-inf')): return '+inf' if d > 0 else '-inf'
    if d == 0 and str(d)[0] == '-': return '-0'
    return Fraction(d)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'text')

    def __init__(s, op, res, ty, a, text):
        s.op, s.res, s.ty, s.a, s.text = op, res, ty, a, text

    def __repr__(s):
        return s.text


class Block:
    def __init__(s, name):
        s.name = name; s.ins = []; s.phis = []; s.preds = []; s.succs = []


class Fn:
    def __init__(s, name):
        s.name = name; s.params = []; s.blocks = {}; s.order = []; s.entry = None; s.rt = None; s.vararg = False
        s._loops = None


class Module:
    def __init__(s, text):
        s.types = {}; s.fns = {}; s.globals = {}; s.decls = {}
        s._raw = {}
        s._tycache = {}
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, r = l.split(' = type ', 1)
                s._raw[nm.strip()] = r
            elif l.startswith('@'):
                s._global(l)
            elif l.startswith('define'):
                j = i
                while lines[j] != '}': j += 1
                s._fn(lines[i:j])
                i = j
            elif l.startswith('declare'):
                m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', l)
                if m: s.decls[m.group(1)] = l
            i += 1

    def named(s, nm):
        if nm not in s.types:
            t = Ty('struct', f=[], name=nm); s.types[nm] = t
            raw = s._raw.get(nm)
            if raw is None or raw.strip() == 'opaque':
                t.k = 'opaque'
            else:
                u = Toks(tokenize(raw), s).type()
                t.k, t.f, t.packed, t.n, t.e, t.w = u.k, u.f, u.packed, u.n, u.e, u.w
        return s.types[nm]

    def struct(s, name):
        for c in ('%struct.' + name, '%class.' + name, '%"struct.' + name + '"', '%"class.' + name + '"', '%union.' + name):
            if c in s._raw: return s.named(c)
        raise KeyError(name)

    # layout
    def size(s, t):
        if t.k == 'int': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.w, (t.w + 7) // 8)
        if t.k == 'float': return 4
        if t.k == 'double' or t.k == 'ptr' or t.k == 'fn': return 8
        if t.k == 'x86_fp80': return 16
        if t.k == 'half': return 2
        if t.k in ('arr', 'vec'): return t.n * s.size(t.e)
        if t.k == 'struct':
            o, tot = s.layout(t); return tot
        raise Unsupported('size of %r' % t)

    def align(s, t):
        if t.k == 'arr': return s.align(t.e)
        if t.k == 'struct':
            if t.packed: return 1
            return max([s.align(x) for x in t.f] or [1])
        if t.k == 'int' and t.w == 128: return 16
        return s.size(t)

    def layout(s, t):
        c = s._tycache.get(id(t))
        if c: return c[0]
        o = 0; offs = []
        for x in t.f:
            if not t.packed:
                a = s.align(x); o = (o + a - 1) // a * a
            offs.append(o); o += s.size(x)
        if not t.packed:
            a = s.align(t); o = (o + a - 1) // a * a
        s._tycache[id(t)] = ((offs, o), t)
        return offs, o

    def _global(s, l):
        m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', l)
        nm, r = m.groups()
        t = Toks(tokenize(r), s)
        ext = False
        while True:
            p = t.peek()
            if p in ('global', 'constant'):
                const = p == 'constant'; t.next(); break
            if p == 'alias' or p is None: return
            if p == 'external' or p == 'extern_weak': ext = True
            t.i += 1
            if t.peek() == '(' :
                while t.next() != ')': pass
        ty = t.type()
        init = None
        if not ext and not t.done() and t.peek() != ',':
            try:
                init = t.value(ty)
            except Unsupported:
                init = None
        s.globals[nm] = (ty, init, const)

    def _fn(s, lines):
        head = lines[0]
        m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', head)
        nm = m.group(1)
        f = Fn(nm)
        tk = Toks(tokenize(head[:head.rindex('{')]), s)
        # return type: the tokens just before the name
        idx = next(i for i, x in enumerate(tk.t) if x[0] == 'glob' and x[1] == nm)
        LINK = {'define', 'dso_local', 'linkonce_odr', 'internal', 'private', 'weak_odr', 'weak', 'linkonce', 'hidden', 'protected', 'available_externally',
                'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'ccc', 'external', 'noinline'}
        j = 0
        while tk.t[j][1] in LINK: j += 1
        tk.i = j
        tk.pattrs()
        f.rt = tk.type()
        tk.i = idx + 1
        tk.expect('(')
        if not tk.accept(')'):
            while True:
                if tk.accept('...'):
                    f.vararg = True
                    tk.expect(')'); break
                ty = tk.type(); at = tk.pattrs()
                nmv = tk.next() if tk.kind() == 'loc' else '%' + str(len(f.params))
                f.params.append((ty, nmv, at))
                if tk.accept(')'): break
                tk.expect(',')
        f.lines = lines
        f.internal = ' internal ' in head or ' linkonce_odr ' in head
        s.fns[nm] = f

    def body(s, f):
        """parse lazily"""
        if f.order: return f
        cur = None
        first = str(len(f.params)) if not f.vararg else None
        for l in f.lines[1:]:
            if not l.strip(): continue
            m = re.match(r'^("[^"]*"|[-\w$.]+):', l)
            if m:
                cur = Block('%' + m.group(1)); f.blocks[cur.name] = cur; f.order.append(cur.name); continue
            if l.lstrip().startswith(';'): continue
            if cur is None:
                cur = Block('%entry'); f.blocks[cur.name] = cur; f.order.append(cur.name)
            if l.startswith('    ') or l.strip().startswith(']'):   # switch continuation
                cur.ins[-1] = cur.ins[-1] + ' ' + l.strip(); continue
            cur.ins.append(l)
        # the implicit entry label is the number after the parameters
        f.entry = f.order[0]
        for b in f.blocks.values():
            raw = b.ins; b.ins = []
            for l in raw:
                I = s._ins(l)
                if I.op == 'phi': b.phis.append(I)
                else: b.ins.append(I)
            t = b.ins[-1]
            if t.op == 'br': b.succs = [x for x in t.a[1:]] if t.a[0] is not None else [t.a[1]]
            elif t.op == 'switch': b.succs = [t.a[1]] + [x[1] for x in t.a[2]]
            elif t.op == 'invoke': b.succs = [t.a['to'], t.a['unwind']]
            else: b.succs = []
        # phi labels for the entry block use its implicit number
        impl = '%' + str(sum(1 for p in f.params))
        for b in f.blocks.values():
            for ph in b.phis:
                ph.a = [(v, (f.entry if (lab not in f.blocks and lab == impl) else lab)) for v, lab in ph.a]
        s.lower(f)
        for b in f.blocks.values():
            for x in b.succs: f.blocks[x].preds.append(b.name)
        return f

    def lower(s, f):
        """a switch that leaves a loop becomes a chain of branches"""
        if not any(b.ins[-1].op == 'switch' for b in f.blocks.values()): return

        def reach(n):
            seen = set(); st = list(f.blocks[n].succs)
            while st:
                x = st.pop()
                if x not in seen: seen.add(x); st += f.blocks[x].succs
            return seen
        R = {n: reach(n) for n in f.blocks}
        for n in list(f.order):
            b = f.blocks[n]; t = b.ins[-1]
            if t.op != 'switch' or n not in R[n] or not any(n not in R[x] for x in b.succs): continue
            v, d, cs = t.a; cur = b; b.ins.pop(); old = {}; at = f.order.index(n)
            for i, (cv, l) in enumerate(cs):
                c = '%%sw.%s.%d' % (n[1:], i); nxt = '%%swb.%s.%d' % (n[1:], i) if i + 1 < len(cs) else d
                cur.ins.append(Ins('icmp', c, t.ty, ('eq', v, cv), t.text)); cur.ins.append(Ins('br', None, VOID, (('loc', c), l, nxt), t.text))
                cur.succs = [l, nxt]; old.setdefault(l, []).append(cur.name)
                if nxt == d and i + 1 == len(cs): old.setdefault(d, []).append(cur.name)
                else: cur = Block(nxt); f.blocks[nxt] = cur; at += 1; f.order.insert(at, nxt)
            for l, ps in old.items():
                for ph in f.blocks[l].phis:
                    w = [q for q in ph.a if q[1] == n]
                    if w: ph.a = [q for q in ph.a if q[1] != n] + [(w[0][0], x) for x in dict.fromkeys(ps)]
        f.blocks = {n: f.blocks[n] for n in f.order}

    def _ins(s, l):
        # strip metadata / attribute tails lazily
        t = Toks(tokenize(l), s)
        res = None
        if t.kind() == 'loc' and t.peek(1) == '=':
            res = t.next(); t.next()
        op = t.next()
        txt = l.strip()
        FM = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
        if op in ('tail', 'musttail', 'notail'): op = t.next()
        if op in ('add', 'sub', 'mul', 'shl', 'sdiv', 'udiv', 'srem', 'urem', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while t.peek() in ('nsw', 'nuw', 'exact', 'disjoint') or t.peek() in FM: fl.add(t.next())
            ty = t.type(); a = t.value(ty); t.expect(','); b = t.value(ty)
            return Ins(op, res, ty, (a, b, fl), txt)
        if op == 'fneg':
            while t.peek() in FM: t.next()
            ty = t.type(); return Ins(op, res, ty, (t.value(ty),), txt)
        if op in ('icmp', 'fcmp'):
            while t.peek() in FM: t.next()
            pr = t.next(); ty = t.type(); a = t.value(ty); t.expect(','); b = t.value(ty)
            return Ins(op, res, ty, (pr, a, b), txt)
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            while t.peek() in ('nneg', 'nuw', 'nsw'): t.next()
            t0 = t.type(); a = t.value(t0); t.expect('to'); t1 = t.type()
            return Ins(op, res, t1, (t0, a), txt)
        if op == 'load':
            t.accept('volatile'); t.accept('atomic')
            ty = t.type(); t.expect(','); pt = t.type(); return Ins(op, res, ty, (t.value(pt),), txt)
        if op == 'store':
            t.accept('volatile'); t.accept('atomic')
            ty = t.type(); v = t.value(ty); t.expect(','); pt = t.type(); return Ins(op, None, ty, (v, t.value(pt)), txt)
        if op == 'getelementptr':
            while t.peek() in ('inbounds', 'nuw', 'nusw'): t.next()
            bt = t.type(); t.expect(','); pt = t.type(); base = t.value(pt); idx = []
            while t.accept(','):
                it = t.type(); idx.append((it, t.value(it)))
            return Ins(op, res, pt, (bt, base, idx), txt)
        if op == 'alloca':
            ty = t.type(); n = None
            if t.accept(','):
                if t.peek() != 'align':
                    it = t.type(); n = t.value(it)
            return Ins(op, res, PTR, (ty, n), txt)
        if op == 'phi':
            while t.peek() in FM: t.next()
            ty = t.type(); inc = []
            while True:
                t.expect('['); v = t.value(ty); t.expect(','); lab = t.next(); t.expect(']'); inc.append((v, lab))
                if not t.accept(','): break
            return Ins(op, res, ty, inc, txt)
        if op == 'select':
            while t.peek() in FM: t.next()
            ct = t.type(); c = t.value(ct); t.expect(','); ty = t.type(); a = t.value(ty); t.expect(','); t.type(); b = t.value(ty)
            return Ins(op, res, ty, (ct, c, a, b), txt)
        if op == 'br':
            if t.peek() == 'label':
                t.next(); return Ins(op, None, VOID, (None, t.next()), txt)
            ct = t.type(); c = t.value(ct); t.expect(','); t.expect('label'); a = t.next(); t.expect(','); t.expect('label'); b = t.next()
            return Ins(op, None, VOID, (c, a, b), txt)
        if op == 'switch':
            ty = t.type(); v = t.value(ty); t.expect(','); t.expect('label'); d = t.next(); t.expect('['); cs = []
            while not t.accept(']'):
                ct = t.type(); cv = t.value(ct); t.expect(','); t.expect('label'); cs.append((cv, t.next()))
            return Ins(op, None, ty, (v, d, cs), txt)
        if op == 'ret':
            ty = t.type(); return Ins(op, None, ty, (None if ty.k == 'void' else t.value(ty),), txt)
        if op == 'unreachable': return Ins(op, None, VOID, (), txt)
        if op in ('call', 'invoke'):
            while t.peek() in FM or t.peek() in ('fastcc', 'ccc'): t.next()
            t.pattrs()
            ty = t.type()
            if ty.k == 'fn': ty = ty.e
            if t.kind() == 'id' and t.peek() == 'asm':
                raise Unsupported('inline asm')
            callee = t.value(PTR)
            args = []
            t.expect('(')
            if not t.accept(')'):
                while True:
                    at = t.type()
                    if at.k == 'meta':
                        # skip metadata arg
                        d = 0
                        while not (d == 0 and t.peek() in (',', ')')):
                            q = t.next()
                            if q == '(': d += 1
                            if q == ')': d -= 1
                        args.append((at, ('undef', at), {}))
                    else:
                        pa = t.pattrs(); args.append((at, t.value(at), pa))
                    if t.accept(')'): break
                    t.expect(',')
            d = {'callee': callee, 'args': args}
            if op == 'invoke':
                while t.peek() != 'to': t.next()
                t.next(); t.expect('label'); d['to'] = t.next(); t.expect('unwind'); t.expect('label'); d['unwind'] = t.next()
            return Ins(op, res, ty, d, txt)
        if op == 'extractelement':
            vt = t.type(); v = t.value(vt); t.expect(','); it = t.type(); i = t.value(it)
            return Ins(op, res, vt.e, (v, i), txt)
        if op == 'insertelement':
            vt = t.type(); v = t.value(vt); t.expect(','); et = t.type(); e = t.value(et); t.expect(','); it = t.type(); i = t.value(it)
            return Ins(op, res, vt, (v, e, i), txt)
        if op == 'shufflevector':
            vt = t.type(); a = t.value(vt); t.expect(','); t.type(); b = t.value(vt); t.expect(','); mt = t.type(); m = t.value(mt)
            return Ins(op, res, Ty('vec', n=mt.n, e=vt.e), (vt, a, b, mt, m), txt)
        if op == 'extractvalue':
            at = t.type(); a = t.value(at); ix = []
            while t.accept(','):
                if t.kind() != 'num': break
                ix.append(int(t.next()))
            return Ins(op, res, None, (at, a, ix), txt)
        if op == 'insertvalue':
            at = t.type(); a = t.value(at); t.expect(','); et = t.type(); e = t.value(et); ix = []
            while t.accept(','):
                if t.kind() != 'num': break
                ix.append(int(t.next()))
            return Ins(op, res, at, (at, a, et, e, ix), txt)
        if op == 'freeze':
            ty = t.type(); return Ins(op, res, ty, (t.value(ty),), txt)
        if op in ('landingpad', 'resume', 'cleanupret'):
            return Ins(op, res, VOID, (), txt)
        if op in ('fence',):
            return Ins(op, None, VOID, (), txt)
        if op in ('cmpxchg', 'atomicrmw', 'va_arg'):
            return Ins(op, res, VOID, (), txt)
        raise Unsupported('instruction ' + txt)


# ---------------------------------------------------------------- CFG helpers
def loops(f):
    """natural loops: header -> set of blocks (back edges by dominance)"""
    if f._loops is not None: return f._loops
    order = rpo(f)
    idom = dominators(f, order)

    def dom(a, b):
        while b is not None:
            if a == b: return True
            b = idom.get(b) if b != f.entry else None
        return False
    L = {}
    for b in order:
        for s_ in f.blocks[b].succs:
            if dom(s_, b):
                body = L.setdefault(s_, {s_})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st += [p for p in f.blocks[x].preds if p in idom or p == f.entry]
    f._loops = L
    return L


def rpo(f):
    seen = set(); out = []
    st = [(f.entry, iter(f.blocks[f.entry].succs))]; seen.add(f.entry)
    while st:
        b, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x); st.append((x, iter(f.blocks[x].succs))); break
        else:
            out.append(b); st.pop()
    out.reverse()
    return out


def dominators(f, order):
    idx = {b: i for i, b in enumerate(order)}
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in f.blocks[b].preds:
                if p in idom:
                    if new is None: new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while idx[a] > idx[c]: a = idom[a]
                            while idx[c] > idx[a]: c = idom[c]
                        new = a
            if idom.get(b) != new: idom[b] = new; ch = True
    return idom


def postdom(f):
    """immediate post-dominators (virtual exit None)"""
    if getattr(f, '_ipd', None) is not None: return f._ipd
    EX = '%__exit__'
    succs = {b: list(f.blocks[b].succs) or [EX] for b in f.blocks}
    # blocks ending in unreachable do not count as exits (error paths)
    for b in f.blocks:
        if f.blocks[b].ins[-1].op == 'unreachable': succs[b] = []
    f._ipd = ipdom(succs, EX)
    return f._ipd


def ipdom(succs, EX):
    preds = {b: [] for b in succs}; preds[EX] = []
    for b, ss in succs.items():
        for x in ss: preds[x].append(b)
    seen = {EX}; out = []
    st = [(EX, iter(preds[EX]))]
    while st:
        b, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x); st.append((x, iter(preds[x]))); break
        else:
            out.append(b); st.pop()
    out.reverse()
    idx = {b: i for i, b in enumerate(out)}
    ip = {EX: EX}
    ch = True
    while ch:
        ch = False
        for b in out[1:]:
            new = None
            for p in succs[b]:
                if p in ip:
                    if new is None: new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while idx[a] > idx[c]: a = ip[a]
                            while idx[c] > idx[a]: c = ip[c]
                        new = a
            if ip.get(b) != new: ip[b] = new; ch = True
    return ip
