"""Struct layouts of /repo's headers, extracted by the compiler on every run
(field offset, size, kind), so contracts speak in field names, not offsets."""
import re
from . import build
from .ir import Module

_cache = {}


def layout(cfg, headers, structs, pre=''):
    """structs: {name: [fields]} ; returns {name: {'#': size, field: offset}}"""
    key = (cfg, tuple(headers), repr(structs), pre)
    if key in _cache: return _cache[key]
    import os, hashlib
    src = '#include <stddef.h>\n' + pre + ''.join('#include "%s"\n' % h for h in headers)
    items = []
    for s, fs in structs.items():
        items.append((s, '#', 'sizeof(%s)' % s))
        for f in fs: items.append((s, f, f[1:] if f[0] == '=' else 'offsetof(%s,%s)' % (s, f)))     # '=expr': a constant of the headers
    src += 'extern "C" { extern const long IRV_OFF[]; const long IRV_OFF[] = {%s}; }\n' % ','.join('(long)' + x[2] for x in items)
    d = os.path.join(build.CACHE, 'lay'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, hashlib.sha256(src.encode()).hexdigest()[:24] + '.cc')
    if not os.path.exists(p):
        open(p + '.%d' % os.getpid(), 'w').write(src); os.rename(p + '.%d' % os.getpid(), p)
    t = build.compile_ir(p, cfg, extra=('-I' + build.REPO + '/src/field_advance/standard', '-Wno-invalid-offsetof'))
    m = re.search(r'@IRV_OFF = .*?\[(\d+) x i64\] (?:\[(.*?)\]|zeroinitializer)', t)
    vals = [int(x.replace('i64', '')) for x in m.group(2).split(',')]
    out = {}
    for (s, f, _), v in zip(items, vals): out.setdefault(s, {})[f] = v
    _cache[key] = out
    return out


GRID_F = ('dt cvac eps0 step t0 x0 y0 z0 x1 y1 z1 nx ny nz dx dy dz dV rdx rdy rdz r8V sx sy sz nv bc range neighbor rangel rangeh mp').split()
FIELD_F = ('ex ey ez div_e_err cbx cby cbz div_b_err tcax tcay tcaz rhob jfx jfy jfz rhof ematx ematy ematz nmat fmatx fmaty fmatz cmat').split()
