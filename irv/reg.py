"""Registry of contracts: property -> function contracts, per build configuration."""
REG = {}     # property -> [Contract]


class Contract:
    def __init__(s, prop, name, body, src, cfg, dims=(), extra_src=(), opts=None, native=True, proof=True, bounded=True, Pn=(2,), native_dims=None, tlimit=None, quick=True, native_link=None, native_cfgs=None, qproof=('ref', 'v4sse', 'v8omp')):
        s.qproof = qproof
        s.prop = prop; s.name = name; s.body = body; s.src = src; s.cfg = cfg; s.dims = dims; s.extra_src = extra_src
        s.opts = opts or {}; s.native = native; s.proof = proof; s.bounded = bounded; s.Pn = Pn
        s.native_dims = native_dims or dims; s.tlimit = tlimit; s.quick = quick
        s.native_link = (native_link or {}).get(cfg, (native_link or {}).get('*', ())); s.native = native and (native_cfgs is None or cfg in native_cfgs)

    @property
    def id(s): return '%s@%s' % (s.name, s.cfg)


def contract(prop, name, src, cfgs=('ref',), **kw):
    """decorator: body(X) builds the pre-state, runs the function, states the obligations"""
    def d(body):
        for c in cfgs: REG.setdefault(prop, []).append(Contract(prop, name, body, src, c, **kw))
        return body
    return d


