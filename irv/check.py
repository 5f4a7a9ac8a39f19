#!/usr/bin/env python3-vt
"""Run the contracts of one property against /repo's current source.

Every contract is discharged without bound where the verifier can; where it cannot,
the same contract is discharged for stated concrete sizes (bounded); a refuted
obligation is replayed on the compiled real code."""
import sys, os, re, json, time, importlib, traceback, glob, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from irv.ir import Unsupported

from irv.reg import REG, Contract, contract


def load(prop=None):
    d = os.path.join(VERIF, 'contracts')
    sys.path.insert(0, d)
    for f in sorted(glob.glob(d + '/c_*.py')):
        importlib.import_module(os.path.basename(f)[:-3])


def run_body(c, mode, dims=None, Pn=None, seed=1, variant=None):
    from irv import ctx, native
    if mode == 'native':
        X = native.NCtx(c.cfg, c.src, dims=dims, extra_src=c.extra_src, opts=c.opts, Pn=Pn or 2, seed=seed); X.nlink = list(c.native_link)
    else:
        X = ctx.Ctx(c.cfg, c.src, dims=dims, extra_src=c.extra_src, opts=c.opts, Pn=Pn or 2)
    try:
        for v in [variant]:
            if isinstance(v, tuple): X.part = v; v = None
            if v is not None: X.setdims(v); X.reset()
            k = len(X.obs)
            c.body(X)
            if v: X.obs[k:] = [('%s [mesh %s]' % (o[0], {'2': '>=2 cells'}.get(v, v + '=1 cell')),) + tuple(o[1:]) for o in X.obs[k:]]
    except ctx.Mismatch as m: X.obs.append(('contract', 'refuted', str(m)[:1500]))
    except ctx.Undecided as m: X.obs.append(('contract', 'unsupported', str(m)[:600]))
    except Unsupported as m: X.obs.append(('contract', 'unsupported', str(m)[:600]))
    except ctx.Split as m: X.obs.append(('contract', 'unsupported', 'undecided %r' % (m.b,)))
    except Exception as m:
        X.obs.append(('contract', 'unsupported', 'tool limit: ' + traceback.format_exc()[-900:]))
    if not X.obs: X.obs.append(('contract', 'unsupported', 'no obligations generated'))
    from irv import solver
    return {'obs': X.obs, 'notes': dict(X.E.notes), 'q': solver.STATS['queries'], 'qt': solver.STATS['time'],
            'native_values': getattr(X, 'record', None)}


def irkey(c):
    import hashlib
    from irv import build
    h = hashlib.sha256()
    for x in [c.src] + list(c.extra_src):
        if not x: continue
        t = build.compile_ir(x, c.cfg)
        t = re.sub(r'!\w+ = .*|^(source_filename|target|; ModuleID|attributes).*|, !.*|#\d+', '', t, flags=re.M)
        t = re.sub(r'_Z\d+', '_Z', t); t = re.sub(r'_v(4|8|16)(?=P13pipeline_args|\b)', '_vN', t)
        h.update(t.encode())
    return h.hexdigest() + ('omp' if 'omp' in c.cfg else '')


def stage(c, mode, dims, Pn, seed, variant, q):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
        q.send(run_body(c, mode, dims, Pn, seed, variant))
    except BaseException as e:
        try: q.send({'obs': [('contract', 'unsupported', 'tool failure: %s' % traceback.format_exc()[-900:])], 'notes': {}, 'q': 0, 'qt': 0, 'native_values': None})
        except BaseException: pass
    q.close()
    os._exit(0)


class Job:
    def __init__(s, c, mode, dims, Pn, seed, limit, variant=None):
        import multiprocessing as mp
        s.c, s.mode, s.dims, s.Pn, s.seed = c, mode, dims, Pn, seed
        s.t0 = time.time(); s.limit = limit
        s.r, w = mp.Pipe(False)
        s.p = mp.Process(target=stage, args=(c, mode, dims, Pn, seed, variant, w)); s.p.start(); w.close()

    def poll(s):
        if s.r.poll(0):
            try: d = s.r.recv()
            except EOFError: d = {'obs': [('contract', 'unsupported', 'worker ended without a result')], 'notes': {}, 'q': 0, 'qt': 0, 'native_values': None}
            s.p.join(); d['wall'] = time.time() - s.t0; return d
        if not s.p.is_alive() and not s.r.poll(0):
            return {'obs': [('contract', 'unsupported', 'worker ended without a result')], 'notes': {}, 'q': 0, 'qt': 0, 'wall': time.time() - s.t0, 'native_values': None}
        if time.time() - s.t0 > s.limit:
            s.p.kill(); s.p.join()
            return {'obs': [('contract', 'unsupported', 'time limit of %d s' % s.limit)], 'notes': {}, 'q': 0, 'qt': 0, 'wall': time.time() - s.t0, 'native_values': None}
        return None


def status(d):
    st = [o[1] for o in d['obs']]
    if 'refuted' in st: return 'refuted'
    if 'unsupported' in st: return 'unsupported'
    return 'ok'


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('--cfg'); ap.add_argument('-v', action='store_true'); ap.add_argument('--mode'); ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--noevidence', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time(); total = 800 if a.tier == 'quick' else 7200
    load()
    cs = REG.get(a.prop, [])
    if a.only: cs = [c for c in cs if a.only in c.name]
    if a.cfg: cs = [c for c in cs if c.cfg == a.cfg]
    if a.tier == 'quick': cs = [c for c in cs if c.quick]
    if not cs: print('no contracts for', a.prop); return 2
    from irv import build
    # build IR in parallel first (shared cache on disk)
    import concurrent.futures as cf
    srcs = {(x, c.cfg) for c in cs for x in [c.src] + list(c.extra_src) if x}
    errs = []
    with cf.ThreadPoolExecutor(8) as ex:
        fs = {ex.submit(build.compile_ir, s, c): (s, c) for s, c in srcs}
        for f in cf.as_completed(fs):
            try: f.result()
            except build.BuildError as e: errs.append((fs[f], str(e)[-1500:]))
    if errs:
        print('source does not compile to IR:', errs[0]); 
    # contracts whose module IR is identical up to the vector suffix of pipeline names are discharged once
    rep = {}; same = {}
    for c in cs:
        if not c.proof or errs: continue
        k = (c.name, str(sorted((k, str(v)) for k, v in c.opts.items())), irkey(c))
        if k in rep: same[c.id] = rep[k]
        else: rep[k] = c.id
    res = {c.id: {'c': c, 'proof': None, 'bounded': [], 'native': []} for c in cs}
    base = 240 if a.tier == 'quick' else 900
    todo = []
    def jobs_bounded(c): return [(c, 'bounded', d, p, 1, c.tlimit or base, None) for d in c.dims for p in c.Pn]
    def jobs_proof(c): return [(c, 'proof', None, None, 1, c.tlimit or base, v) for v in ([(i, c.opts['parts']) for i in range(c.opts['parts'])] if 'parts' in c.opts else c.opts.get('variants') or [None])]
    def jobs_native(c): return [(c, 'native', d, p, seed, 120, None) for d in (c.native_dims or [None]) for p in c.Pn for seed in (1, 2)]

    def jobs_wide(c):
        ds = c.opts.get('wide') or (WIDE if c.opts.get('variants') or c.opts.get('parts') else c.native_dims or [None])
        return [(c, 'native', d, p, 1, 120, None) for d in ds for p in c.Pn]

    pend = {}; todo = []

    def push(c, js, front=False):
        pend[c.id] = pend.get(c.id, 0) + len(js)
        todo.extend(js)
        todo.sort(key=lambda t: ({'native': 0, 'bounded': 1, 'proof': 2}[t[1]], -t[0].opts.get('weight', 1)))

    for c in cs:
        if a.mode: push(c, {'proof': jobs_proof, 'bounded': jobs_bounded, 'native': jobs_native}[a.mode](c))
        elif c.bounded and c.dims: push(c, jobs_bounded(c))
        elif c.proof: push(c, jobs_proof(c))
        if not pend.get(c.id): pend[c.id] = 0
    run = []

    def merge(x, y):
        if x is None: return y
        x['obs'] = x['obs'] + y['obs']; x['notes'].update(y['notes'])
        for k in ('q', 'qt', 'wall'): x[k] += y[k]
        return x

    def after(c):
        """next stage once all jobs of c have finished"""
        r = res[c.id]
        if a.mode: return
        b = [status(x) for x in r['bounded']]
        if 'refuted' not in b and c.proof and not r.get('p') and r['proof'] is None:
            r['p'] = 1
            if c.id in same: return
            if a.tier == 'quick' and c.cfg not in c.qproof: 
                r.setdefault('late', []).append('proof')
                if b: return
            else: push(c, jobs_proof(c)); return
        ps = status(r['proof']) if r['proof'] else None
        need = 'refuted' in b or ('unsupported' in b and ps != 'ok') or (not b and ps != 'ok')
        if c.native and not r.get('n') and (need or ps == 'refuted'):
            r['n'] = 1; push(c, jobs_native(c) if need else jobs_wide(c))

    while todo or run:
        while todo and len(run) < a.j:
            c, mode, d, p, seed, lim, vr = todo.pop(0)
            left = total - (time.time() - t0)
            if left < 5:
                res[c.id].setdefault('late', []).append(mode); pend[c.id] -= 1
                if pend[c.id] == 0 and mode != 'native': after(c)
                continue
            run.append(Job(c, mode, d, p, seed, min(lim, max(5, left - (90 if mode == "proof" else 0))), vr))
        time.sleep(0.01)
        for j in list(run):
            d = j.poll()
            if d is None: continue
            run.remove(j)
            d['dims'], d['Pn'], d['seed'] = j.dims, j.Pn, j.seed
            r = res[j.c.id]
            if j.mode == 'proof': r['proof'] = merge(r['proof'], d)
            else: r[j.mode].append(d)
            if a.v:
                print('%-60s %-8s %-12s %6.1fs %s %s' % (j.c.id, j.mode, status(d), d['wall'], j.dims or '', j.Pn or ''))
                for o in d['obs']:
                    if o[1] != 'ok': print('     ', o[1], o[0], '\n         ', (o[2] if os.environ.get('FULL') else o[2][:int(os.environ.get('W', '500'))]).replace('\n', '\n          '))
                sys.stdout.flush()
            pend[j.c.id] -= 1
            if pend[j.c.id] == 0: after(j.c)
    for c in cs:
        m = same.get(c.id)
        if m and res[c.id]['proof'] is None and res[m]['proof'] and 'proof' not in res[m].get('late', ()):
            res[c.id]['proof'] = dict(res[m]['proof'], q=0, qt=0, same=m)
    return report(a, cs, res, t0, errs)


def report(a, cs, res, t0, errs):
    known = []
    kf = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith('property=%s ' % a.prop): known.append(l.split(' ', 2)[1:])
    nob = ndis = 0; proved = []; bnd = []; und = []; viol = []; notes = {}; q = 0; qt = 0.0; nref = []
    for c in cs:
        r = res[c.id]; P = r['proof']
        for x in [P] + r['bounded'] + r['native']:
            if x: notes.update(x['notes']); q += x['q']; qt += x['qt']
        if P:
            if 'same' not in P: nob += len(P['obs']); ndis += sum(o[1] == 'ok' for o in P['obs'])
        ps = status(P) if P else None
        bs = [status(x) for x in r['bounded']]; ns = [status(x) for x in r['native']]
        if ps == 'ok' and 'proof' not in r.get('late', ()) and 'refuted' not in bs: proved.append((c, len(P['obs']))); continue
        if not P:
            for x in r['bounded']: nob += len(x['obs']); ndis += sum(o[1] == 'ok' for o in x['obs'])
        nat = [x for x in r['native'] if status(x) == 'refuted']
        if nat:
            o = [o for o in nat[0]['obs'] if o[1] == 'refuted'][0]
            src = [o2 for x in [P] + r['bounded'] if x for o2 in x['obs'] if o2[1] == 'refuted']
            viol.append((c, 'native', o, nat[0], src)); continue
        refb = [x for x in r['bounded'] if status(x) == 'refuted']
        if refb or (ps == 'refuted' and not (c.bounded and bs and all(b == 'ok' for b in bs))):
            x = refb[0] if refb else P
            o = [o for o in x['obs'] if o[1] == 'refuted'][0]
            # refuted symbolically although the compiled code agrees on every replayed input
            viol.append((c, 'obligation', o, x, [])); continue
        why = [o for o in (P['obs'] if P else []) if o[1] != 'ok'] or [o for x in r['bounded'] for o in x['obs'] if o[1] != 'ok']
        if bs and all(b == 'ok' for b in bs):
            bnd.append((c, [(x['dims'], x['Pn'], len(x['obs'])) for x in r['bounded']], why[:1]))
        else: und.append((c, why[:2], r.get('late')))
        if not P and 'proof' in r.get('late', ()) and bs and all(b == 'ok' for b in bs): bnd[-1][2].append(('proof', 'not attempted', 'left to the thorough tier'))
    rc = 0; vids = []
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    viol.sort(key=lambda v: v[1] != 'native')
    for c, kind, o, x, src in viol:
        key = '%s:%s' % (c.id, o[0])
        k = [f for f in known if f[0] == key]
        if k: print('KNOWN-FINDING: property=%s %s' % (a.prop, ' '.join(k[0]))); continue
        p = os.path.join(VERIF, 'replay', '%s_%s_%s.json' % (a.prop, re.sub(r'[^\w.-]+', '_', c.name), c.cfg))
        json.dump({'property': a.prop, 'function': c.name, 'configuration': c.cfg, 'source': c.src, 'obligation': o[0], 'verifier_output': o[2],
                   'kind': kind, 'sizes': x.get('dims'), 'pipelines': x.get('Pn'), 'seed': x.get('seed'), 'failing_input': x.get('native_values'), 'failed_obligations': [list(y) for y in src][:20],
                   'rerun': 'python3-vt irv/check.py %s --only %s --cfg %s --mode %s -v' % (a.prop, c.name, c.cfg, 'native' if kind == 'native' else 'proof')}, open(p, 'w'), indent=1, default=str)
        vids.append(key)
        if len(vids) <= 12:
            print('failed obligation %s: %s' % (key, o[2][:400].replace('\n', ' | ')))
            # one line per failing input; an obligation without one is a line of its own only when no input was found at all
            if kind == 'native' or viol[0][1] != 'native': print('VIOLATION property=%s replay=%s%s' % (a.prop, p, '' if kind == 'native' else ' no-failing-input-found'))
        rc = 1
    ev = {'property': a.prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
          'level': level(a.prop, 'proof' if not bnd and not und and proved else 'other'),
          'coverage': {'explanation': '%d function contracts (function x build configuration): %d discharged for all inputs and iterations, %d for the stated concrete sizes only (bounded, not counted as proved), %d undecided, %d violated' % (len(cs), len(proved), len(bnd), len(und), len(viol)),
                       'violated': vids,'obligations': nob, 'discharged': ndis, 'solver': 'IR-level symbolic executor + z3 (QF_LIA) + polynomial identity', 'solver_queries': q, 'solver_time_s': round(qt, 2),
                       'checker_cmd': 'python3-vt irv/check.py %s' % a.prop,
                       'functions_under_contract': len(cs),
                       'proved': ['%s (%d obligations%s)' % (c.id, n, ', on IR identical to %s' % res[c.id]['proof']['same'] if 'same' in res[c.id]['proof'] else '') for c, n in proved],
                       'bounded': [{'function': c.id, 'sizes': [str(s) for s in ss], 'why_not_proved': [list(w)[:3] for w in why]} for c, ss, why in bnd],
                       'undecided': [{'function': c.id, 'why': [list(w) for w in why], 'not_run': late} for c, why, late in und],
                       'trusted_base': sorted(set(notes.values())) + TRUST},
          'assumptions': (BITS if a.prop == 'V01' else BITS[:1] + RNG if a.prop == 'R01' else TRACE if a.prop in TRACED else ASSUME) + sorted(set(notes.values())),
          'wall_s': round(time.time() - t0, 1), 'violations': len(vids)}
    if not a.noevidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d contracts: %d proved, %d bounded, %d undecided, %d violated; %d/%d obligations; %d queries %.1fs; wall %.1fs' % (a.prop, len(cs), len(proved), len(bnd), len(und), len(viol), ndis, nob, q, qt, time.time() - t0))
    for c, why, late in und: print('  undecided: %s %s' % (c.id, [(w[0], w[2][:300]) for w in why]))
    for c, ss, why in bnd: print('  bounded:   %s %s' % (c.id, [(w[0], w[2][:300]) for w in why]))
    return rc


def level(prop, dflt):
    try:
        for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']:
            if c['property'] == prop: return c['level']
    except Exception: pass
    return dflt


WIDE = [(a, b, c) for a in (1, 2, 3) for b in (1, 2, 4) for c in (1, 2, 5)] + [(17, 3, 2), (7, 6, 5), (2, 16, 3)]   # meshes tried natively when only the unbounded proof fails

TRUST = ['clang 18 front end and the scalar cleanup passes of opt (sroa, early-cse, inlining, simplifycfg, adce)', 'this verifier (irv/) and z3 5.3']
BITS = ['floating-point operations are uninterpreted functions of their operand bits, except comparison, negation, absolute value and sign copying, which are exact', 'shuffles with template arguments are covered for the instantiations of the harness', 'the sign of a zero from unary minus and the order of the products in trilinear are not compared']
RNG = ['termination of rejection loops is not proved', 'exp, log and the normal tables are uninterpreted', 'numbers of elements and strides up to 2^29 for shuffle']
TRACED = ('U01', 'I01', 'B01', 'F07', 'G01', 'G02', 'C01', 'K01', 'P05', 'P03')
TRACE = ['floating-point operations are uninterpreted functions of their operand bits', 'called functions are represented by their name, arguments and the memory they see; they do not change control parameters or lists', 'distinct pointers of the state are distinct allocations', 'log messages and timers are not compared', 'termination of loops is not proved']
ASSUME = ['floating-point arithmetic is treated as real arithmetic (round-off is outside the contracts)', 'integer arithmetic does not wrap', 'distinct arguments of a contract are distinct allocations unless stated']

if __name__ == '__main__':
    sys.exit(main())
