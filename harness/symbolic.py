"""Conformance of the symbolic pipeline (spec/Indirect.tla): necessary conditions, control law, inequality
constraints, quantities and switches, analytical Jacobians."""
import json
import os
import time
import zlib

import numpy as np

import problems
import vlib
from trees import value

FAMILY = {'C07': 'plain', 'C08': 'algebraic', 'C09': 'ineq', 'C10': 'abbrev', 'C22': 'calls'}
QUICK = {'C07': 60, 'C08': 12, 'C09': 60, 'C10': 60, 'C22': 24}
DEEP = {'C07': 240, 'C08': 120, 'C09': 200, 'C10': 200, 'C22': 160}
NPTS = 6
Q = 1e-9


def quant(err):
    return int(min(max(err, 0) / Q, 2e9)) if np.isfinite(err) else 2000000000


def rel(got, exp, scale=None):
    """Largest relative deviation over the points where the expectation is finite and moderate."""
    got, exp = np.asarray(got, dtype=float), np.asarray(exp, dtype=float) + 0 * np.asarray(got, dtype=float)
    ok = np.isfinite(exp) & (np.abs(exp) < 1e8)
    if not ok.any():
        return 0.0
    s = 1 + np.abs(exp) + (0 if scale is None else scale)
    with np.errstate(all='ignore'):
        d = np.abs(got - exp) / s
    return float(np.max(np.where(np.isfinite(d), d, 1e3)[ok]))


def excess(h, h2):
    d = (h - h2) / (1 + np.abs(h))
    return float(np.max(np.where(np.isfinite(h), d, 1e3)))


def points(cap, prob, rng, npts=NPTS):
    """Random arguments of the BVP functions."""
    k = np.array(cap.const, dtype=float)
    pts = []
    for _ in range(npts):
        y0 = rng.uniform(0.2, 1.8, len(cap.states)) * rng.choice([1, 1, -1], len(cap.states))
        yf = rng.uniform(0.2, 1.8, len(cap.states)) * rng.choice([1, 1, -1], len(cap.states))
        par = rng.uniform(0.5, 2, len(cap.params))
        nu = rng.uniform(-2, 2, len(cap.nus))
        for n, (a, b) in ((prob or {}).get('rng') or {}).items():
            y0[cap.states.index(n)], yf[cap.states.index(n)] = rng.uniform(a, b, 2)
        kk = k * rng.uniform(0.9, 1.1, len(k)) if len(k) else k
        q = rng.uniform(0.2, 1.8, (2, len(cap.quads))) if len(cap.quads) else (None, None)
        pts.append((y0, yf, par, nu, kk, q[0], q[1]))
    return pts


def bcs(cap, y0, yf, par, nu, k, q0=None, qf=None):
    args = (y0, yf, par, nu, k) if q0 is None else (y0, q0, yf, qf, par, nu, k)
    return np.array(cap.bc(*args), dtype=float).ravel()


def rename(cap, b):
    """The unknown momenta and the quadratures of a reduced problem, by the state they belong to."""
    cyc = [q['name'] for q in b['quads']]
    if cyc and len(cap.params) == 1 + len(cyc) and len(cap.quads) == len(cyc):
        cap.params = cap.params[:1] + ['com:' + x for x in cyc]
        cap.quads = ['q:' + x for x in cyc]


def env_of(cap, ys, pts, end=0):
    env = {}
    for i, n in enumerate(cap.quads):
        env[n] = np.array([q[5 + end][i] for q in pts])
    for i, n in enumerate(cap.states):
        env[n] = np.array([y[i] for y in ys])
    for i, n in enumerate(cap.params):
        env[n] = np.array([q[2][i] for q in pts])
    for i, n in enumerate(cap.nus):
        env[n] = np.array([q[3][i] for q in pts])
    for i, n in enumerate(cap.consts):
        env[n] = np.array([q[4][i] for q in pts])
    return env


def real(u):
    u = np.atleast_1d(np.array(u))
    return np.where(np.abs(u.imag) == 0, u.real, np.nan) if np.iscomplexobj(u) else u.astype(float)


def add_controls(cap, env, ys, pts):
    if cap.compute_u is not None:
        us = [real(cap.compute_u(y, q[2], q[4])) for y, q in zip(ys, pts)]
        for i, n in enumerate(cap.controls):
            env[n] = np.array([u[i] for u in us])


def evaluate(cap, b, prob, cfg, rng, emit):
    npts = NPTS if cfg['control'] == 'differential' else 4 * NPTS       # every candidate has its turn
    pts = points(cap, prob, rng, npts)
    y0s, yfs = [q[0] for q in pts], [q[1] for q in pts]
    rename(cap, b)
    coarse = 100 if prob.get('fns') else 1       # derivatives of custom functions are finite differences
    item = lambda name, err: emit(ev='item', name=name, err=quant(err / coarse))
    emit(ev='shape', states=sorted(cap.states), params=sorted(cap.params), nus=sorted(cap.nus), quads=len(cap.quads),
         consts=sorted(cap.consts))
    exp_states = [r['name'] for r in b['rates']]
    if sorted(exp_states) != sorted(cap.states) or sorted(b['nus']) != sorted(cap.nus) or b['params'] != cap.params:
        return                      # the shape event already tells; nothing can be matched by name
    env0, envf = env_of(cap, y0s, pts), env_of(cap, yfs, pts, 1)
    if prob.get('fns'):
        import fnlib
        env0['fns'] = envf['fns'] = fnlib.exact(prob['fns'])
    add_controls(cap, env0, y0s, pts)
    add_controls(cap, envf, yfs, pts)
    got = np.array([np.array(cap.deriv(q[0], q[2], q[4]), dtype=float).ravel() for q in pts])
    # control law
    for en, ys in ((env0, y0s), (envf, yfs)):
        g = np.array([np.array(cap.deriv(y, q[2], q[4]), dtype=float).ravel() for y, q in zip(ys, pts)])
        if cfg['control'] == 'differential':
            m = len(b['controls'])
            z = np.zeros(npts)
            base = {**en, **{'dot:' + u: z for u in b['controls']}}
            b0 = np.array([value(l['e'], base) + z for l in b['laws']])
            A = np.zeros((m, m, npts))
            for j, u in enumerate(b['controls']):
                e1 = {**base, 'dot:' + u: z + 1}
                A[:, j] = np.array([value(l['e'], e1) + z for l in b['laws']]) - b0
            dots = np.full((m, npts), np.nan)
            for i in range(npts):
                a = A[:, :, i]
                if np.all(np.isfinite(a)) and np.all(np.isfinite(b0[:, i])) and np.linalg.cond(a) < 1e5 \
                        and np.max(np.abs(a)) > 1e-4:
                    dots[:, i] = np.linalg.solve(a, -b0[:, i])
            for j, u in enumerate(b['controls']):
                have = g[:, cap.states.index(u)] / en[b['delta']]
                en['dot:' + u] = have
                if en is env0:
                    item('law ' + u, rel(have, dots[j]))
        elif en is env0:
            for l in b['laws']:
                item(l['name'], rel(value(l['e'], en) + np.zeros(npts), np.zeros(npts)))
            # minimum over a grid of controls
            h = value(b['ham'], en) + np.zeros(npts)
            worst = 0.0
            for u in b['controls']:
                for d in np.linspace(-7, 7, 141):
                    h2 = value(b['ham'], {**en, u: en[u] * 0 + d})
                    worst = max(worst, excess(h, h2))
            for _ in range(200):
                e2 = {**en, **{u: rng.uniform(-6, 6, npts) for u in b['controls']}}
                worst = max(worst, excess(h, value(b['ham'], e2)))
            item('minimum', worst)
    for i, r in enumerate(b['rates']):
        item('rate ' + r['name'], rel(got[:, cap.states.index(r['name'])], value(r['e'], env0) + np.zeros(npts)))
    if b['quads']:
        gq = np.array([np.array(cap.quad(q[0], q[2], q[4]), dtype=float).ravel() for q in pts])
        for i, r in enumerate(b['quads']):
            item('quad ' + r['name'], rel(gq[:, i], value(r['e'], env0) + np.zeros(npts)))
    # boundary conditions: each expected one is one of the observed ones, up to sign
    bc = np.array([bcs(cap, *q) for q in pts])
    emit(ev='bcs', n=int(bc.shape[1]))
    left = list(range(bc.shape[1]))
    for lst, en in ((b['bc0'], env0), (b['bcf'], envf)):
        for it in lst:
            ex = value(it['e'], en) + np.zeros(npts)
            errs = [(min(rel(bc[:, j], ex), rel(-bc[:, j], ex)), j) for j in left]
            if not errs:
                item(it['name'], 1e3)
                continue
            e, j = min(errs)
            item(it['name'], e)
            if e < 1e-6 * coarse:
                left.remove(j)


def jacobians(cap, rng, emit):
    """Analytical Jacobians are the derivatives of the functions they belong to."""
    pts = points(cap, None, rng)[:3]
    item = lambda name, err: emit(ev='item', name=name, err=quant(err))
    n, m, r = len(cap.states), len(cap.params), len(cap.nus)
    h = 1e-5

    def fd(f, x):
        cols = []
        for i in range(len(x)):
            d = np.zeros(len(x))
            d[i] = h * max(1, abs(x[i]))
            cols.append((f(x + d) - f(x - d)) / (2 * d[i]))
        return np.array(cols).T if cols else np.zeros((len(f(x)), 0))
    errs = {'jac fy': 0.0, 'jac fp': 0.0, 'jac by0': 0.0, 'jac byf': 0.0, 'jac bp': 0.0}
    if len(cap.quads):
        errs.update({'jac bq0': 0.0, 'jac bqf': 0.0})

    def put(name, got, f, x, rows):
        ex = fd(f, x)
        got = np.asarray(got, dtype=float)
        got = got.reshape(ex.shape) if got.size == ex.size else np.full(ex.shape, np.inf)
        s = 1 + np.max(np.abs(ex)) if ex.size else 1
        if np.all(np.isfinite(ex)) and s < 1e4:
            errs[name] = max(errs[name], float(np.max(np.abs(got - ex), initial=0) / s / 10))
    for y0, yf, p, nu, k, q0, qf in pts:
        A = lambda v: np.array(v, dtype=float).ravel()
        fy, fp_ = cap.djac(y0, p, k)
        put('jac fy', fy, lambda v: A(cap.deriv(v, p, k)), y0, n)
        put('jac fp', fp_, lambda v: A(cap.deriv(y0, v, k)), p, n)
        if q0 is None:
            a, b_, c = cap.bjac(y0, yf, p, nu, k)
        else:
            a, b_, c, d0, df = cap.bjac(y0, q0, yf, qf, p, nu, k)
            put('jac bq0', d0, lambda v: bcs(cap, y0, yf, p, nu, k, v, qf), q0, n)
            put('jac bqf', df, lambda v: bcs(cap, y0, yf, p, nu, k, q0, v), qf, n)
        put('jac by0', a, lambda v: bcs(cap, v, yf, p, nu, k, q0, qf), y0, n)
        put('jac byf', b_, lambda v: bcs(cap, y0, v, p, nu, k, q0, qf), yf, n)
        put('jac bp', c, lambda v: bcs(cap, y0, yf, v[:m], v[m:], k, q0, qf), np.concatenate((p, nu)), n)
    for name, e in errs.items():
        item(name, e / 1e2)          # finite differences: coarser


def one(args):
    """Worker: one problem -> its events."""
    idx, prob, cfg, path, seed, jac, jit = args
    vlib.silence()
    events = []
    emit = lambda **kw: events.append(kw)
    with open(path) as f:
        b = json.load(f)['bvp']
    emit(ev='scn', idx=idx + 1, name=prob['name'], method=cfg['method'], control=cfg['control'], jac=bool(jac), mode='bvp')
    rng = np.random.default_rng([seed, idx, zlib.crc32(prob['name'].encode())])
    t0 = time.time()
    try:
        from capture import build, Captured
        kw = {'control_method': cfg['control']}
        if jac:
            kw['analytical_jacobian'] = True
        if cfg.get('reduce'):
            kw['reduction'] = True
        cap = Captured(build(prob), cfg['method'], **kw)
        evaluate(cap, b, prob, cfg, rng, emit)
        if jac:
            jacobians(cap, rng, emit)
        emit(ev='end', out='ok')
    except Exception as e:
        import traceback
        emit(ev='end', out=vlib.excinfo(e), detail=traceback.format_exc()[-800:])
    return events, time.time() - t0


def check(ck):
    kind = FAMILY[ck.prop]
    fam = problems.family(kind, (QUICK if ck.quick else DEEP)[ck.prop], ck.seed * 100 + ord(ck.prop[-1]))
    run_family(ck, fam, jac=lambda i, cfg: cfg['control'] == 'differential' and i % 2 == 0 and ck.prop in ('C07',))


def run_family(ck, fam, jac, worker=None, keep=None, tag='', jit=False):
    os.environ['NUMBA_DISABLE_JIT'] = '0' if jit else '1'
    outdir = os.path.join(ck.work, 'bvps' + tag)
    os.makedirs(outdir)
    path = os.path.join(ck.work, 'problems%s.json' % tag)
    with open(path, 'w') as f:
        json.dump([{'p': p, 'cfg': c} for p, c in fam], f)
    ck.model('IndirectMC', 'IndirectMC.cfg', env={'PROBLEMS': path, 'OUTDIR': outdir}, workers=8, timeout=800)
    jobs = [(i, p, c, os.path.join(outdir, '%d.json' % (i + 1)), ck.seed) + (() if worker else (jac(i, c), False))
            for i, (p, c) in enumerate(fam)]
    ck.log('%d boundary value problems emitted' % len(jobs))
    import beluga  # noqa: F401  (imported before forking)
    tr = vlib.Trace(os.path.join(ck.work, 'trace%s.ndjson' % tag))
    res = ck.pmap(worker or one, jobs)
    slow = sorted(((t, j[1]['name']) for (_, t), j in zip(res, jobs)), reverse=True)[:3]
    for ev, _ in res:
        tr.events += ev
    ck.log('conformance runs done; slowest', slow)
    tr.write()
    os.environ['PROBLEMS'] = path
    ck.validate('IndirectTrace', 'IndirectTrace.cfg', tr, {}, props_only=False, keep=keep)
    ck.extra['problems'] = len(fam)
    ck.extra['configurations'] = sorted({c['method'] + '/' + c['control'] for _, c in fam})
    return tr
