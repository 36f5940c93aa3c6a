"""Conformance of automatic scaling (spec/Scaling.tla): C06."""
import copy
import json
import os
import random

import numpy as np

import vlib

BAD = 99000000


def read(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


# -- the unit algebra of the specification, needed to declare the problem ------------------------
def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def mul(n, a):
    return [n * x for x in a]


def units(c):
    F = sub([x + y for x, y in zip(c['M'], c['x'])], mul(2, c['t']))
    v = sub(c['x'], c['t'])
    return dict(x=c['x'], v=v, t=c['t'], F=F, M=c['M'], D=mul(-1, c['t']), xf=c['x'], tf=c['t'],
                Q=sub(c['c'], mul(2, c['x'])), W=sub(sub(c['c'], c['t']), mul(2, F)), eps=sub(c['c'], c['t']),
                vmax=v, Fmax=F)


def text(d):
    parts = ['%s**(%d)' % (n, e) if e != 1 else n for n, e in zip(('m', 's', 'kg'), d) if e]
    return '*'.join(parts) or '1'


CONSTS = ['M', 'D', 'xf', 'tf', 'Q', 'W', 'eps', 'vmax', 'Fmax']


def build(c, vals):
    import beluga
    u = {n: text(d) for n, d in units(c).items()}
    o = beluga.Problem('scaled')
    o.independent('t', u['t'])
    o.state('x', 'v', u['x'])
    o.state('v', 'F/M - D*v', u['v'])
    o.control('F', u['F'])
    if c['red']:
        o.symmetry(['1', '0'], u['x'])
    for n in CONSTS:
        o.constant(n, vals[n], u[n])
    o.path_cost('W*F**2', text(sub(c['c'], c['t'])))
    o.terminal_cost('Q*(x - xf)**2', text(c['c']))
    o.initial_constraint('x', u['x'])
    o.initial_constraint('v', u['v'])
    o.initial_constraint('t', u['t'])
    o.terminal_constraint('v', u['v'])
    o.terminal_constraint('t - tf', u['t'])
    if c['ineq'] == 'utm':
        o.path_constraint('v', u['v'], lower='-vmax', upper='vmax', activator='eps', method='utm')
    elif c['ineq'] == 'epstrig':
        o.path_constraint('F', u['F'], lower='-Fmax', upper='Fmax', activator='eps', method='epstrig')
    o.scale(**{n: r['text'] for n, r in zip(('m', 's', 'kg'), c['refs'])})
    return o


def expo(a, b):
    """Exponent of two of a / b when the same for all elements (1e-6)."""
    a, b = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
    if a.shape != b.shape or a.size == 0:
        return BAD
    with np.errstate(all='ignore'):
        r = np.log2(np.abs(a / b))
    if not np.all(np.isfinite(r)) or np.any(np.sign(a) != np.sign(b)) or np.ptp(r) > 1e-6:
        return BAD
    return int(np.clip(round(float(r[0]) * 1e6), -2e9, 2e9))


def ratios(a, b, cap):
    n = len(cap.states)
    ok = np.shape(a.y) == np.shape(b.y) and np.shape(a.y)[1] == n
    return dict(
        t=expo(np.asarray(a.t)[1:], np.asarray(b.t)[1:]),
        y=[[nm, expo(a.y[:, i], b.y[:, i]) if ok else BAD] for i, nm in enumerate(cap.states)],
        u=[[nm, expo(a.u[:, i], b.u[:, i])] for i, nm in enumerate(cap.controls)],
        q=[expo(a.q[:, i], b.q[:, i]) for i in range(np.shape(a.q)[1])] if np.shape(a.q) == np.shape(b.q) else [BAD],
        p=[expo(x, y) for x, y in zip(a.dynamical_parameters, b.dynamical_parameters)],
        m=[expo(x, y) for x, y in zip(a.nondynamical_parameters, b.nondynamical_parameters)],
        k=[[nm, expo(x, y)] for nm, x, y in zip(cap.consts, a.const, b.const)])


def column(rng, n, e):
    c = rng.uniform(0.1, 0.9, n) * rng.choice([-1, 1], n) * 2.0 ** e
    c[rng.integers(n)] = rng.choice([-1, 1]) * 2.0 ** e
    return c


def one(args):
    cfg, hist, auto, stepless, mags, seed = args
    vlib.silence()
    import beluga
    from beluga.continuation import run_continuation_set
    from beluga.numeric.bvp_solvers import BaseAlgorithm
    from beluga.numeric.data_classes.Trajectory import Trajectory
    from capture import Captured
    events = []
    rng = np.random.default_rng(seed)
    events.append(dict(ev='scn', cfg=cfg, auto=auto, mag=mags, stepless=stepless))
    try:
        # logarithmic steps need positive constants
        sign = -1 if seed % 3 == 0 and (stepless or not all(h['ok'] for h in hist)) else 1
        vals = dict(M=2.0 ** mags['M'], D=0.3, xf=sign * 2.0 ** mags['xf'], tf=2.0 ** mags['tf'], Q=1.7, W=0.6, eps=0.01,
                    vmax=50.0, Fmax=60.0)
        cap = Captured(build(cfg, vals), cfg['method'], control_method=cfg['control'],
                       **({'reduction': True} if cfg['red'] else {}))
        n = 7
        g = Trajectory(np.linspace(0, 1, n), np.array([column(rng, n, mags.get(s, int(rng.integers(-3, 4))))
                                                       for s in cap.states]).T)
        g.q = np.array([column(rng, n, mags['x']) for _ in cap.quads]).T.reshape(n, len(cap.quads))
        g.u = rng.uniform(0.5, 2, (n, len(cap.controls)))
        g.dynamical_parameters = rng.uniform(0.5, 2, len(cap.params))
        g.nondynamical_parameters = rng.uniform(0.5, 2, len(cap.nus))
        g.const = np.array(cap.const, dtype=float)
        ix, iv = None if cfg['red'] else cap.states.index('x'), cap.states.index('v')
        calls = []

        class Alg(BaseAlgorithm):
            def solve(self, guess, **kw):
                h = hist[len(calls)]
                sol = copy.deepcopy(guess)
                sol.y = np.array(sol.y, dtype=float)
                if cfg['red']:
                    sol.q = np.array(sol.q, dtype=float) * 2.0 ** h['dx']
                else:
                    sol.y[:, ix] *= 2.0 ** h['dx']
                sol.y[:, iv] *= 2.0 ** h['dv']
                sol.converged = bool(seed % 2) if stepless else h['ok']
                calls.append((copy.deepcopy(guess), copy.deepcopy(sol)))
                return {'sol': sol, 'niter': 1, 'success': True, 'message': ''}
        steps = None
        if not stepless:
            steps = beluga.init_continuation()
            if all(h['ok'] for h in hist):
                steps.add_step('bisection').num_cases(len(hist), spacing='log')
            else:                       # goes on after a failure
                steps.add_step('productspace').num_subdivisions(2)
            steps[-1].const('xf', vals['xf'] * 2.0 ** (len(hist) - 1))
        user = copy.deepcopy(g)
        res = run_continuation_set(Alg(), steps, g, cap.fp.prob, None, auto)[0]
        ik = cap.consts.index('xf')
        for i, ((a, b), r) in enumerate(zip(calls, res)):
            h = hist[i]
            user.const[ik] = vals['xf'] * 2.0 ** i
            events.append(dict(ev='case', dxf=h['dxf'], dx=h['dx'], dv=h['dv'], hand=ratios(user, a, cap),
                               back=ratios(r, b, cap)))
            if h['ok']:
                user = copy.deepcopy(r)
        if len(res) != len(calls) or len(calls) != (1 if stepless else len(hist)):
            raise RuntimeError('%d cases' % len(calls))
        # the problem means the same in the scaled variables
        a = calls[0][0]
        fy, fp = [np.asarray(x, dtype=float) for x in (g.y[0] / a.y[0], g.dynamical_parameters / a.dynamical_parameters)]
        fm = np.asarray(g.nondynamical_parameters, dtype=float) / a.nondynamical_parameters
        fq = np.asarray(g.q[0] / a.q[0], dtype=float)
        fk = np.asarray(cap.const, dtype=float) / a.const
        rate = bc = 0.0
        logs = []
        import symbolic
        for _ in range(4):
            y, y1 = rng.uniform(0.2, 1.5, (2, len(cap.states)))
            p, m = rng.uniform(0.5, 2, len(cap.params)), rng.uniform(0.5, 2, len(cap.nus))
            k = np.array(cap.const) * rng.uniform(0.8, 1.2, len(cap.const))
            d = symbolic.real(cap.deriv(y, p, k))
            ds = symbolic.real(cap.deriv(y / fy, p / fp, k / fk)) * fy
            rate = max(rate, float(np.max(np.abs(d - ds) / (1e-9 + np.abs(d)))))
            if cfg['red']:
                q0, q1 = rng.uniform(0.2, 1.5, (2, len(cap.quads)))
                d = symbolic.real(cap.quad(y, p, k))
                ds = symbolic.real(cap.quad(y / fy, p / fp, k / fk)) * fq
                rate = max(rate, float(np.max(np.abs(d - ds) / (1e-9 + np.abs(d)))))
                b0 = symbolic.real(cap.bc(y, q0, y1, q1, p, m, k))
                b1 = symbolic.real(cap.bc(y / fy, q0 / fq, y1 / fy, q1 / fq, p / fp, m / fm, k / fk))
            else:
                b0 = symbolic.real(cap.bc(y, y1, p, m, k))
                b1 = symbolic.real(cap.bc(y / fy, y1 / fy, p / fp, m / fm, k / fk))
            logs.append(np.log2(np.abs(b0 / b1)))
        logs = np.array(logs)
        bc = float(np.max(np.ptp(logs, axis=0)))
        q = lambda v: int(min(2e9, v * 1e9)) if np.isfinite(v) else 2000000000
        events.append(dict(ev='cov', rate=q(rate), bc=q(bc)))
    except Exception as e:
        import traceback
        events.append(dict(ev='fail', out=vlib.excinfo(e), detail=traceback.format_exc()[-900:]))
    return events


def ref(text_, base, **pow):
    return dict(text=text_, base=base, pow=pow or {'x': 0})


MREF = [ref('1', 0), ref('x', 0, x=1), ref('xf', 0, xf=1), ref('8', 3), ref('v*tf', 0, v=1, tf=1)]
SREF = [ref('4', 2), ref('x/v', 0, x=1, v=-1), ref('t', 0, t=1), ref('tf', 0, tf=1)]
KREF = [ref('M', 0, M=1), ref('1/2', -1), ref('2*xf/tf', 1, xf=1, tf=-1), ref('M*x', 0, M=1, x=1)]


def check(ck):
    os.environ['NUMBA_DISABLE_JIT'] = '1'
    out = os.path.join(ck.work, 'out')
    os.makedirs(out)
    ck.model('ScalingMC', 'ScalingMC.cfg' if ck.quick else 'ScalingDeep.cfg', env={'OUTDIR': out}, workers=6,
             timeout=800)
    hists = [h['hist'] for h in read(out + '/hist.ndjson')]
    hists.sort(key=json.dumps)
    rng = random.Random(ck.seed)
    jobs = []
    modes = [('traditional', 'differential', i) for i in ('none', 'utm', 'epstrig')] + \
            [('diffyg', 'differential', i) for i in ('none', 'utm', 'epstrig')] + \
            [('traditional', 'algebraic', i) for i in ('none', 'utm')] + \
            [('diffyg', 'differential', i, True) for i in ('none', 'utm', 'epstrig')] + \
            [('diffyg', 'algebraic', 'none', True)]
    N = 30 if ck.quick else 160
    for k in range(N):
        for i, (me, co, iq, *red) in enumerate(modes):
            dim = lambda: [rng.randint(-2, 2) for _ in range(3)]
            cfg = dict(x=dim(), t=dim(), M=dim(), c=dim(), method=me, control=co, ineq=iq,
                       red=bool(red), refs=[rng.choice(MREF), rng.choice(SREF), rng.choice(KREF)])
            while red and any('x' in r['pow'] and r['pow']['x'] for r in cfg['refs']):      # x is no state any more
                cfg['refs'] = [rng.choice(MREF), rng.choice(SREF), rng.choice(KREF)]
            if k % 3 == 0:      # the usual units
                cfg.update(x=[1, 0, 0], t=[0, 1, 0], M=[0, 0, 1])
            mags = {n: rng.randint(-3, 3) for n in ('x', 'v', 't', 'M', 'xf', 'tf')}
            jobs.append((cfg, rng.choice(hists), (k + i) % 6 != 5, (k + i) % 4 == 3, mags, rng.getrandbits(30)))
    import beluga  # noqa: F401
    res = ck.pmap(one, jobs, chunksize=2)
    tr = vlib.Trace(os.path.join(ck.work, 'trace.ndjson'))
    for r in res:
        for e in r:
            tr.add(**e)
    tr.write()
    ck.log('%d runs with random units and sizes' % len(jobs))
    ck.validate('ScalingTrace', 'ScalingTrace.cfg', tr, {}, props_only=False)
    ck.extra['runs'] = len(jobs)
