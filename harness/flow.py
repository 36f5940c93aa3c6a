"""Conformance of propagation and quadratures (spec/Flow.tla): C16."""
import itertools
import json
import os
import random

import numpy as np

import vlib


def read(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def flow(st, p, c, s):
    """Solution after s (float, seconds) from st (floats)."""
    return (st[0] + p * (st[1] * s + c * s * s / 2), st[1] + c * s, st[2] + st[1] * s + c * s * s / 2,
            st[3] + st[0] * s + p * (st[1] * s * s / 2 + c * s ** 3 / 6))


def big(a):
    return [int(max(-2e9, min(2e9, round(float(x) * 6e6)))) if np.isfinite(x) else 2000000000 for x in a]


UNITS = [1, 1, 1, 1e-3, 60.]
STEPPERS = ['RK45', 'RK23', 'DOP853', 'Radau', 'BDF', 'LSODA', 'rk45']


def propagate(ck, tr, legs, opt, rng):
    from beluga.numeric.ivp_solvers import Propagator
    kw = dict(stepper=opt['stepper'], variable_step=opt['var'], quick_reconstruct=opt['quick'])
    lam = rng.choice(UNITS)              # the unit of time does not matter
    if opt['h'] != 1 or lam != 1:
        kw['maxstep'] = lam * opt['h'] / 10
    if not opt['var'] and opt['stepper'] in ('BDF', 'LSODA'):
        kw.update(abstol=1e-8, reltol=1e-8)
    prop = Propagator(**kw)
    vals = [-2, -1, 0, 1, 3]
    p, c = rng.choice([-2, -1, 1, 2]), rng.choice(vals)
    st = [6000 * rng.choice(vals) for _ in range(4)]
    T0 = rng.choice([0, 0, 3, -7, 20])
    tr.add(ev='scn', kind='propagate', opt=opt, legs=legs, unit=lam)

    def deriv(y, par, con):
        return np.array([par[0] * y[1], con[1]]) / lam

    def quad(y, par, con):
        return np.array([y[1], con[0] * y[0]]) / lam

    for T in legs:
        f = [x / 6000 for x in st]
        t0, t1 = lam * T0 / 10, lam * (T0 + T) / 10
        ev = dict(ev='leg', p=p, c=c, st=list(st), T0=T0, T=T, h=opt['h'], var=opt['var'], quick=opt['quick'],
                  tight=opt['stepper'].upper() not in ('BDF', 'LSODA'), first=False, last=False, mono=False, n=0, mesh=[],
                  gap=0, y0=[], yf=[], q0=[], qf=[], dy=0, dq1=0, dq2=0, same=True, degenerate=False)
        span = np.array([t0, t1] if not opt['inner'] else [t0, (2 * t0 + t1) / 3, t1])
        y0 = list(f[:2]) if opt['list'] else np.array(f[:2])
        q0 = np.array(f[2:]) if opt['quads'] else np.array([])
        par, con = np.array([float(p)]), np.array([1., float(c)])
        before = (span.copy(), np.array(y0), q0.copy(), par.copy(), con.copy())
        try:
            g = prop(deriv, quad if opt['quads'] or opt['list'] else None, span, y0, q0, par, con)
            t = np.asarray(g.t, dtype=float)
            y = np.asarray(g.y, dtype=float)
            d = np.diff(t)
            w = flow(f, p, c, (t - t0) / lam)
            d = d / lam
            ev.update(out='', first=bool(t[0] == t0), last=bool(t[-1] == t1), mono=bool(np.all(d * np.sign(T) > 0)),
                      n=len(t), mesh=[int(round(x / lam * 1e6)) for x in t] if not opt['var'] else [],
                      degenerate=bool(opt['var'] and np.min(np.abs(d)) < 1e-9),
                      gap=int(round(1e9 * np.max(np.abs(d)))), y0=big(y[0]), yf=big(y[-1]),
                      dy=big([np.max(np.abs(y - np.array(w[:2]).T))])[0] if y.shape == (len(t), 2) else 2000000000,
                      same=bool(all(np.array_equal(a, b) for a, b in zip(before, (span, np.array(y0), q0, par, con)))))
            if opt['quads']:
                q = np.asarray(g.q, dtype=float)
                ok = q.shape == (len(t), 2)
                ev.update(q0=big(q[0]), qf=big(q[-1]), dq1=big([np.max(np.abs(q[:, 0] - w[2]))])[0] if ok else 2000000000,
                          dq2=big([np.max(np.abs(q[:, 1] - w[3]))])[0] if ok else 2000000000)
        except Exception as e:
            ev['out'] = vlib.excinfo(e)
        tr.add(**ev)
        st = [int(round(6000 * x)) for x in flow(f, p, c, T / 10)]
        T0 += T


def quadrature(ck, tr, rng, n):
    from beluga.numeric.ivp_solvers import integrate_quads
    from beluga.numeric.data_classes.Trajectory import Trajectory
    for _ in range(n):
        sgn = rng.choice([1, 1, -1])
        nodes = [rng.choice([0, 0, 5, -30])]
        for _ in range(rng.randint(1, 6)):
            nodes.append(nodes[-1] + sgn * rng.choice([1, 2, 5, 10, 7]))
        dim = rng.choice([1, 2])
        al, be = [rng.randint(-3, 3) for _ in range(dim)], [rng.randint(-3, 3) for _ in range(dim)]
        nq = rng.choice([1, 2])
        G = [(rng.randint(-2, 2), [rng.randint(-2, 2) for _ in range(dim)]) for _ in range(nq)]
        A = [sum(g * a for g, a in zip(gs, al)) for _, gs in G]
        B = [g0 + sum(g * b for g, b in zip(gs, be)) for g0, gs in G]
        lam = rng.choice(UNITS)
        t = lam * np.array(nodes) / 10
        y = np.array([a + b * np.array(nodes) / 10 for a, b in zip(al, be)]).T
        if dim == 1 and rng.random() < .6:
            y = y[:, 0]
        withq = rng.random() < .4
        q = [rng.randint(-3, 3) for _ in range(nq)]
        tr.add(ev='scn', kind='quadrature', nodes=nodes, al=al, be=be, G=[[g0] + gs for g0, gs in G])
        cuts = sorted({rng.choice(nodes), nodes[0], nodes[-1], rng.choice(range(min(nodes), max(nodes) + 1)),
                       rng.choice(range(min(nodes), max(nodes) + 1))}, key=lambda x: sgn * x)
        spans = [(a, b) for a, b in itertools.combinations(cuts, 2)]
        spans += [(nodes[0] - sgn, nodes[-1]), (nodes[0], nodes[-1] + sgn)]
        cst = np.array([5.])

        def g(time, yy, con):
            assert con is cst
            r = [(g0 * time / lam + sum(c * v for c, v in zip(gs, yy))) / lam for g0, gs in G]
            return tuple(r) if nq > 1 or rng.random() < .5 else np.array(r)

        for a, b in spans:
            gam = Trajectory(t.copy(), y.copy())
            if withq:
                # the quadratures so far: q at the start of the interval is the value added
                gam.q = np.array([q[i] + 0 * t for i in range(nq)]).T
            span = lam * np.array([a, b]) / 10
            ev = dict(ev='quad', A=A, B=B, q=q if withq else [], a=a, b=b, lo=nodes[0], hi=nodes[-1], val=[], same=True)
            try:
                r = np.atleast_1d(np.asarray(integrate_quads(g, span, gam, cst), dtype=float))
                ev.update(out='', val=[int(round(x * 2e5)) if np.isfinite(x) else 2000000000 for x in r],
                          same=bool(np.array_equal(gam.t, t) and np.array_equal(gam.y, y) and
                                    np.array_equal(span, lam * np.array([a, b]) / 10)))
            except Exception as e:
                ev['out'] = vlib.excinfo(e)
            tr.add(**ev)


def check(ck):
    out = os.path.join(ck.work, 'out')
    os.makedirs(out)
    ck.model('FlowMC', 'FlowMC.cfg' if ck.quick else 'FlowDeep.cfg', env={'OUTDIR': out}, workers=1, timeout=800)
    legs = [x['legs'] for x in read(out + '/legs.ndjson')]
    rng = random.Random(ck.seed)
    tr = vlib.Trace(os.path.join(ck.work, 'trace.ndjson'))
    opts = [dict(stepper=s, var=v, quick=q, h=h, quads=w, inner=i, list=k) for s in STEPPERS for v in (True, False)
            for q in (False, True) for h in (1, 5) for w in (True, False) for i in (False, True) for k in (False, True)
            if not (q and not w)]
    rng.shuffle(legs)
    jobs = []
    for r in range(1 if ck.quick else 6):
        for j, o in enumerate(opts):
            jobs.append((legs[(j + r * 7) % len(legs)], o))
    for l, o in jobs:
        propagate(ck, tr, l, o, rng)
    quadrature(ck, tr, rng, 150 if ck.quick else 3000)
    tr.write()
    ck.log('%d propagation histories' % len(jobs))
    ck.validate('FlowTrace', 'FlowTrace.cfg', tr, {}, props_only=False)
    ck.extra['histories'] = len(jobs)
