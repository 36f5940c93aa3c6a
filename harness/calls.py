"""Tables and custom functions (spec/Spline.tla; the "calls" family of spec/Indirect.tla)."""
import json
import os
import subprocess
import sys

import numpy as np

import problems
import symbolic
import vlib

Q = 1e4


def probe(args):
    """A table as the dynamics of a problem: its value, first and second derivative at the points of the specification."""
    rec, tid = args
    vlib.silence()
    ev = [dict(ev='scn', id=tid, t=rec['t'])]
    try:
        import beluga
        from capture import Captured
        o = beluga.Problem('table')
        o.independent('t', '1')
        o.table('g', '1d_spline', rec['y'], rec['x'], '1', ['1'])
        o.state('x', 'g(x)', '1')
        o.state('w', 'u', '1')
        o.control('u', '1')
        o.path_cost('u**2', '1')
        o.initial_constraint('x - 1', '1')
        o.initial_constraint('t', '1')
        o.terminal_constraint('t - 1', '1')
        o.scale(un_m=1)
        cap = Captured(o, 'traditional', control_method='differential', analytical_jacobian=True)
        ix, il = cap.states.index('x'), cap.states.index('_lam_x')
        for p in rec['pts']:
            y = np.zeros(len(cap.states))
            y[ix], y[il] = p['x4'] / 4, 1.0
            d = np.array(cap.deriv(y, np.array([1.0]), cap.const), dtype=float).ravel()
            fy = np.array(cap.djac(y, np.array([1.0]), cap.const)[0], dtype=float)
            for order, v in enumerate((d[ix], -d[il], -fy[il, ix])):
                ev.append(dict(ev='val', i=p['i'], q=p['q'], order=order,
                               got=int(round(v * Q)) if np.isfinite(v) and abs(v) < 1e4 else 2000000000))
        for p, v in zip(rec['pts'], third(rec)):
            if p['q'] not in (0, 4):             # it jumps at the knots
                ev.append(dict(ev='val', i=p['i'], q=p['q'], order=3,
                               got=int(round(v * Q)) if np.isfinite(v) and abs(v) < 1e4 else 2000000000))
        ev.append(dict(ev='end', out='ok'))
    except Exception as e:
        ev.append(dict(ev='end', out=vlib.excinfo(e)))
    return ev


def third(rec):
    """Third derivative, from the Jacobian of the control's rate: H = lw*g(u) + u**2 + x*u + lx, so
    u' = -1/(2 + lw*g2(u)) and du'/du = lw*g3(u)/(2 + lw*g2(u))**2."""
    import beluga
    from capture import Captured
    o = beluga.Problem('table3')
    o.independent('t', '1')
    o.table('g', '1d_spline', rec['y'], rec['x'], '1', ['1'])
    o.state('x', '1', '1')
    o.state('w', 'g(u)', '1')
    o.control('u', '1')
    o.path_cost('u**2 + x*u', '1')
    o.initial_constraint('x - 1', '1')
    o.initial_constraint('w', '1')
    o.initial_constraint('t', '1')
    o.terminal_constraint('t - 1', '1')
    o.scale(un_m=1)
    cap = Captured(o, 'traditional', control_method='differential', analytical_jacobian=True)
    iu, il = cap.states.index('u'), cap.states.index('_lam_w')
    lw = 0.01
    for p in rec['pts']:
        y = np.zeros(len(cap.states))
        y[iu], y[il] = p['x4'] / 4, lw
        rate = np.array(cap.deriv(y, np.array([1.0]), cap.const), dtype=float).ravel()[iu]
        fy = np.array(cap.djac(y, np.array([1.0]), cap.const)[0], dtype=float)
        yield fy[iu, iu] / (lw * rate ** 2)


def check(ck):
    fam = problems.family('calls', symbolic.QUICK['C22'] if ck.quick else symbolic.DEEP['C22'], ck.seed * 100 + 22)
    symbolic.run_family(ck, fam, jac=lambda i, cfg: i % 3 == 0)
    out = os.path.join(ck.work, 'tables')
    os.makedirs(out)
    ck.model('SplineMC', 'SplineMC.cfg' if ck.quick else 'SplineDeep.cfg', env={'OUTDIR': out}, workers=1, timeout=600)
    with open(os.path.join(out, 'tables.ndjson')) as f:
        recs = [json.loads(x) for x in f]
    res = ck.pmap(probe, [(r, i + 1) for i, r in enumerate(recs)], chunksize=1)
    tr = vlib.Trace(os.path.join(ck.work, 'splines.ndjson'))
    for ev in res:
        tr.events += ev
    # the same through compiled machine code
    n = 2 if ck.quick else 8
    path = os.path.join(ck.work, 'jit.json')
    with open(path, 'w') as f:
        json.dump([(r, len(recs) + i + 1) for i, r in enumerate(recs[:n])], f)
    env = {k: v for k, v in os.environ.items() if k != 'NUMBA_DISABLE_JIT'}
    r = subprocess.run([sys.executable, os.path.abspath(__file__), path], env=env, stdout=subprocess.PIPE, timeout=600)
    got = json.loads(r.stdout.decode().strip().splitlines()[-1]) if r.returncode == 0 else None
    if got is None:
        raise vlib.ToolError('compiled tables: no answer')
    for ev in got:
        tr.events += ev
    tr.write()
    ck.validate('SplineTrace', 'SplineTrace.cfg', tr, {}, props_only=False)
    ck.extra['tables'] = len(recs)
    ck.extra['tables_compiled'] = n


if __name__ == '__main__':
    import logging
    logging.disable(logging.CRITICAL)
    real = os.dup(1)
    with open(sys.argv[1]) as f:
        jobs = json.load(f)
    res = [probe(tuple(j)) for j in jobs]
    os.write(real, (json.dumps(res) + '\n').encode())
