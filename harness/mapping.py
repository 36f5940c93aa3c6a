"""Conformance of the trajectory mappings and the reported cost (Forward/Backward/cost of spec/Indirect.tla):
properties C11 and C20."""
import copy
import json
import os
import time
import zlib

import numpy as np

import problems
import symbolic
import vlib
from symbolic import quant, rel
from trees import value


def smooth(rng, n, tt, lo=0.4, hi=1.6):
    """n smooth columns over tt with values in (lo, hi)."""
    cols = []
    s = (tt - tt[0]) / (tt[-1] - tt[0])
    for _ in range(n):
        a, b, c = rng.uniform(-1, 1, 3)
        f = np.sin(a * 3 * s + b * 2) * 0.5 + 0.3 * c * s
        cols.append((lo + hi) / 2 + (hi - lo) / 2 * f / 0.9)
    return np.array(cols).T if n else np.zeros((len(tt), 0))


def trajectory(prob, cap, rng, npts):
    from beluga.numeric.data_classes.Trajectory import Trajectory
    t0 = rng.uniform(-0.5, 1.0)
    w = np.cumsum(rng.uniform(0.5, 1.5, npts))
    t = t0 + (w - w[0]) / (w[-1] - w[0]) * rng.uniform(0.5, 2)
    y = smooth(rng, len(prob['states']), t)
    u = smooth(rng, len(prob['controls']), t, -0.2, 0.45)   # inside every bound used in the families
    dual = smooth(rng, len(prob['states']), t, -2, 2)
    for x in prob.get('sym') or ():        # a conserved momentum is constant
        i = [s['n'] for s in prob['states']].index(x)
        dual[:, i] = dual[0, i]
    dual_t = smooth(rng, 1, t, -2, 2)[:, 0]
    sol = Trajectory(t, y, np.zeros((npts, 0)), u)
    sol.dual, sol.dual_t = dual, dual_t
    sol.const = np.array(cap.const, dtype=float)
    sol.dynamical_parameters = np.array([])
    sol.nondynamical_parameters = np.array([])
    return sol


def env_ocp(prob, cap, sol):
    env = {prob['ind']: np.asarray(sol.t, dtype=float), '_lam_' + prob['ind']: np.asarray(sol.dual_t, dtype=float)}
    for i, s in enumerate(prob['states']):
        env[s['n']] = sol.y[:, i]
        env['_lam_' + s['n']] = sol.dual[:, i]
    for i, u in enumerate(prob['controls']):
        env[u] = np.asarray(sol.u)[:, i] if np.asarray(sol.u).shape[1] > i else np.nan * sol.t
    for n, v in zip(cap.consts, sol.const):
        env[n] = v
    return env


def env_bvp(cap, sol):
    env = {n: sol.y[:, i] for i, n in enumerate(cap.states)}
    env.update({n: v for n, v in zip(cap.consts, sol.const)})
    env.update({n: v for n, v in zip(cap.params, sol.dynamical_parameters)})
    env.update({n: sol.q[:, i] for i, n in enumerate(cap.quads)})
    return env


def check_cost(b, prob, cap, sol, env, emit):
    """cost == Phi0 + Phif + integral of L, the penalties included."""
    if prob.get('fns'):
        import fnlib
        env = {**env, 'fns': fnlib.exact(prob['fns'])}
    z = np.zeros(len(sol.t))
    e0 = {k: (v[0] if np.ndim(v) else v) for k, v in env.items()}
    ef = {k: (v[-1] if np.ndim(v) else v) for k, v in env.items()}
    L = value(b['cost']['L'], env) + z
    from scipy.integrate import simpson
    want = value(b['cost']['Phi0'], e0) + value(b['cost']['Phif'], ef) + simpson(L, x=np.asarray(sol.t, dtype=float))
    scale = float(np.max(np.abs(L))) if np.all(np.isfinite(L)) else np.inf
    if not np.isfinite(want) or scale > 1e4:
        emit(ev='item', name='cost', err=0)
        return
    emit(ev='item', name='cost', err=quant(abs(float(sol.cost) - want) / (1 + abs(want) + scale) * 1e-2))


def one(args):
    idx, prob, cfg, path, seed = args
    vlib.silence()
    events = []
    emit = lambda **kw: events.append(kw)
    def item(name, err, got=None, env=None):
        e = dict(ev='item', name=name, err=quant(err))
        if name in alt:
            e['alt'] = quant(rel(got, value(alt[name], env) + np.zeros(len(got))))
        emit(**e)
    with open(path) as f:
        d = json.load(f)
    b = d['bvp']
    alt = {x['name']: x['e'] for x in d['dev']}
    emit(ev='scn', idx=idx + 1, name=prob['name'], method=cfg['method'], control=cfg['control'], jac=False, mode='map')
    rng = np.random.default_rng([seed, 77, idx, zlib.crc32(prob['name'].encode())])
    t0 = time.time()
    try:
        from capture import build, Captured
        cap = Captured(build(prob), cfg['method'], control_method=cfg['control'],
                       **({'reduction': True} if cfg.get('reduce') else {}))
        symbolic.rename(cap, b)
        sol = trajectory(prob, cap, rng, int(rng.choice([2, 4, 33, 161])))
        if rng.integers(2):                   # a guess may come with multipliers
            sol.nondynamical_parameters = rng.uniform(-1, 1, len(cap.nus))
        env = env_ocp(prob, cap, sol)
        orig = copy.deepcopy(sol)
        m = cap.map(copy.deepcopy(sol))
        # forward
        for it in d['fwd']:
            col = m.q[:, cap.quads.index(it['name'])] if it['name'] in cap.quads else \
                m.dynamical_parameters[cap.params.index(it['name'])] + np.zeros(len(sol.t)) if it['name'] in cap.params \
                else m.y[:, cap.states.index(it['name'])]
            item('fwd ' + it['name'], rel(col, value(it['e'], env) + np.zeros(len(sol.t))), col, env)
        span = orig.t[-1] - orig.t[0]
        item('stretch', rel(m.t, (orig.t - orig.t[0]) / span))
        item('duration', rel(m.dynamical_parameters[:1], [span]) if len(m.dynamical_parameters) == len(b['params'])
             else 1e3)
        item('parameters', 0 if m.y.shape[1] == len(cap.states) and len(m.nondynamical_parameters) == len(cap.nus)
             else 1e3)
        if len(orig.nondynamical_parameters):
            item('parameters', rel(m.nondynamical_parameters, orig.nondynamical_parameters)
                 if len(m.nondynamical_parameters) == len(cap.nus) else 1e3)
        # round trip
        r = cap.inv(copy.deepcopy(m))
        re = env_ocp(prob, cap, r)
        for it in d['back']:
            item('round ' + it['name'], rel(re[it['name']], env[it['name']]), re[it['name']], env)
        # backward, from a trajectory of the boundary value problem that is not in the image of the forward map
        from beluga.numeric.data_classes.Trajectory import Trajectory
        n = 161
        tau = np.linspace(0, 1, n)
        tau = tau + rng.choice([0, .15, -.15, .8]) * tau * (1 - tau)         # even, nearly even, uneven
        s2 = Trajectory(tau, smooth(rng, len(cap.states), tau, -1.2, 1.2))
        start, dur = rng.uniform(-1, 1), rng.uniform(0.5, 2)
        s2.y[:, cap.states.index(prob['ind'])] = start + dur * tau
        s2.dynamical_parameters = np.concatenate(([dur], rng.uniform(-1, 1, len(cap.params) - 1)))
        s2.nondynamical_parameters = rng.uniform(-1, 1, len(cap.nus))
        s2.const = np.array(cap.const) * rng.uniform(0.9, 1.1, len(cap.const))
        s2.q, s2.u = smooth(rng, len(cap.quads), tau, -1.2, 1.2), np.zeros((n, 0))
        s2.converged = True
        eb = env_bvp(cap, s2)
        const = s2.const.copy()
        back = cap.inv(copy.deepcopy(s2))
        bb = env_ocp(prob, cap, back)
        for it in d['back']:
            item('back ' + it['name'], rel(bb[it['name']], value(it['e'], eb) + np.zeros(n)))
        if len(back.dynamical_parameters):
            item('parameters', 1e3)
        item('constants', max(rel(back.const, const), rel(r.const, orig.const), rel(m.const, orig.const))
             if len(back.const) == len(const) else 1e3)
        if cfg['control'] == 'algebraic':
            u = np.array([symbolic.real(cap.compute_u(y, s2.dynamical_parameters, s2.const)) for y in s2.y])
            item('control', max(rel(np.asarray(back.u)[:, i], u[:, i]) for i in range(u.shape[1])))
            for i, c in enumerate(b['controls']):
                eb[c] = u[:, i]
        else:
            item('control', 0 if np.asarray(back.u).shape == (n, len(prob['controls'])) else 1e3)
        ee = {**bb, **eb, prob['ind']: np.asarray(back.t, dtype=float)}
        check_cost(b, prob, cap, back, ee, emit)
        emit(ev='end', out='ok')
    except Exception as e:
        import traceback
        emit(ev='end', out=vlib.excinfo(e), detail=traceback.format_exc()[-800:])
    return events, time.time() - t0


def families(ck):
    k = 16 if ck.quick else 60
    fam = []
    for kind in ('plain', 'algebraic', 'ineq', 'abbrev', 'calls'):
        f = problems.family(kind, k, ck.seed * 1000 + len(kind))
        if ck.quick:
            f = [x for x in f if x[0]['name'] != 'first candidate not real']
        fam += f
    return fam


def reduction(ck):
    """Property C21: reduced problems, as functions and as mappings."""
    fam = problems.family('reduce', 12 if ck.quick else 120, ck.seed * 100 + 21)
    symbolic.run_family(ck, fam, lambda i, cfg: cfg['control'] == 'differential' and i % 2 == 0)
    symbolic.run_family(ck, fam, None, worker=one, tag='map',
                        keep=lambda c: c != 'half angle')      # a finding of C11


def check(ck):
    symbolic.run_family(ck, families(ck), None, worker=one, keep=lambda c: (c == 'cost') == (ck.prop == 'C20')
                        or c == 'no boundary value problem')
