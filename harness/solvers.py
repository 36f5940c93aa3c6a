"""Conformance of the boundary value solvers (spec/Solver*.tla): C13, C14, C15, C18."""
import copy
import json
import os

import numpy as np

import vlib

NANO = 1e9


def read(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


# Functions of the instances; problems with the same dynamics share the function objects.
DERIV = {
    'recip': lambda y, p, k: np.array([-y[0] ** 2]),
    'line': lambda y, p, k: np.array([k[1]]),
    'many': lambda y, p, k: np.array([p[0] * y[1], p[0] * k[0], p[1]]),
    'drift': lambda y, p, k: np.array([p[0] * y[1], p[0] * k[0]]),
    'chain': lambda y, p, k: np.array([y[1], k[0]])}
QUAD = {
    'many': lambda y, p, k: np.array([p[0] * y[0], p[1] * y[1]]),
    'all': lambda y, p, k: np.array([p[0] * y[0]]),
    'quad': lambda y, p, k: np.array([y[0]])}
BCS = {
    'many': lambda a, qa, b, qb, p, m, k: np.array([
        a[0] - k[1], a[1] - k[2], a[2] - k[5], qa[0] - k[4], qa[1] - k[7], b[1] - k[3], b[2] - k[6],
        qb[0] - m[0], qb[1] - m[1]]),
    'steep': lambda a, b, p, m, k: np.array([0.5 + np.pi / 2 + np.arctan(1e7 * (b[0] - k[0]))]),
    'slope': lambda a, b, p, m, k: np.array([a[0] - k[1], b[1] - k[2]]),
    'chain': lambda a, b, p, m, k: np.array([a[0] - k[1], b[0] - k[2]]),
    'clash': lambda a, b, p, m, k: np.array([a[0] - k[1], a[0] - k[2]]),
    'noreal': lambda a, b, p, m, k: np.array([b[0] ** 2 + k[0]]),
    'almost': lambda a, b, p, m, k: np.array([b[0] ** 2 + k[0] / 100]),
    'mult': lambda a, b, p, m, k: np.array([a[0] - k[1], b[0] - k[2], b[1] - m[0]]),
    'param': lambda a, b, p, m, k: np.array([a[0] - k[1], a[1] - k[2], b[1] - k[3]]),
    'recip': lambda a, b, p, m, k: np.array([b[0] - k[0] / k[1]]),
    'quad': lambda a, qa, b, qb, p, m, k: np.array([a[0] - k[1], qa[0] - k[3], qb[0] - k[2]]),
    'all': lambda a, qa, b, qb, p, m, k: np.array([a[0] - k[1], a[1] - k[2], b[1] - k[3], qa[0] - k[4],
                                                   qb[0] - m[0]])}


def functions(ty):
    dyn = {'noreal': 'line', 'almost': 'line', 'steep': 'line', 'recip': 'recip', 'many': 'many', 'param': 'drift', 'all': 'drift'}.get(ty, 'chain')
    return DERIV[dyn], QUAD.get(ty), BCS[ty]


class Functions:
    """The functions of an instance as a solver takes them."""

    def __init__(self, inst, jac=False):
        ty, k = inst['type'], inst['k']
        self.inst, self.type = inst, ty
        self.const = np.array(k, dtype=float)
        self.nq = {'quad': 1, 'all': 1, 'many': 2}.get(ty, 0)
        self.has_q = self.nq > 0
        self.n = {'recip': 1, 'noreal': 1, 'almost': 1, 'steep': 1, 'many': 3}.get(ty, 2)
        self.np = {'param': 1, 'all': 1, 'many': 2}.get(ty, 0)
        self.nm = {'mult': 1, 'all': 1, 'many': 2}.get(ty, 0)
        self.deriv, self.quad, self.bc = functions(ty)
        self.djac = self.bjac = None
        if jac:
            self.djac, self.bjac = self._djac, self._bjac_quad if self.has_q else self._bjac

    def _djac(self, y, p, k):
        if self.type == 'recip':
            return np.array([[-2 * y[0]]]), np.zeros((1, 0))
        if self.type in ('noreal', 'almost', 'steep'):
            return np.zeros((1, 1)), np.zeros((1, 0))
        if self.type == 'many':
            return np.array([[0, p[0], 0], [0, 0, 0], [0, 0, 0]]), np.array([[y[1], 0], [k[0], 0], [0, 1]])
        s = p[0] if self.np else 1.0
        dy = np.array([[0, s], [0, 0]])
        return dy, (np.array([[y[1]], [k[0]]]) if self.np else np.zeros((2, 0)))

    def _bjac(self, a, b, p, m, k):
        cols = {'chain': ([[1, 0], [0, 0]], [[0, 0], [1, 0]], [[], []]),
                'slope': ([[1, 0], [0, 0]], [[0, 0], [0, 1]], [[], []]),
                'clash': ([[1, 0], [1, 0]], [[0, 0], [0, 0]], [[], []]),
                'mult': ([[1, 0], [0, 0], [0, 0]], [[0, 0], [1, 0], [0, 1]], [[0], [0], [-1]]),
                'param': ([[1, 0], [0, 1], [0, 0]], [[0, 0], [0, 0], [0, 1]], [[0], [0], [0]]),
                'noreal': ([[0]], [[2 * b[0]]], [[]]),
                'almost': ([[0]], [[2 * b[0]]], [[]]),
                'steep': ([[0]], [[1e7 / (1 + (1e7 * (b[0] - k[0])) ** 2)]], [[]]),
                'recip': ([[0]], [[1]], [[]])}[self.type]
        r = len(cols[0])
        return tuple(np.array(c, dtype=float).reshape(r, -1) for c in cols)

    def _bjac_quad(self, a, qa, b, qb, p, m, k):
        """dbc/dy0, dbc/dyf, dbc/dp (parameters, then multipliers), dbc/dq0, dbc/dqf (linear conditions)."""
        def col(which, j):
            v = [np.zeros(self.n), np.zeros(self.nq), np.zeros(self.n), np.zeros(self.nq), np.zeros(self.np),
                 np.zeros(self.nm)]
            zero = self.bc(*v, k)
            v[which][j] = 1.0
            return self.bc(*v, k) - zero
        rows = len(self.bc(a, qa, b, qb, p, m, k))

        def mat(*w):
            cols = [col(x, j) for x, n in w for j in range(n)]
            return np.array(cols).T if cols else np.zeros((rows, 0))
        return (mat((0, self.n)), mat((2, self.n)), mat((4, self.np), (5, self.nm)), mat((1, self.nq)),
                mat((3, self.nq)))

    def residual(self, sol):
        a, b, p, m, k = sol.y[0], sol.y[-1], sol.dynamical_parameters, sol.nondynamical_parameters, self.const
        r = self.bc(a, sol.q[0], b, sol.q[-1], p, m, k) if self.has_q else self.bc(a, b, p, m, k)
        return float(np.linalg.norm(r))

    def flow(self, y, q, p, h):
        """Exact flow over h (independent of any integrator)."""
        k = self.const
        if self.type == 'recip':
            return np.array([y[0] / (1 + y[0] * h)]), q
        if self.type in ('noreal', 'almost', 'steep'):
            return np.array([y[0] + k[1] * h]), q
        s = p[0] if self.np else 1.0
        y1 = y[0] + s * y[1] * h + s * s * k[0] * h * h / 2
        y2 = y[1] + s * k[0] * h
        if self.has_q:
            dq = [s * (y[0] * h + s * y[1] * h * h / 2 + s * s * k[0] * h ** 3 / 6)]
            if self.type == 'many':
                dq.append(p[1] * (y[1] * h + s * k[0] * h * h / 2))
            q = q + np.array(dq)
        return np.array([y1, y2] + ([y[2] + p[1] * h] if self.type == 'many' else [])), q

    def guess(self, g):
        from beluga.numeric.data_classes.Trajectory import Trajectory
        t0, S = float(self.inst['t0']), float(self.inst['S'])
        if g == 1:
            t = np.array([t0, t0 + S])
        else:
            t = t0 + S * np.array([0, 0.1, 0.15, 0.4, 0.7, 0.95, 1.0])
        s = (t - t0) / S
        y = np.array([0.4 + 0.05 * g * s] if self.n == 1 else [1 + 0.3 * g * s, 0.5 - 0.2 * s, 0.3 + s][:self.n]).T
        if self.type == 'steep':                 # on the flank
            k = self.const
            y = np.array([k[0] + k[1] * (t - t[-1]) - 3e-8 * g]).T
        sol = Trajectory(t, y)
        if self.has_q:
            sol.q = np.array([0.2 + 0.1 * s, 1 - 0.2 * s][:self.nq]).T
        else:
            sol.q = np.zeros((len(t), 0))
        sol.u = np.zeros((len(t), 0))
        sol.dynamical_parameters = 0.8 + 0.1 * g + 0.2 * np.arange(self.np)
        sol.nondynamical_parameters = 0.5 * g + 0.3 * np.arange(self.nm)
        sol.const = self.const.copy()
        return sol


def make(cfg):
    from beluga.numeric.bvp_solvers import Shooting, SPBVP
    if cfg['solver'] == 'spbvp':
        return SPBVP(max_nodes=cfg.get('nodes', 500))
    return Shooting(algorithm=cfg['alg'], num_arcs=cfg['arcs'], tolerance=cfg['tol'],
                    max_iterations=cfg.get('iters', 100),
                    ivp_args={'abstol': 1e-9, 'reltol': 1e-9, 'maxstep': 0.25})


def give(alg, fn, had=None):
    """The functions of fn; only those that are others than had's, if given."""
    if had is None or fn.deriv is not had.deriv:
        alg.set_derivative_function(fn.deriv)
    if had is None or fn.quad is not had.quad:
        alg.set_quadrature_function(fn.quad)
    if had is None or fn.bc is not had.bc:
        alg.set_boundarycondition_function(fn.bc)
    alg.set_derivative_jacobian(fn.djac)
    alg.set_boundarycondition_jacobian(fn.bjac)


def state_of(sol):
    return [np.array(x, dtype=float).copy() for x in (sol.t, sol.y, sol.q, sol.u, sol.dynamical_parameters,
                                                      sol.nondynamical_parameters, sol.const)]


def equal(a, b):
    return all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


class Pool:
    """Works on its tasks in a given order (each call to map), returning results by position."""

    def __init__(self, order=None):
        self.order, self.calls = order, 0

    def map(self, f, items, *a, **k):
        items = list(items)
        self.calls += 1
        res = [None] * len(items)
        order = [i - 1 for i in self.order] if self.order and len(self.order) == len(items) else range(len(items))
        for i in order:
            res[i] = f(items[i])
        return res

    def close(self):
        pass


def run(alg, fn, g, pool=None):
    guess = fn.guess(g)
    before = state_of(guess)
    try:
        r = alg.solve(guess, pool=pool) if pool is not None else alg.solve(guess)
        out, sol = '', r['sol']
    except Exception as e:
        out, sol, r = vlib.excinfo(e), None, None
    return out, sol, r, equal(before, state_of(guess))


def q6(a):
    return [int(np.clip(round(float(x) * 1e6), -2e9, 2e9)) if np.isfinite(x) else 2000000000 for x in np.ravel(a)]


def nano(x):
    return int(min(x * NANO, 2e9)) if np.isfinite(x) else 2000000000


def frac(f):
    return f[0] / f[1]


def exact(rec, t):
    """Exact solution at times t."""
    inst, s = rec['inst'], np.asarray(t, dtype=float) - rec['inst']['t0']
    if inst['type'] == 'recip':
        return np.array([1 / (frac(rec['c']) + s)]).T, np.zeros((len(s), 0))
    poly = lambda c: sum(frac(x) * s ** i for i, x in enumerate(c))
    y = np.array([poly(c) for c in rec['sol']['y']]).T
    q = np.array([poly(c) for c in rec['sol']['q']]).T if rec['sol']['q'] else np.zeros((len(s), 0))
    return y, q


def tolerances(cfg):
    if cfg['solver'] == 'spbvp':
        return 1e-3, 8e-3
    tolr = cfg['tol'] if cfg['alg'] == 'Armijo' or cfg['alg'] in ROOT else cfg['tol'] ** 0.5
    return tolr * 1.01 + 1e-7, max(20 * tolr, 1e-3)


ROOT = ('hybr', 'lm', 'broyden1', 'broyden2', 'anderson', 'krylov', 'df-sane', 'diagbroyden', 'linearmixing',
        'excitingmixing')


def report(rec, cfg, fn, g, alg, emit, fresh=True):
    out, sol, r, kept = run(alg, fn, g)
    tolr, told = tolerances(cfg)
    e = dict(ev='solve', g=g, tolr=nano(tolr), told=nano(told), hard=bool(cfg['hard']), out=out, conv=False,
             unequal=False, y0=[], yf=[], q0=[], qf=[], p=[], m=[], dev=0, res=0, gap=0, mesh=True, same=True,
             kept=bool(kept))
    if out == '':
        e['conv'] = bool(sol.converged)
        e['unequal'] = bool(sol.converged) != bool(r['success'])
        t = np.asarray(sol.t, dtype=float)
        q = np.asarray(sol.q, dtype=float).reshape(len(t), -1) if fn.has_q else np.zeros((len(t), 0))
        e.update(y0=q6(sol.y[0]), yf=q6(sol.y[-1]), q0=q6(q[0]), qf=q6(q[-1]), p=q6(sol.dynamical_parameters),
                 m=q6(sol.nondynamical_parameters))
        e['res'] = nano(fn.residual(sol))
        t0, S = rec['inst']['t0'], rec['inst']['S']
        e['mesh'] = bool(np.all(np.diff(t) > 0) and abs(t[0] - t0) < 1e-12 and abs(t[-1] - t0 - S) < 1e-12
                         and sol.y.shape == (len(t), fn.n))
        gap = 0.0
        for i in range(len(t) - 1):
            y1, q1 = fn.flow(sol.y[i], q[i], sol.dynamical_parameters, t[i + 1] - t[i])
            gap = max(gap, float(np.max(np.abs(np.append(y1 - sol.y[i + 1], q1 - q[i + 1])))))
        e['gap'] = nano(gap)
        if rec['inst']['type'] not in ('clash', 'noreal', 'almost', 'steep'):
            ye, qe = exact(rec, t)
            e['dev'] = nano(float(np.max(np.abs(np.hstack((sol.y - ye, q - qe))))))
        if fresh:
            f2 = make(cfg)
            give(f2, fn)
            out2, sol2, _, _ = run(f2, fn, g)
            e['same'] = out2 == '' and equal(state_of(sol), state_of(sol2)) and bool(sol.converged) == bool(sol2.converged)
    emit(**e)


def one(job):
    """One solver object and its history."""
    kind, cfg, recs, arg = job
    vlib.silence()
    np.seterr(all='ignore')
    events = []
    emit = lambda **kw: events.append(kw)
    emit(ev='scn', kind=kind, solver=cfg['solver'], alg=cfg.get('alg', ''), arcs=cfg.get('arcs', 1), jac=bool(cfg.get('jac')),
         iters=cfg.get('iters', 0), insts=[r['inst'] for r in recs])
    fns = [Functions(r['inst'], cfg.get('jac')) for r in recs]
    if kind == 'limit':
        # the residual after a few iterations, then a tolerance just below it
        emit(ev='set', inst=1)
        for iters in range(cfg['iters']):
            alg = make(dict(cfg, tol=1e-14, iters=iters))
            give(alg, fns[0])
            out, sol, _, _ = run(alg, fns[0], arg)
            r = fns[0].residual(sol) if out == '' else 0.0
            for f in (0.4, 0.7, 0.97):
                if 1e-7 < f * r < 1:
                    c = dict(cfg, tol=f * r if cfg['alg'] in ('Armijo',) + ROOT else (f * r) ** 2, iters=iters)
                    alg = make(c)
                    give(alg, fns[0])
                    report(recs[0], c, fns[0], arg, alg, emit, fresh=False)
    elif kind == 'pool':
        alg = make(cfg)
        give(alg, fns[0])
        emit(ev='set', inst=1)
        out, sol, _, _ = run(alg, fns[0], 2)
        for order in arg:
            a2 = make(cfg)
            give(a2, fns[0])
            pool = Pool(order)
            out2, sol2, _, _ = run(a2, fns[0], 2, pool)
            same = out == out2 and (out != '' or equal(state_of(sol), state_of(sol2))
                                    and bool(sol.converged) == bool(sol2.converged))
            emit(ev='pool', same=bool(same), order=order, calls=pool.calls, out=out2)
    else:
        alg = make(cfg)
        had = None
        for i, o in enumerate(arg):
            if o['op'] == 'set':
                give(alg, fns[o['inst'] - 1], had)
                had = fns[o['inst'] - 1] if len(repr(recs)) % 2 else None
                emit(ev='set', inst=o['inst'])
            else:
                report(recs[o['inst'] - 1], cfg, fns[o['inst'] - 1], o['g'], alg, emit, fresh=kind == 'hist')
    return events


SH = dict(solver='shooting')
SOFT_QUICK = ['SLSQP', 'lm', 'BFGS', 'COBYLA']
SOFT = ['SLSQP', 'lm', 'BFGS', 'COBYLA', 'broyden1', 'anderson', 'krylov', 'df-sane', 'Nelder-Mead', 'Powell', 'CG',
        'L-BFGS-B', 'TNC', 'trust-constr']


def configs(quick):
    c = [dict(SH, alg='Armijo', arcs=a, tol=1e-6, hard=True) for a in ((1, 2, 4) if quick else (1, 2, 3, 4, 6))]
    c += [dict(SH, alg='Armijo', arcs=2, tol=1e-3, hard=True)]
    c += [dict(SH, alg='fsolve', arcs=a, tol=1e-8, hard=True) for a in (1, 3)]
    c += [dict(SH, alg='hybr', arcs=a, tol=1e-7, hard=False) for a in (1, 2)]
    c += [dict(solver='spbvp', hard=True), dict(solver='spbvp', hard=True, jac=True)]
    # given up early: whatever comes back, the flag must be honest
    c += [dict(SH, alg='Armijo', arcs=2, tol=1e-12, hard=False, iters=0), dict(solver='spbvp', hard=False, nodes=3),
          dict(SH, alg='SLSQP', arcs=2, tol=1e-8, hard=False, iters=1)]
    c += [dict(SH, alg=a, arcs=r, tol=1e-6, hard=False) for a in (SOFT_QUICK if quick else SOFT) for r in ((1,) if quick else (1, 2))]
    return c


def spread(recs, n, rng):
    """n instances of every type."""
    out = []
    for ty in ('chain', 'slope', 'param', 'mult', 'quad', 'all', 'many', 'recip', 'clash', 'noreal', 'almost', 'steep'):
        of = [r for r in recs if r['inst']['type'] == ty]
        of.sort(key=json.dumps)
        idx = rng.permutation(len(of))[:n]
        out += [of[i] for i in idx]
    return out


def check(ck):
    out = os.path.join(ck.work, 'out')
    os.makedirs(out)
    rng = np.random.default_rng(ck.seed)
    env = {'OUTDIR': out}
    ck.model('SolverMC', 'SolverInst.cfg' if ck.quick else 'SolverInstDeep.cfg', env=env, workers=1)
    recs = read(out + '/inst.ndjson')
    jobs = []
    if ck.prop in ('C13', 'C15'):
        for i, cfg in enumerate(configs(ck.quick)):
            soft = not cfg['hard']
            n = (1 if soft else 3) if ck.quick else (6 if soft else 40)
            for r in spread(recs, n, rng):
                jobs.append(('solve', cfg, [r], [dict(op='set', inst=1), dict(op='solve', g=1 + (i % 2), inst=1)]))
    if ck.prop == 'C13':
        for a in (1, 2, 3):
            for alg in ('Armijo', 'hybr', 'SLSQP'):
                cfg = dict(SH, alg=alg, arcs=a, tol=1e-6, hard=False, iters=4)
                for r in spread(recs, 3 if ck.quick else 12, rng):
                    if r['inst']['type'] in ('param', 'all', 'many', 'recip', 'quad'):
                        jobs += [('limit', cfg, [r], g) for g in (1, 2)]
    if ck.prop == 'C14':
        for a in (2, 3, 4):
            ck.model('SolverPool', 'SolverPool%d.cfg' % a, env=env, workers=1)
            orders = [json.loads(x) for x in sorted({json.dumps(o['order']) for o in read(out + '/order%d.ndjson' % a)})]
            cfg = dict(SH, alg='Armijo', arcs=a, tol=1e-6, hard=True)
            for r in spread(recs, 1 if ck.quick else 8, rng):
                jobs.append(('pool', cfg, [r], orders))
        for alg in ('fsolve', 'hybr', 'SLSQP'):
            for r in spread(recs, 1, rng):
                jobs.append(('pool', dict(SH, alg=alg, arcs=2, tol=1e-6, hard=False), [r], [[2, 1]]))
        for r in spread(recs, 1, rng):
            jobs.append(('pool', dict(SH, alg='Armijo', arcs=1, tol=1e-6, hard=False), [r], [[1]]))
            jobs.append(('pool', dict(solver='spbvp', hard=False), [r], [[1]]))
    if ck.prop == 'C18':
        ck.model('SolverMC', 'SolverHist.cfg' if ck.quick else 'SolverHistDeep.cfg', env=env, workers=1)
        hist = sorted(read(out + '/hist.ndjson'), key=json.dumps)
        cfgs = [dict(SH, alg='Armijo', arcs=2, tol=1e-6, hard=True), dict(SH, alg='fsolve', arcs=1, tol=1e-6, hard=False),
                dict(solver='spbvp', hard=True), dict(solver='spbvp', hard=True, jac=True)]
        ty = ('chain', 'slope', 'param', 'mult', 'quad', 'all', 'recip', 'many')
        by = {x: sorted((r for r in recs if r['inst']['type'] == x), key=json.dumps) for x in ty}
        for cfg in cfgs:
            for h in hist:
                three = rng.permutation(len(ty))[:3]
                if rng.random() < 0.3:
                    three[1] = three[0]         # another instance of the same type
                elif rng.random() < 0.5:        # other boundary conditions for the same dynamics
                    three[:2] = rng.permutation(2)
                rs = [by[ty[i]][rng.integers(len(by[ty[i]]))] for i in three]
                jobs.append(('hist', cfg, rs, h['ops']))
    import beluga.numeric.bvp_solvers  # noqa: F401
    res = ck.pmap(one, jobs, chunksize=2)
    tr = vlib.Trace(os.path.join(ck.work, 'trace.ndjson'))
    for ev in res:
        tr.events += ev
    tr.write()
    n = [e for e in tr.events if e['ev'] == 'solve']
    ck.log('%d solver objects, %d solves, %d converged' % (len(jobs), len(n), sum(e['conv'] for e in n)))
    ck.validate('SolverTrace', 'SolverTrace.cfg', tr, {})
    ck.extra['solver_objects'] = len(jobs)
    ck.extra['instances'] = len(recs)
