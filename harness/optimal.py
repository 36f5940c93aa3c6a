"""End to end: problems with known optima through solve() in every configuration (spec/Optimal.tla): C25."""
import json
import os
import random
import signal
import time

import numpy as np

import vlib


def read(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


class Overtime(Exception):
    pass


def overtime(*a):
    raise Overtime()


def poly(c, s):
    return sum((n / d) * s ** i for i, (n, d) in enumerate(c)) + 0 * s


class Model:
    """One problem declared through the public interface."""

    def __init__(self, inst, rng, reduce=False):
        self.inst, ty, self.reduce = inst, inst['type'], reduce
        k = [float(x) for x in inst['k']]
        self.T, self.t0 = float(inst['T']), float(inst['t0'])
        self.target = {'x_0': k[0], 't_0': self.t0}
        self.states, self.controls = ['x'], ['u']
        self.fixed = {}
        self.dyn = {'x': 'u'}
        self.path, self.initial, self.terminal = 'w*u**2', None, None
        self.psi0, self.psif = ['x - x_0', 't - t_0'], ['x - x_f', 't - t_f']
        if ty == 'energy':
            self.states = ['x', 'v']
            self.dyn = {'x': 'v', 'v': 'u - g'}
            self.target.update(v_0=k[1], x_f=k[2], v_f=k[3])
            self.fixed.update(g=k[4], w=k[5])
            self.psi0, self.psif = ['x - x_0', 'v - v_0', 't - t_0'], ['x - x_f', 'v - v_f', 't - t_f']
        elif ty == 'soft':
            self.target.update(x_f=k[1])
            self.fixed.update(Q=k[2], w=k[3])
            self.terminal, self.psif = 'Q*(x - x_f)**2', ['t - t_f']
        elif ty == 'start':
            self.target.update(x_f=k[1])
            self.fixed.update(Q=k[2], w=k[3])
            self.initial, self.psi0 = 'Q*(x - x_0)**2', ['t - t_0']
        elif ty == 'free':
            self.target.update(x_f=k[1])
            self.fixed.update(c=k[2])
            self.path, self.psif = 'c**2 + u**2', ['x - x_f']
        elif ty == 'two':
            self.controls = ['u', 'r']
            self.dyn = {'x': 'u + r'}
            self.target.update(x_f=k[1])
            self.path = 'u**2 + 2*r**2'
        else:
            self.dyn = {'x': 'u + t'}
            self.target.update(x_f=k[1])
            self.fixed.update(w=k[2])
        if ty != 'free':
            self.target['t_f'] = self.t0 + self.T
        else:
            self.T = abs(k[1] - k[0]) / k[2]
        self.start = [k[0]] + ([k[1]] if ty == 'energy' else [])

    def ocp(self, first):
        import beluga
        o = beluga.Problem('optimal')
        U = {'x': 'm', 'v': 'm/s', 'u': 'm/s', 'r': 'm/s'}
        ty = self.inst['type']
        if ty == 'energy':
            U['u'] = 'm/s**2'
        # the unit of "drift"'s t in x' = u + t is that of u: keep that problem dimensionless
        if ty == 'drift':
            U = {n: '1' for n in U}
        un = lambda s: U.get(s, '1')
        tu = '1' if ty == 'drift' else 's'
        o.independent('t', tu)
        for s in self.states:
            o.state(s, self.dyn[s], un(s))
        for c in self.controls:
            o.control(c, un(c))
        cu = '1' if ty == 'drift' else '(%s)**2*s' % un('u')
        pu = '1' if ty == 'drift' else '(%s)**2' % un('u')
        for n, v in {**first, **self.fixed}.items():
            base = n.split('_')[0]
            if base == 't':
                u = tu
            elif base in U:
                u = un(base)
            elif n == 'g':
                u = un('u')
            elif n == 'c':
                u = un('u')
            elif n == 'Q':
                u = '1' if ty == 'drift' else '1/s'
            else:
                u = '1'
            o.constant(n, v, u)
        o.path_cost(self.path, pu)
        if self.initial:
            o.initial_cost(self.initial, cu)
        if self.terminal:
            o.terminal_cost(self.terminal, cu)
        for e in self.psi0:
            o.initial_constraint(e, un(e[0]) if e[0] != 't' else tu)
        for e in self.psif:
            o.terminal_constraint(e, un(e[0]) if e[0] != 't' else tu)
        o.scale(m=2, s='4') if ty != 'drift' else o.scale(m=1)
        if self.reduce:
            o.symmetry(['1', '0'] if ty == 'energy' else ['1'], un('x'))
        return o


def solver(name):
    from beluga.numeric.bvp_solvers import Shooting, SPBVP
    if name == 'spbvp':
        return SPBVP()
    return Shooting(num_arcs=int(name[-1]), tolerance=1e-6)


def guess(mod, cfg):
    import beluga
    from beluga.numeric.data_classes.Trajectory import Trajectory
    ns, nc = len(mod.states), len(mod.controls)
    u0, l0 = 0.2, -0.2
    if mod.inst['type'] == 'free':      # the way to go: the opposite control is stationary too (with a negative duration)
        u0 = 0.8 * mod.fixed['c'] * np.sign(mod.target['x_f'] - mod.target['x_0'])
        l0 = -1.8 * u0
    if cfg['guess'] == 'static':
        n = 5
        t = mod.t0 + 0.9 * mod.T * np.linspace(0, 1, n)
        g = Trajectory(t, np.array([np.linspace(s, s + 0.3, n) for s in mod.start]).T, np.zeros((n, 0)),
                       np.full((n, nc), u0))
        g.dual = np.full((n, ns), l0)
        g.dual_t = np.zeros(n)
        first = {**mod.target, **mod.fixed}
        g.const = np.array([first[c] for c in mod.order])
        return beluga.guess_generator('static', solinit=g)
    return beluga.guess_generator(cfg['guess'], start=mod.start, direction='forward', time_integrate=0.8 * mod.T,
                                  costate_guess=[l0] * ns, control_guess=[u0] * nc, use_control_guess=True)


def run(args):
    rec, cfg, seed = args
    vlib.silence()
    import beluga
    rng = random.Random(seed)
    inst, opt = rec['inst'], rec['opt']
    # Newton from a rough guess is bound to succeed on the collocation equations only
    ev = dict(ev='solve', inst=inst, cfg=cfg, hard=cfg['solver'] == 'spbvp' or inst['type'] != 'energy')
    signal.signal(signal.SIGALRM, overtime)
    signal.alarm(100)
    t0 = time.time()
    try:
        mod = Model(inst, rng, cfg['reduce'])
        first = dict(mod.target)
        moving = [n for n in first if n.endswith('_f')]
        if cfg['steps'] != 'none':
            for n in moving:
                first[n] = first[n] + (0.4 if n[0] == 't' else 0.7)
        mod.order = list(first) + list(mod.fixed)
        steps = None
        if cfg['steps'] != 'none':
            steps = beluga.init_continuation()
            names = list(mod.target) if cfg['helper'] else moving
            names.sort(key=lambda n: ('t_f', 't_0').index(n) if n[0] == 't' else 2)   # never a negative duration
            if cfg['steps'] == 'product':
                s = steps.add_step('productspace')
                for n in names[:2]:
                    s.const(n, mod.target[n])
                s.num_subdivisions(2)
                rest = [n for n in names if n not in names[:2]]
                if rest:
                    s = steps.add_step('bisection').num_cases(2)
                    for n in rest:
                        s.const(n, mod.target[n])
            else:
                parts = [names] if cfg['steps'] == 'bisection' else [[n] for n in names]
                for i, part in enumerate(parts):
                    s = steps.add_step('bisection').num_cases(2 + i % 2)
                    for n in part:
                        s.const(n, mod.target[n])
        ocp = mod.ocp(first)
        sols = beluga.solve(ocp=ocp, method=cfg['method'], bvp_algorithm=solver(cfg['solver']), steps=steps,
                            guess_generator=guess(mod, cfg), autoscale=cfg['auto'], initial_helper=cfg['helper'],
                            optim_options=dict(control_method=cfg['control'], analytical_jacobian=cfg['jac'],
                                               **({'reduction': True} if mod.reduce else {})),
                            save_sols=False)
        want = [{**mod.target, **mod.fixed}[c] for c in mod.order]
        last = [s for s in sols[-1] if np.allclose(s.const, want, rtol=0, atol=1e-9)]
        if not last:
            raise KeyError('no solution for the requested constants: %s' % [list(s.const) for s in sols[-1]])
        s = last[-1]
        d = lambda a, b: float(np.max(np.abs(np.asarray(a, dtype=float) - b))) if np.shape(a) == np.shape(b) else 1e3
        t = np.asarray(s.t, dtype=float)
        z = t - mod.t0
        dur = opt['T'][0] / opt['T'][1]
        q = lambda v: int(min(2e9, v * 1e9)) if np.isfinite(v) else 2000000000
        J = opt['J'][0] / opt['J'][1]
        ev.update(out='', conv=bool(s.converged), n=len(t),
                  time=q(max(abs(t[0] - mod.t0), abs(t[-1] - mod.t0 - dur))),
                  mono=bool(np.all(np.diff(t) > 0)),
                  x=q(d(s.y, np.array([poly(p, z) for p in opt['x']]).T)),
                  u=q(d(s.u, np.array([poly(p, z) for p in opt['u']]).T)),
                  lam=q(d(s.dual, np.array([poly(p, z) for p in opt['lam']]).T)),
                  lt=q(d(s.dual_t, poly(opt['lt'], z))),
                  cost=q(abs(float(s.cost) - J) / (1 + abs(J))), ncase=[len(x) for x in sols])
        micro = lambda a: [int(round(float(x) * 1e6)) for x in a]
        ev.update(y0=micro(s.y[0]), yf=micro(s.y[-1]), J=int(round(float(s.cost) * 1e6)))
    except Exception as e:
        import traceback
        ev.update(out=vlib.excinfo(e), detail=traceback.format_exc()[-1500:], conv=False, n=0, mono=False,
                  x=0, u=0, lam=0, lt=0, cost=0, time=0, ncase=[], y0=[], yf=[], J=0)
    finally:
        signal.alarm(0)
    ev['wall'] = int(1000 * (time.time() - t0))
    return ev


def check(ck):
    os.environ['NUMBA_DISABLE_JIT'] = '1'
    out = os.path.join(ck.work, 'out')
    os.makedirs(out)
    ck.model('OptimalMC', 'OptimalMC.cfg' if ck.quick else 'OptimalDeep.cfg', env={'OUTDIR': out}, workers=1, timeout=800)
    insts, cfgs = read(out + '/inst.ndjson'), read(out + '/cfg.ndjson')
    rng = random.Random(ck.seed)
    kinds = {}
    for i in insts:
        kinds.setdefault(i['inst']['type'], []).append(i)
    names = sorted(kinds)
    jobs = []
    rng.shuffle(cfgs)
    for r in range(1 if ck.quick else 3):
        for j, c in enumerate(cfgs if not ck.quick else cfgs[:420]):
            jobs.append((rng.choice(kinds[names[(j + r) % len(names)]]), c, rng.getrandbits(30)))
    import beluga  # noqa: F401
    res = ck.pmap(run, jobs, chunksize=2)
    tr = vlib.Trace(os.path.join(ck.work, 'trace.ndjson'))
    for e in res:
        tr.add(ev='scn', type=e['inst']['type'], cfg=e['cfg'])
        tr.add(**e)
    tr.write()
    ck.log('%d problems solved end to end' % len(jobs))
    ck.validate('OptimalTrace', 'OptimalTrace.cfg', tr, {}, props_only=False)
    ck.extra['solves'] = len(jobs)
    ck.extra['configurations'] = len({json.dumps(j[1], sort_keys=True) for j in jobs})
