"""C29: requests to solve() (spec/Front.tla)."""
import glob
import json
import os

import numpy as np

import vlib


def problem(k):
    import beluga
    o = beluga.Problem('front%d' % k)
    o.independent('t', 's').state('x', 'u - a*x', 'm').control('u', 'm')
    o.constant('a', 1, '1').constant('x_f', 1, 'm')
    o.initial_constraint('x', 'm').initial_constraint('t', 's')
    o.terminal_constraint('x - x_f', 'm').terminal_constraint('t - 1', 's')
    if k == 2:
        o.state('y', 'w + x', 'm').control('w', 'm')
        o.initial_constraint('y', 'm').terminal_constraint('y - 2', 'm')
        o.path_cost('u**2 + w**2', 'm^2')
    else:
        o.path_cost('u**2', 'm^2')
    if k == 3:
        o.constant('e', 1, 'm^2').path_constraint('x', 'm', '-5', '5', 'e', method='nosuch')
    o.scale(m=1, s=1)
    return o


class FakePool:
    made = []

    def __init__(self, processes=None, **kw):
        self.n, self.open = processes, True
        FakePool.made.append(self)

    def map(self, f, *a, **kw):
        return [f(*x) for x in zip(*a)]

    def close(self):
        self.open = False

    def join(self):
        pass

    terminate = clear = close


def spell(s, how):
    return {'lower': s, 'Title': s.capitalize(), 'UPPER': s.upper()}[how]


def request(r, kept):
    import beluga
    from beluga.utils import load
    solver = beluga.bvp_algorithm('spbvp')
    calls = []
    inner = solver.solve

    def solve(*a, **kw):
        res = inner(*a, **kw)
        calls.append(np.asarray(a[0].y).shape[1])
        return res
    solver.solve = solve
    n = 2 if r['ocp'] == 2 else 1
    g = beluga.guess_generator('auto', start=[0.] * n, direction='forward', costate_guess=-0.1, control_guess=[0.1] * n,
                               use_control_guess=True, time_integrate=1.)
    steps = beluga.init_continuation()
    steps.add_step('bisection').num_cases(2).const('x_f', 1.5)
    kw = {}
    if r['bvp']:
        bvp = load(kept[r['bvp'] - 1])['bvp']
        kw['bvp'] = bvp
        if r['maps'] in ('both', 'to'):
            kw['ocp_map'] = bvp.map_sol
        if r['maps'] in ('both', 'from'):
            kw['ocp_map_inverse'] = bvp.inv_map_sol
    if r['ocp']:
        kw['ocp'] = problem(r['ocp'])
    before = set(os.listdir('.'))
    name = 'r%d.beluga' % len(before)
    FakePool.made.clear()
    out, sol = '', None
    try:
        sol = beluga.solve(method=spell(r['method'], r['mspell']), n_cpus=r['cpus'], autoscale=False, steps=steps,
                           optim_options={'control_method': spell(r['cm'], r['cspell']), 'analytical_jacobian': r['jac']},
                           bvp_algorithm=solver, guess_generator=g, save_sols=name, **kw)
    except Exception as e:
        out = vlib.excinfo(e)
    e = {'ev': 'solve', 'r': r, 'out': out, 'solves': len(calls), 'files': len(set(os.listdir('.')) - before),
         'n': calls[0] if calls else 0, 'conv': False, 'cls': 0, 'workers': sum(p.n for p in FakePool.made),
         'closed': not any(p.open for p in FakePool.made)}
    data = None
    if sol is not None:
        if out == '':
            kept.append(name)
        try:
            s = sol[-1][-1]
            e['conv'] = bool(s.converged)
            grid = np.linspace(s.t[0], s.t[-1], 9)
            vals = [s(v) for v in grid]
            data = np.concatenate([np.ravel(v[0]) for v in vals] + [np.ravel(v[2]) for v in vals] + [[s.cost, s.t[0], s.t[-1]]])
        except Exception as x:
            e['out'] = vlib.excinfo(x)
    return e, data


def replay(job):
    idx, hist, base = job
    vlib.silence()
    import beluga.beluga as mod
    real, mod.pathos.multiprocessing.Pool = mod.pathos.multiprocessing.Pool, FakePool
    here = os.path.join(base, str(idx))
    os.makedirs(here)
    os.chdir(here)
    kept, res = [], []
    try:
        for r in hist:
            e, d = request(r, kept)
            res.append((e, d))
            want = bool_ok(r, kept, e)
            if want is False:
                break
    finally:
        mod.pathos.multiprocessing.Pool = real
    return res


def bool_ok(r, kept, e):
    """Histories end at the first surprise (what follows would be judged against the wrong past)."""
    good = (r['cpus'] >= 1 and r['ocp'] and (r['ocp'] != 3 or r['bvp']) and (r['maps'] == 'both' if r['bvp'] else r['method'] != 'nosuch'
                                             and r['cm'] in ('differential', 'algebraic')))
    return bool(good) == (e['out'] == '')


def makes():
    import beluga
    from beluga.continuation import ContinuationList

    def go(known, want, f):
        try:
            out, got = '', f()
        except Exception as x:
            out, got = vlib.excinfo(x), ''
        return {'ev': 'make', 'known': known, 'want': want, 'got': got, 'out': out}
    for n, w in (('spbvp', 'SPBVP'), ('SPBVP', 'SPBVP'), ('shooting', 'Shooting'), ('Shooting', 'Shooting')):
        yield go(True, w, lambda: type(beluga.bvp_algorithm(n)).__name__)
    for n in ('', 'spbv', 'shooting2', 'BaseAlgorithm', 'collocation'):
        yield go(False, '', lambda: type(beluga.bvp_algorithm(n)).__name__)
    for n in ('auto', 'ones', 'static'):
        kw = {'auto': {'start': [1.]}, 'ones': {'start': [1.]}, 'static': {'solinit': 0}}[n]
        yield go(True, n, lambda: beluga.guess_generator(n, **kw).mode)
    for n in ('', 'Auto', 'twos', 'file'):
        yield go(False, '', lambda: beluga.guess_generator(n, start=[1.]).mode)
    strategies = ('manual', 'bisection', 'productspace', 'sparse_product')
    for n in strategies:
        def add():
            c = beluga.init_continuation()
            s, t = c.add_step(n), c.add_step(n)
            return '%s %s' % (s.strategy_name, [x is y for x, y in zip(c, (s, t))])
        yield go(True, n + ' [True, True]', add)
    for n in ('', 'Manual', 'bisect'):
        yield go(False, '', lambda: beluga.init_continuation().add_step(n).strategy_name)

    def own():
        c, d = beluga.init_continuation(), beluga.init_continuation()
        s = c.add_step('manual')
        t = d.add_step(s)
        return '%s %d %d' % (s is t and d[0] is s, len(c), len(d))
    yield go(True, 'True 1 1', own)
    yield go(True, '0', lambda: str(len(ContinuationList())))


def check(ck):
    os.environ['NUMBA_DISABLE_JIT'] = '1'
    ck.model('FrontMC', 'FrontMC.cfg', env={'OUTDIR': ''}, workers=8)
    hdir, base = os.path.join(ck.work, 'hist'), os.path.join(ck.work, 'files')
    os.makedirs(hdir), os.makedirs(base)
    ck.model('FrontMC', 'FrontSim.cfg', env={'OUTDIR': hdir}, workers=1, timeout=800,
             extra=('-simulate', 'num=%d' % (64 if ck.quick else 400), '-depth', '50', '-seed', str(ck.seed)))
    hists = [json.load(open(p)) for p in sorted(glob.glob(hdir + '/*.json'), key=lambda x: int(os.path.basename(x)[:-5]))]
    import beluga  # noqa: F401
    jobs = [(i, h, base) for i, h in enumerate(hists)]
    res = ck.pmap(replay, jobs, chunksize=1)
    tr = vlib.Trace(os.path.join(ck.work, 'front.ndjson'))
    seen, groups, n = [], {}, 0
    for i, h in enumerate(res):
        tr.add(ev='scn', idx=i)
        keys = []
        for e, d in h:
            r = e['r']
            if d is not None and e['out'] == '':
                for k, x in enumerate(seen):
                    if x.shape == d.shape and np.allclose(x, d, rtol=1e-7, atol=1e-7):
                        break
                else:
                    seen.append(d)
                    k = len(seen) - 1
                e['cls'] = k + 1
                m = 'traditional' if r['method'] != 'diffyg' else 'diffyg'
                key = keys[r['bvp'] - 1] if r['bvp'] else (r['ocp'], m, r['cm'], r['jac'])
                keys.append(key)
                groups.setdefault(key, []).append(k + 1)
                n += 1
            tr.events.append(e)
    tr.add(ev='scn', idx=-1)
    for k in sorted(groups):
        tr.add(ev='all', key=list(k), cls=groups[k])
    for e in makes():
        tr.events.append(e)
    ck.log('%d requests, %d solved, %d different problems' % (sum(len(h) for h in res), n, len(groups)))
    ck.extra.update(requests=sum(len(h) for h in res), solved=n)
    ck.validate('FrontTrace', 'FrontTrace.cfg', tr, {}, props_only=False)
