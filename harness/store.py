"""Conformance of saving and loading (spec/Store.tla): C19."""
import glob
import hashlib
import json
import os
import subprocess
import sys

import numpy as np

import vlib

ARRAYS = ('t', 'y', 'q', 'u', 'dual', 'dual_t', 'dual_u')
CONSTS = ('const', 'dynamical_parameters', 'nondynamical_parameters')


def kinds(sol):
    """The three kinds of data of a solution, as texts."""
    def arr(names):
        h = hashlib.sha256()
        for n in names:
            a = np.ascontiguousarray(np.asarray(getattr(sol, n), dtype=float))
            h.update(('%s%s' % (n, a.shape)).encode() + a.tobytes())
        return h.hexdigest()[:20]
    return {'y': arr(ARRAYS) + ('' if works(sol) else ' not evaluable'), 'const': arr(CONSTS),
            'meta': '%r %r' % (bool(sol.converged), float(sol.cost))}


def works(sol):
    if not len(sol.t):
        return True
    y, q, u = sol(float(sol.t[0]))
    return bool(np.allclose(y, np.asarray(sol.y)[0]))


def problem():
    import beluga
    o = beluga.Problem('stored')
    scale = 3.0

    def bump(x):                       # known to this call only, so it is stored by value
        return scale / (1 + x * x)
    o.independent('t', '1').state('x', 'k*u + tab(x) + bump(x)', '1').control('u', '1').constant('k', 4, '1')
    o.table('tab', '1d_spline', [0., 1., 0., 2., 1.], [0., 1., 2., 3., 4.], '1', ['1'])
    o.custom_function('bump', bump, '1', ['1'])
    o.path_cost('u**2', '1').initial_constraint('x', '1').initial_constraint('t', '1')
    o.terminal_constraint('x - 1', '1').terminal_constraint('t - 1', '1').scale(m=1)
    return o


Y = np.array([0.7, 0.2, 0.4, 0.3, -0.6])      # x, t, u and the costates of x and t, in some order


def behaviour(fp, bvp):
    """Values of the compiled functions and of the maps at a fixed point."""
    from beluga.numeric.data_classes.Trajectory import Trajectory
    n, p, nu = len(bvp.states), np.ones(len(bvp.parameters)), np.ones(len(bvp.constraint_parameters))
    y, k = Y[:n], np.array([2.5])
    v = [np.ravel(fp.deriv_func(y, p, k)), np.ravel(fp.bc_func(y, y[::-1], p, nu, k))]
    sol = Trajectory(np.array([0., 1.]), np.vstack((y, y + 0.1)))
    sol.dynamical_parameters, sol.nondynamical_parameters, sol.const = p, nu, k
    s = bvp.inv_map_sol(sol)
    v += [np.ravel(s.t), np.ravel(s.y), np.ravel(s.u), np.ravel(s.dual), np.ravel(s.cost)]
    return np.concatenate([np.asarray(x, dtype=float) for x in v])


def known():
    """The behaviour of the problem, freshly declared."""
    global _KNOWN
    try:
        return _KNOWN
    except NameError:
        cap = compiled(problem())
        _KNOWN = behaviour(cap.fp, cap.fp.prob)
        return _KNOWN


def compiled(o):
    from capture import Captured
    return Captured(o, 'traditional', control_method='differential')


def same(v):
    return v.shape == known().shape and bool(np.allclose(v, known(), rtol=1e-9, atol=1e-9))


def number(part, obj, deep):
    """The number a stored problem stands for, -1 if it does not work."""
    try:
        d = float(obj.constants[0].default_val)
        v = int(d) if d == int(d) else -1
        if deep and part == 'ocp':
            cap = compiled(obj)
            if not (same(behaviour(cap.fp, cap.fp.prob)) and list(cap.const) == [d]):
                v = -1
        if deep and part == 'bvp' and not same(behaviour(obj.functional_problem, obj)):
            v = -1
        return v
    except Exception:
        return -1


def view(rec, deep=False):
    """A record of parts -> texts and numbers."""
    out = {}
    for p, x in rec.items():
        if p == 'solutions':
            out[p] = [[kinds(s) for s in step] for step in x]
        else:
            out[p] = number(p, x, deep)
    return out


class Names:
    """Texts of the data -> the numbers of the specification."""

    def __init__(self):
        self.ids = {}

    def learn(self, kind, text, v):
        self.ids[kind, text] = v

    def value(self, w):
        return {p: [[{k: self.ids.get((k, t), -1) for k, t in s.items()} for s in step] for step in x]
                if p == 'solutions' else x for p, x in w.items()}


def new_solution(v, rng):
    from beluga.numeric.data_classes.Trajectory import Trajectory
    n = 4
    s = Trajectory(np.linspace(0, 1 + v, n), rng.standard_normal((n, 2)), rng.standard_normal((n, 1)),
                   rng.standard_normal((n, 1)))
    s.dual, s.dual_t, s.dual_u = rng.standard_normal((n, 2)), rng.standard_normal(n), rng.standard_normal((n, 1))
    change(s, 'const', v, rng), change(s, 'meta', v, rng)
    return s


def change(s, what, v, rng):
    if what == 'y':                              # in place
        s.y[...] = rng.standard_normal(s.y.shape)
        s.dual = rng.standard_normal(np.shape(s.dual))
    elif what == 'const':
        s.const, s.dynamical_parameters = rng.standard_normal(2), rng.standard_normal(1)
        s.nondynamical_parameters = rng.standard_normal(3)
    else:
        s.cost, s.converged = float(v) + 0.25, bool(v % 2)


def solve(ocp, v, rng, save):
    import beluga
    from beluga.numeric.bvp_solvers import BaseAlgorithm, BVPResult

    class Guess:
        def generate(self, fp, solinit, fmap, imap):
            from beluga.numeric.data_classes.Trajectory import Trajectory
            b = fp.prob
            sol = Trajectory(np.array([0., 1.]), np.ones((2, len(b.states))))
            sol.const = np.array([float(b.constants[0].default_val)])
            sol.dynamical_parameters, sol.nondynamical_parameters = np.ones(len(b.parameters)), np.ones(
                len(b.constraint_parameters))
            return sol

    class Alg(BaseAlgorithm):
        def solve(self, solinit, **kw):
            s = solinit
            s.y = rng.standard_normal(s.y.shape)
            s.y[:, 1] = [0., 1 + v]
            s.nondynamical_parameters = rng.standard_normal(len(s.nondynamical_parameters))
            s.converged = True
            return BVPResult(sol=s, success=True, message='', niter=1)
    return beluga.solve(ocp=ocp, bvp_algorithm=Alg(), guess_generator=Guess(), steps=None, autoscale=False,
                        optim_options={'control_method': 'differential'}, save_sols=save)


def replay(job):
    idx, hist, base, seed = job
    vlib.silence()
    os.environ['NUMBA_DISABLE_JIT'] = '1'
    from beluga.utils import save, load
    rng = np.random.default_rng([seed, idx])
    here = os.path.join(base, str(idx))
    os.makedirs(here)
    os.chdir(here)
    ev, names = [{'ev': 'scn', 'idx': idx}], Names()
    ocp = problem()
    cap = compiled(ocp)
    bvp = cap.fp.prob
    bvp.constants[0].default_val = 5.
    live = {'solutions': [[new_solution(3, rng)]], 'ocp': ocp, 'bvp': bvp}
    for k, v in zip(('y', 'const', 'meta'), (1, 2, 3)):
        names.learn(k, kinds(live['solutions'][0][0])[k], v)
    loaded = []

    def look(i, rec, deep=False, f=''):
        ev.append({'ev': 'look', 'i': i, 'f': f, 'val': names.value(view(rec, deep))})
    for o in hist:
        out = ''
        try:
            if o['op'] == 'save':
                save(**{{'solutions': 'sol_set'}.get(p, p): live[p] for p in o['parts']}, filename=o['f'])
            elif o['op'] == 'load':
                loaded.append(load(o['f']))
            elif o['op'] == 'touch':
                rec = loaded[o['i'] - 1] if o['i'] else live
                if o['what'] in ('ocp', 'bvp'):
                    rec[o['what']].constants[0].default_val = float(o['v'])
                elif o['what'] == 'append':
                    s = new_solution(o['v'], rng)
                    rec['solutions'].append([s])
                    for k, t in kinds(s).items():
                        names.learn(k, t, o['v'])
                else:
                    s = rec['solutions'][0][0]
                    change(s, o['what'], o['v'], rng)
                    names.learn(o['what'], kinds(s)[o['what']], o['v'])
            else:
                save_sols = False if o['f'] == '' else True if o['f'] == 'data.beluga' else o['f']
                live['solutions'] = solve(live['ocp'], o['v'], rng, save_sols)
                for k, t in kinds(live['solutions'][0][0]).items():
                    names.learn(k, t, number('ocp', live['ocp'], False) if k == 'const' else o['v'])
        except Exception as e:
            out = vlib.excinfo(e)
            if o['op'] == 'load' and out == '':
                loaded.append({})
        ev.append({'ev': 'op', 'o': o, 'out': out, 'files': sorted(os.listdir('.'))})
        if out not in ('', 'FileNotFoundError'):
            return ev, [], None
        for i, r in enumerate([live] + loaded):
            look(i, r)
    for i, r in enumerate([live] + loaded):
        look(i, r, deep=True)
    return ev, [os.path.join(here, f) for f in sorted(os.listdir('.'))], names


def elsewhere(paths):
    """What another process finds in the files."""
    p = subprocess.run([sys.executable, os.path.abspath(__file__)] + paths, stdout=subprocess.PIPE, timeout=600,
                       env={**os.environ, 'NUMBA_DISABLE_JIT': '1', 'PYTHONPATH': vlib.REPO})
    if p.returncode:
        raise vlib.ToolError('the loading process failed')
    return json.loads(p.stdout.decode().splitlines()[-1])


def check(ck):
    os.environ['NUMBA_DISABLE_JIT'] = '1'
    ck.model('StoreMC', 'StoreMC.cfg' if ck.quick else 'StoreDeep.cfg', env={'OUTDIR': ''}, workers=8, timeout=800)
    hdir, base = os.path.join(ck.work, 'hist'), os.path.join(ck.work, 'files')
    os.makedirs(hdir), os.makedirs(base)
    ck.model('StoreMC', 'StoreSim.cfg', env={'OUTDIR': hdir}, workers=1, timeout=800,
             extra=('-simulate', 'num=%d' % (64 if ck.quick else 1200), '-depth', '100', '-seed', str(ck.seed)))
    hists = []
    for p in sorted(glob.glob(hdir + '/*.json'), key=lambda x: int(os.path.basename(x)[:-5])):
        with open(p) as f:
            hists.append(json.load(f))
    import beluga  # noqa: F401
    jobs = [(i, h, base, ck.seed) for i, h in enumerate(hists)]
    res = ck.pmap(replay, jobs, chunksize=1)
    groups = [res[i::8] for i in range(8)]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        seen = list(ex.map(elsewhere, [[f for _, fs, _ in g for f in fs] for g in groups]))
    found = {k: v for s in seen for k, v in s.items()}
    tr = vlib.Trace(os.path.join(ck.work, 'trace.ndjson'))
    for ev, files, names in res:
        tr.events += ev
        for f in files:
            tr.add(ev='look', i=-1, f=os.path.basename(f), val=names.value(found[f]) if 'error' not in found[f]
                   else {'error': 1})
    tr.write()
    ck.log('%d histories, %d files loaded in other processes' % (len(hists), len(found)))
    ck.validate('StoreTrace', 'StoreTrace.cfg', tr, {}, props_only=False)
    ck.extra['histories'] = len(hists)
    ck.extra['operations'] = sum(len(h) for h in hists)
    ck.extra['loaded_elsewhere'] = len(found)


if __name__ == '__main__':
    out, real = {}, sys.stdout
    vlib.silence()
    from beluga.utils import load as _load
    for _p in sys.argv[1:]:
        try:
            out[_p] = view(_load(_p), deep=True)
        except Exception as _e:
            out[_p] = {'error': repr(_e)}
    print(json.dumps(out), file=real, flush=True)
