"""Conformance of the guess generator (spec/Guess.tla): C24."""
import copy
import json
import os
import random

import numpy as np

import vlib
from capture import Stop


def read(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def poly(c, s):
    return sum((n / d) * s ** i for i, (n, d) in enumerate(c)) + 0 * s


def declare(p, rng):
    import beluga
    o = beluga.Problem('guess')
    o.independent('t', '1')
    if p['type'] == 'energy':
        o.state('x', 'v', '1').state('v', 'u', '1').control('u', '1').path_cost('w*u**2', '1')
        names = ['x', 'v', 't']
    elif p['type'] == 'two':
        o.state('x', 'u + r', '1').control('u', '1').control('r', '1').path_cost('w*u**2 + 2*w*r**2', '1')
        names = ['x', 't']
    else:
        o.state('x', 'u + t', '1').control('u', '1').path_cost('w*u**2', '1')
        names = ['x', 't']
    consts = [n + e for n in names for e in ('_0', '_f')] + ['w', 'w_0', 'k_f']
    rng.shuffle(consts)
    vals = {c: round(rng.uniform(-3, 3), 3) for c in consts}
    vals['w'] = float(p['w'])
    for c in consts:
        o.constant(c, vals[c], '1')
    for n in names:
        o.initial_constraint('%s - %s_0' % (n, n), '1')
        o.terminal_constraint('%s - %s_f' % (n, n), '1')
    o.scale(un_m=1)
    return o, consts, vals


def args(g, rng):
    """Keyword arguments of setup()."""
    if g['mode'] == 'static':
        return None
    kw = dict(start=list(g['start']) if rng.random() < .5 else np.array(g['start'], dtype=float),
              direction=g['dir'], time_integrate=g['T'] * rng.choice([1, 1, -1]) if g['T'] else 0)
    for n, q in (('costate_guess', g['lam']), ('control_guess', g['u'])):
        if q['how'] == 'scalar':
            kw[n] = rng.choice([int, float])(q['v'][0])
        elif q['how'] == 'list':
            kw[n] = list(q['v']) if rng.random() < .5 else np.array(q['v'], dtype=float)
    if rng.random() < .3:
        kw['use_control_guess'] = True
    if g['dir'] == 'forward' and rng.random() < .5:
        del kw['direction']
    if g['mode'] != 'static' and g['T'] == 1 and rng.random() < .5:
        del kw['time_integrate']
    return kw


def own(g, consts, vals):
    from beluga.numeric.data_classes.Trajectory import Trajectory
    s = g['sol']
    n = 6
    z = np.array([0, .1, .25, .5, .8, 1.]) * s['T']
    t = Trajectory(s['t0'] + z, np.array([poly(p, z) for p in s['x']]).T, np.zeros((n, 0)),
                   np.array([poly(p, z) for p in s['u']]).T)
    t.dual = np.array([poly(p, z) for p in s['lam']]).T
    t.dual_t = poly(s['lt'], z)
    t.const = np.array([vals[c] for c in consts])
    return t


def image(t):
    return [np.array(getattr(t, a), copy=True) for a in ('t', 'y', 'q', 'u', 'dual', 'dual_t', 'const',
                                                         'dynamical_parameters', 'nondynamical_parameters')]


def history(a):
    insts, bad, seed = a
    vlib.silence()
    import beluga
    from beluga.continuation.guess_generators import GuessGenerator
    from beluga.numeric.bvp_solvers import BaseAlgorithm
    rng = random.Random(seed)
    evs = [dict(ev='scn', seed=seed)]

    class Alg(BaseAlgorithm):
        def solve(self, solinit, **kw):
            self.got = copy.deepcopy(solinit)
            raise Stop()

    gen = None
    for inst in insts:
        g, p = inst['gen'], inst['prob']
        ocp, consts, vals = declare(p, rng)
        mine = own(g, consts, {c: round(v + .5, 3) if c != 'w' else v for c, v in vals.items()}) if g['mode'] == 'static' else None
        ev = dict(ev='setup', gen=g, out='')
        try:
            kw = dict(solinit=mine) if mine is not None else args(g, rng)
            how = rng.randrange(3) if gen is not None else rng.randrange(2)
            if how == 0:
                gen = GuessGenerator(mode=g['mode'], **kw)
            elif how == 1:
                gen = beluga.guess_generator(g['mode'], **kw)
            else:
                gen.setup(g['mode'], **kw)
        except Exception as e:
            ev['out'] = vlib.excinfo(e)
        evs.append(ev)
        if ev['out']:
            return evs
        before = image(mine) if mine is not None else None
        for rep in range(2):
            helper = rng.random() < .5
            method = rng.choice(['traditional', 'diffyg'])
            ev = dict(ev='generate', prob=p, helper=helper, method=method, y0={}, yf={}, n=0, unit=False, dur=0, x=0, u=0, lam=0,
                      t=0, lt=0, const={}, given={}, same=True, out='')
            try:
                alg = Alg()
                cap = {}

                class Peek:
                    """The generator, observed."""

                    def __setattr__(self, n, v):
                        setattr(gen, n, v)

                    def generate(self, fp, *rest):
                        cap['b'] = fp.prob
                        return gen.generate(fp, *rest)
                try:
                    beluga.solve(ocp=ocp, method=method, bvp_algorithm=alg, guess_generator=Peek(), autoscale=False,
                                 initial_helper=helper, steps=None, save_sols=False,
                                 optim_options=dict(control_method=p['control']))
                except Stop:
                    pass
                s, b = alg.got, cap['b']
                cols = {n.name: np.asarray(s.y, dtype=float)[:, i] for i, n in enumerate(b.states)}
                if p['control'] == 'algebraic':
                    cols.update({n.name: np.asarray(s.u, dtype=float)[:, i] for i, n in enumerate(b.controls)})
                z = np.asarray(s.t, dtype=float)
                dur = float(s.dynamical_parameters[[q.name for q in b.parameters].index(b.parameters[-1].name)])
                r = inst['res']
                D = inst['dur'][0] / inst['dur'][1]
                xn = ['x', 'v'] if p['type'] == 'energy' else ['x']
                un = ['u', 'r'] if p['type'] == 'two' else ['u']
                q9 = lambda v: int(min(2e9, v * 1e9)) if np.isfinite(v) else 2000000000
                dev = lambda names, ps: q9(max(float(np.max(np.abs(cols[n] - poly(pp, D * z)))) for n, pp in zip(names, ps)))
                mic = lambda k: {n: int(round(1e6 * float(c[k]))) for n, c in cols.items()}
                ocon = [vals[c] for c in consts] if mine is None else list(mine.const)
                bc = [c.name for c in b.constants]
                ev.update(n=len(z), unit=bool(z[0] == 0 and abs(z[-1] - 1) < 1e-12 and np.all(np.diff(z) > 0)),
                          dur=int(round(dur * 1e6)), y0=mic(0), yf=mic(-1), x=dev(xn, r['x']), u=dev(un, r['u']),
                          lam=dev(['_lam_' + n for n in xn], r['lam']), t=dev(['t'], [inst['clock']]),
                          lt=dev(['_lam_t'], [r['lt']]),
                          const={n: int(round(1e6 * float(v))) for n, v in zip(bc, s.const)},
                          given={n: int(round(1e6 * v)) for n, v in zip(consts, ocon)})
                if len(s.const) != len(consts):
                    ev['const'] = {}
            except Exception as e:
                import traceback
                ev.update(out=vlib.excinfo(e), detail=traceback.format_exc()[-1200:])
            if mine is not None:
                ev['same'] = all(np.array_equal(x, y) for x, y in zip(before, image(mine)))
            evs.append(ev)
    if bad is not None:
        ev = dict(ev='setup', gen=bad, out='')
        try:
            gen.setup(bad['mode'], **args(bad, rng)) if rng.random() < .5 else GuessGenerator(mode=bad['mode'], **args(bad, rng))
        except Exception as e:
            ev['out'] = vlib.excinfo(e)
        evs.append(ev)
    return evs


def check(ck):
    os.environ['NUMBA_DISABLE_JIT'] = '1'
    out = os.path.join(ck.work, 'out')
    os.makedirs(out)
    ck.model('GuessMC', 'GuessMC.cfg' if ck.quick else 'GuessDeep.cfg', env={'OUTDIR': out}, workers=1, timeout=850)
    insts = read(out + '/inst.ndjson')
    rng = random.Random(ck.seed)
    kinds = {}
    for i in insts:
        g = i['gen']
        k = (i['prob']['type'], i['prob']['control'], g['mode']) + ((g['sol']['T'] > 0,) if g['mode'] == 'static' else
                                                                    (g['dir'], g['lam']['how'], g['u']['how']))
        kinds.setdefault(k, []).append(i)
    base = dict(mode='auto', dir='forward', T=1, start=[1], lam=dict(how='default', v=[]), u=dict(how='default', v=[]))
    bads = [dict(base, mode='random'), dict(base, dir='sideways'), dict(base, T=0), dict(base, mode='ones', dir='back'),
            dict(base, mode='ones', T=0)]
    jobs = []
    names = sorted(kinds)
    for r in range(2 if ck.quick else 16):
        rng.shuffle(names)
        for i in range(0, len(names), 2):
            pair = [rng.choice(kinds[k]) for k in names[i:i + 2]]
            jobs.append((pair, bads[len(jobs) % 5] if rng.random() < .4 else None, rng.getrandbits(30)))
    import beluga  # noqa: F401
    res = ck.pmap(history, jobs, chunksize=2)
    tr = vlib.Trace(os.path.join(ck.work, 'trace.ndjson'))
    for evs in res:
        for e in evs:
            tr.add(**e)
    tr.write()
    ck.log('%d generator histories' % len(jobs))
    ck.validate('GuessTrace', 'GuessTrace.cfg', tr, {}, props_only=False)
    ck.extra['histories'] = len(jobs)
