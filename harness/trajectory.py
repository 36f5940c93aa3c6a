"""Conformance of the trajectory object (spec/Traj.tla): C17."""
import json
import os
import random

import numpy as np

import vlib

POLYS = [(1, 2, 0, 0), (0, -1, 1, 0), (2, 0, -1, 1), (-3, 0, 0, 0)]
MESHES = [(0, 1, 2, 3), (0, 2, 3, 4, 6), (3, 1, 0, -1), (-2, 0, 1, 2, 4, 5)]


def read(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def ints(a, k=1000.):
    return [int(round(float(x) * k)) if np.isfinite(x) else 2000000000 for x in np.asarray(a, dtype=float).ravel()]


class Run:
    def __init__(self, tr, mesh, rng):
        from beluga.numeric.data_classes.Trajectory import Trajectory
        self.tr, self.rng, self.mesh = tr, rng, tuple(mesh)
        self.cols = {'y': [2, 3], 'q': [], 'u': []}
        self.vec = {}
        tr.add(ev='scn', mesh=list(mesh))
        t = np.array(mesh, dtype=float)
        how = rng.randrange(4)
        if how == 0:
            self.o = Trajectory(t, self.data('y'))
        elif how == 1:
            self.o = Trajectory()
            self.o.t, self.o.y = t, self.data('y')
        elif how == 2:
            self.o = Trajectory(t, self.data('y'), interpolation_type='Linear')
        else:
            self.o = Trajectory(Trajectory(t, self.data('y')))
        tr.add(ev='set', part='mesh', val=list(mesh))
        self.log('y')

    def data(self, part):
        t = np.array(self.mesh, dtype=float)
        c = self.cols[part]
        m = [sum(k * t ** i for i, k in enumerate(POLYS[j - 1])) + 0 * t for j in c]
        if not c:
            return np.array([]) if self.rng.random() < .5 else np.zeros((len(t), 0))
        return m[0] if self.vec.get(part) and len(c) == 1 else np.array(m).T

    def log(self, part):
        self.tr.add(ev='set', part=part, val=[list(POLYS[j - 1]) for j in self.cols[part]])

    def apply(self, op):
        if op['op'] == 'interp':
            k = op['kind']
            self.o.set_interpolate_function(k if k != 'first' else (lambda t, y: (lambda s: y[0] + 0 * np.asarray(s))))
            self.tr.add(ev='set', part='interp', val=k)
        elif op['op'] == 'mesh':
            self.mesh = MESHES[op['mesh'] - 1]
            self.o.t = np.array(self.mesh, dtype=float)
            self.tr.add(ev='set', part='mesh', val=list(self.mesh))
            for p in 'yqu':
                setattr(self.o, p, self.data(p))
        else:
            p = op['op']
            self.cols[p], self.vec[p] = list(op['cols']), op['vec']
            if self.rng.random() < .3 and getattr(self.o, p).shape == self.data(p).shape and self.cols[p]:
                getattr(self.o, p)[...] = self.data(p)        # changed in place
            else:
                setattr(self.o, p, self.data(p))
            self.log(p)

    def observe(self, full):
        rng, o = self.rng, self.o
        lo, hi = 4 * min(self.mesh), 4 * max(self.mesh)
        reqs = [([rng.randint(lo, hi)], True), ([rng.randint(lo, hi) for _ in range(rng.choice([1, 2, 3, 4]))], False)]
        if full:
            reqs += [([4 * rng.choice(self.mesh)], True), ([rng.choice([lo, hi])], True), ([lo - 1], True),
                     ([lo, hi + 2], False), ([4 * m for m in self.mesh], False)]
        for ts, scalar in reqs:
            ev = dict(ev='eval', ts=ts, scalar=scalar)
            try:
                arg = ts[0] / 4 if scalar else np.array(ts) / 4
                r = dict(zip('yqu', o(arg)))
                ev.update(out='', shape={p: list(np.shape(r[p])) for p in 'yqu'}, val={p: ints(r[p], 64000.) for p in 'yqu'})
            except Exception as e:
                ev.update(out=vlib.excinfo(e), shape={}, val={})
            self.tr.add(**ev)
        if full:
            n = len(self.mesh)
            for i in (0, rng.randrange(-n, n)):
                ev = dict(ev='row', i=i, t=[], y=[], q=[], u=[])
                try:
                    r = o[i]
                    ev.update(out='', **{p: ints(v) for p, v in zip('tyqu', r)})
                except Exception as e:
                    ev['out'] = vlib.excinfo(e)
                self.tr.add(**ev)
            a = rng.randrange(0, n)
            b = rng.randrange(a, n + 1)
            ev = dict(ev='rows', lo=a, hi=b, t=[], y=[], q=[], u=[])
            try:
                ev.update(out='', **{p: ints(v) for p, v in zip('tyqu', o[a:b])})
            except Exception as e:
                ev['out'] = vlib.excinfo(e)
            self.tr.add(**ev)
            self.tr.add(ev='len', n=len(o))


def check(ck):
    out = os.path.join(ck.work, 'out')
    os.makedirs(out)
    ck.model('TrajMC', 'TrajMC.cfg' if ck.quick else 'TrajDeep.cfg', env={'OUTDIR': out}, workers=1, timeout=800)
    hists = read(out + '/hist.ndjson')
    rng = random.Random(ck.seed)
    rng.shuffle(hists)
    tr = vlib.Trace(os.path.join(ck.work, 'trace.ndjson'))
    from beluga.numeric.data_classes.Trajectory import Trajectory
    tr.add(ev='scn', mesh=[])
    e = Trajectory()
    tr.add(ev='len', n=len(e))
    r = dict(zip('yqu', e(0.5)))
    tr.add(ev='eval', ts=[2], scalar=True, out='', shape={p: list(np.shape(r[p])) for p in 'yqu'},
           val={p: ints(r[p], 64000.) for p in 'yqu'})
    use = hists if ck.quick else hists[:12000]
    for h in use:
        run = Run(tr, MESHES[0 if rng.random() < .5 else 2], rng)
        for i, op in enumerate(h['hist']):
            run.apply(op)
            run.observe(i == len(h['hist']) - 1)
    tr.write()
    ck.log('%d histories of %d' % (len(use), len(hists)))
    ck.validate('TrajTrace', 'TrajTrace.cfg', tr, {}, props_only=False)
    ck.exhaustive = len(use) == len(hists)
    ck.extra['histories'] = len(use)
