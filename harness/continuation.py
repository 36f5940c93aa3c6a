"""Conformance of the continuation driver (spec/Continuation.tla): properties C01-C05."""
import copy
import json
import math
import os
import random
import re

import numpy as np

import vlib

QX, QE = 1e-4, 1e-6
NCONST = 4
CONST0 = [1.0, 2.0, 3.0, 4.0]


def make_ocp():
    import beluga
    ocp = beluga.Problem()
    ocp.independent('t', 's')
    ocp.state('x', 'u + k3*0', 'm')
    ocp.control('u', 'm/s')
    for i in range(NCONST):
        ocp.constant('k%d' % (i + 1), CONST0[i], '1')
    ocp.path_cost('u**2 + k4*0', 'm^2/s^2')
    ocp.initial_constraint('x', 'm')
    ocp.initial_constraint('t', 's')
    ocp.terminal_constraint('x - k1', 'm')
    ocp.terminal_constraint('t - k2', 's')
    ocp.scale(m=1, s=1)
    return ocp


def compile_bvp(ocp):
    from beluga.symbolic.data_classes import make_preprocessor, make_indirect_method, make_postprocessor
    p = make_preprocessor()(copy.deepcopy(ocp))
    f = make_indirect_method(copy.deepcopy(p), method='traditional')
    return make_postprocessor()(f(copy.deepcopy(p)))


def coords(const):
    x, e, h = [], [], []
    for v in const:
        v = float(v)
        ok = math.isfinite(v) and abs(v) < 2e5
        x.append(int(round(v / QX)) if ok else 2000000000)
        e.append(int(round(math.log10(v) / QE)) if ok and v > 0 else 0)
        h.append('%.10e' % v)
    return {'x': x, 'e': e, 'h': h}


class Cut(Exception):
    pass


def fake_algorithm(rec):
    from beluga.numeric.bvp_solvers import BaseAlgorithm

    class FakeAlgorithm(BaseAlgorithm):
        def solve(self, solinit, **kwargs):
            return rec.on_solve(solinit)
    return FakeAlgorithm()


def same_data(a, b):
    for f in ('t', 'y', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters'):
        u, v = np.asarray(getattr(a, f)), np.asarray(getattr(b, f))
        if u.size != v.size or not np.array_equal(u.ravel(), v.ravel()):
            return False
    return True


class Recorder:
    """The instrumented solver: answers according to an oracle, records what it was given."""

    def __init__(self, trace, oracle, limit, init=None, setn=None):
        self.trace, self.oracle, self.limit, self.setn = trace, oracle, limit, setn
        self.n = 0
        self.sols = {0: init}
        self.capped = False

    def on_solve(self, guess):
        k = coords(guess.const)
        src = int(round(float(guess.y[0, 0])))
        conv = self.oracle(self.n, np.array(guess.const, dtype=float))
        ident = self.n + 1
        known = self.sols.get(src)
        self.trace.add(ev='att', k=k, src=src, intact=bool(known is None and src == 0 or known is not None
                                                           and same_data(guess, known)),
                       conv=bool(conv), id=ident)
        if conv is None or self.n >= self.limit:
            self.capped = True
            raise Cut()
        self.n = ident
        if self.setn is not None and ident == self.setn[1]:
            try:
                self.setn[0].num_cases(7)
                raised = 'no'
            except Exception as e:
                raised = vlib.excinfo(e)
            self.trace.add(ev='setn', raised=raised)
        sol = copy.deepcopy(guess)
        m = 3 + ident % 3
        sol.t = np.linspace(0, 1, m)
        sol.y = np.full((m, guess.y.shape[1]), float(ident))
        sol.y[:, 1:] += 0.001 * np.arange(guess.y.shape[1] - 1)
        # time is a column of the BVP state; keep it increasing so that costs can be evaluated
        sol.y[:, 1] = np.linspace(0, ident, m)
        sol.q = np.zeros((m, 0))
        sol.u = np.zeros((m, 0))
        sol.dynamical_parameters = np.asarray(guess.dynamical_parameters, dtype=float) * 0 + ident + 0.5
        sol.nondynamical_parameters = np.asarray(guess.nondynamical_parameters, dtype=float) * 0 + ident + 0.25
        sol.converged = bool(conv)
        self.sols[ident] = copy.deepcopy(sol)
        return {'sol': sol, 'niter': 1, 'success': bool(conv), 'message': ''}

    def results(self, res, mapped=False):
        out = []
        for lst in res:
            row = []
            for s in lst:
                ident = int(round(float(s.y[0, 0])))
                ref = self.sols.get(ident)
                if mapped:
                    intact = ref is not None and np.array_equal(s.y[:, 0], ref.y[:, 0]) and \
                        np.array_equal(s.t, ref.y[:, 1])
                else:
                    intact = ref is not None and same_data(s, ref)
                row.append({'id': ident, 'conv': bool(s.converged), 'h': coords(s.const)['h'], 'intact': bool(intact)})
            out.append(row)
        return out


def build_steps(plan):
    import beluga
    steps = beluga.init_continuation()
    for st in plan:
        if st['strat'] == 'manual':
            s = steps.add_step('manual')
            s.num_cases(st['n'], spacing=st['spacing'])
        elif st['strat'] == 'bisection':
            s = steps.add_step('bisection', max_divisions=st['maxdiv'], num_divisions=st['nd'])
            s.num_cases(st['n'], spacing=st['spacing'])
        elif st['strat'] == 'productspace':
            s = steps.add_step('productspace')
            s.num_subdivisions(st['n'])
        else:
            s = steps.add_step('sparse_product')
            s.num_subdivisions((tuple(st['major']), tuple(st['minor'])))
        if st.get('twice'):                     # the last target set is the one that counts
            for c, t in zip(st['names'], st['tv']):
                s.const('k%d' % c if c else 'nosuch', t + 3)
        for c, t in zip(st['names'], st['tv']):
            s.const('k%d' % c if c else 'nosuch', t)
    return steps


def full_plan(plan):
    """Plan from the specification (targets in quanta) -> plan with real values and both coordinates."""
    out = []
    for st in plan:
        st = dict(st)
        st.setdefault('spacing', 'linear')
        if 'tv' not in st:
            st['tv'] = [t * QX for t in st['targets']]
        c = coords(st['tv'])
        st['tx'], st['te'] = c['x'], c['e']
        out.append({k: st[k] for k in ('strat', 'names', 'tv', 'tx', 'te', 'n', 'nd', 'maxdiv', 'major', 'minor',
                                       'spacing')} | {'twice': bool(st.get('twice'))})
    return out


class Driver:
    def __init__(self, trace):
        self.trace = trace
        self.ocp = make_ocp()
        self.bvp = compile_bvp(self.ocp)

    def guess(self, const):
        from beluga.numeric.data_classes import Trajectory
        ny = len(self.bvp.states)
        g = Trajectory(np.array([0., 1.]), np.zeros((2, ny)), np.zeros((2, 0)), np.zeros((2, 0)))
        g.y[:, 1:] = 0.125
        g.dynamical_parameters = np.ones(len(self.bvp.parameters))
        g.nondynamical_parameters = np.ones(len(self.bvp.constraint_parameters))
        g.const = np.array(const, dtype=float)
        return g

    def run(self, plan, oracle, limit=60, const=None, steps=None, kind='set', setn=None, scn=None):
        from beluga.continuation import run_continuation_set
        const = CONST0 if const is None else const
        plan_f = None if plan is None else full_plan(plan)
        ev = {'kind': kind, 'nosteps': plan is None, 'plan': plan_f or [], 'const0': coords(const)}
        ev.update(scn or {})
        self.trace.add(ev='scn', **ev)
        if steps is None and plan is not None:
            steps = build_steps(plan_f)
        g = self.guess(const)
        rec = Recorder(self.trace, oracle, limit, init=copy.deepcopy(g),
                       setn=None if setn is None else (steps[0], setn))
        try:
            res = run_continuation_set(fake_algorithm(rec), steps, g, self.bvp, None, False)
            out, rs = 'ok', rec.results(res)
        except Cut:
            out, rs = 'cap' if kind == 'fold' else 'cut', []
        except Exception as e:
            out, rs = vlib.excinfo(e), []
        self.trace.add(ev='end', out=out, res=rs)
        return steps

    def run_solve(self, plan, oracle, save=False, limit=60):
        import beluga
        plan_f = None if plan is None else full_plan(plan)
        self.trace.add(ev='scn', kind='solve', nosteps=plan is None, plan=plan_f or [], const0=coords(CONST0))
        rec = Recorder(self.trace, oracle, limit)
        gg = beluga.guess_generator('auto', start=[0.0], costate_guess=0.0, control_guess=[0.0],
                                    use_control_guess=True, time_integrate=1.0)
        for f in ('data.beluga', 'named.beluga'):
            if os.path.exists(f):
                os.unlink(f)
        res = None
        try:
            res = beluga.solve(ocp=self.ocp, bvp_algorithm=fake_algorithm(rec),
                               steps=None if plan is None else build_steps(plan_f), guess_generator=gg,
                               method='traditional', autoscale=False, save_sols=save)
            out, rs = 'ok', rec.results(res, mapped=True)
        except Cut:
            out, rs = 'cut', []
        except Exception as e:
            out, rs = vlib.excinfo(e), []
        self.trace.add(ev='end', out=out, res=rs)
        if save and res is not None:
            name = save if isinstance(save, str) else 'data.beluga'
            exists, same = os.path.exists(name), False
            if exists:
                try:
                    from beluga.utils import load
                    d = load(name)['solutions']
                    same = len(d) == len(res) and all(
                        len(a) == len(b) and all(
                            same_data(p, q) and np.array_equal(p.const, q.const) and p.converged == q.converged
                            and np.array_equal(p.dual, q.dual) and (p.cost == q.cost or p.cost != p.cost)
                            for p, q in zip(a, b)) for a, b in zip(d, res))
                except Exception:
                    same = False
                os.unlink(name)
            self.trace.add(ev='sav', exists=bool(exists), same=bool(same))


def hist_oracle(h):
    return lambda n, k: (h[n] == '1') if n < len(h) else None


def rand_plan(rng, const):
    plan = []
    cur = list(const)                           # if all goes well
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        strat = rng.choice(['manual', 'bisection', 'bisection', 'bisection', 'productspace', 'sparse_product'])
        names = rng.sample(range(1, NCONST + 1), rng.choice([1, 1, 2, 2, 3]) if strat != 'sparse_product' else
                           rng.choice([1, 2, 2, 3]))
        spacing = 'log' if strat in ('manual', 'bisection') and rng.random() < 0.35 else 'linear'
        tv = []
        for _c in names:
            if rng.random() < 0.12:
                tv.append(cur[_c - 1])          # stays where it is
            elif rng.random() < 0.5:
                tv.append(round(rng.uniform(0.5, 900), rng.choice([0, 1, 3])) or 1.0)
            else:
                tv.append(float(rng.randint(1, 60)))
        n = rng.choice([2, 2, 3, 4, 5, 6, 11])
        if strat == 'productspace':
            n = rng.choice([2, 2, 3]) if len(names) > 1 else rng.choice([2, 3, 5])
        for c, t in zip(names, tv):
            cur[c - 1] = t
        if rng.random() < 0.05:
            names[rng.randrange(len(names))] = 0
        plan.append({'strat': strat, 'names': names, 'tv': tv, 'n': n, 'nd': rng.choice([2, 2, 2, 3, 4, 5]),
                     'maxdiv': rng.choice([0, 1, 2, 3, 10]), 'spacing': spacing, 'twice': rng.random() < 0.25,
                     'major': [rng.choice([2, 3, 4] if len(names) < 3 else [2, 3]) for _ in names],
                     'minor': [rng.choice([0, 1, 2] if len(names) < 3 else [0, 1]) for _ in names]})
    return plan


def scenarios(ck, drv):
    cfg = 'ContinuationQuick.cfg' if ck.quick else 'ContinuationDeep.cfg'
    ck.model('ContinuationMC', 'ContinuationTerm.cfg')
    r = ck.model('ContinuationMC', cfg, workers=8)
    plans = [json.loads(json.loads(p)) for p in r.prints('PLAN')]
    hists = []
    for s in r.prints('SCN'):
        pid, h = s.split(', ')
        hists.append((int(pid) - 1, h.strip('"')))
    hists = sorted(set(hists))
    rng = random.Random(ck.seed)
    ck.extra['histories_enumerated'] = len(hists)
    ck.extra['histories_replayed'] = len(hists)
    for pid, h in hists:
        drv.run(plans[pid], hist_oracle(h), limit=len(h))
    # steps used again, from other values
    k = 0
    for pid in range(len(plans)):
        hs = [h for p, h in hists if p == pid]
        for h in rng.sample(hs, min(len(hs), 3)):
            steps = drv.run(plans[pid], hist_oracle(h), limit=len(h), scn={'again': 0})
            c = [CONST0[0] + 1.0, CONST0[1], CONST0[2] + 2.0, CONST0[3]]
            drv.run(plans[pid], lambda n, _k: True, limit=200, const=c, steps=steps, scn={'again': 1})
            k += 1
    # changing the number of cases in mid-run
    for strat in ('manual', 'bisection'):
        p = [{'strat': strat, 'names': [1], 'tv': [9.0], 'n': 5, 'nd': 2, 'maxdiv': 3, 'major': [], 'minor': [],
              'spacing': 'linear'}]
        for at in (1, 3):
            drv.run(p, lambda n, _k: True, limit=20, setn=at)
    # single solve without steps
    for conv in (True, False):
        drv.run(None, lambda n, _k, c=conv: c, limit=5)
    # unreachable points: the run has to end
    for names, tv, thr, sp, nd in (([1], [50.0], 20.0, 'linear', 2), ([1, 2], [50.0, 30.0], 31.3, 'linear', 2),
                                   ([1], [50.0], 7.0, 'log', 2), ([2], [0.5], None, 'linear', 3)):
        p = [{'strat': 'bisection', 'names': names, 'tv': tv, 'n': 4, 'nd': nd, 'maxdiv': 10, 'major': [], 'minor': [],
              'spacing': sp}]
        if thr is None:
            orc = (lambda n, k: bool(k[1] > 1.0))
        else:
            orc = (lambda n, k, t=thr: bool(k[0] < t))
        drv.run(p, orc, limit=1500, kind='fold')
    # random plans and answers
    nr = 260 if ck.quick else 4000
    for i in range(nr):
        const = [round(rng.uniform(0.5, 100), 2) for _ in range(NCONST)]
        plan = rand_plan(rng, const)
        pf = rng.choice([0, 0.1, 0.25, 0.5])
        first = rng.random() < 0.9
        srng = random.Random(ck.seed * 100003 + i)
        drv.run(plan, lambda n, k, s=srng, p=pf, f=first: (s.random() >= p) or (n == 0 and f),
                limit=70, const=const)
    # through the front door
    ok = [(p, h) for p, h in hists if p in (0, 3, 8, 14, 12)]
    for p, h in rng.sample(ok, min(len(ok), 4 if ck.quick else 20)):
        drv.run_solve(plans[p], hist_oracle(h), limit=len(h))
    drv.run_solve(plans[3], lambda n, k: n != 2, save='named.beluga')
    drv.run_solve(plans[9], lambda n, k: n % 3 != 1, save=True)
    drv.run_solve(None, lambda n, k: True, save=True)


def check(ck):
    tr = vlib.Trace(os.path.join(ck.work, 'trace.ndjson'))
    drv = Driver(tr)
    ck.log('compiled')
    scenarios(ck, drv)
    ck.log('replayed %d events' % len(tr.events))
    ck.exhaustive = True
    ck.extra['attempts'] = sum(1 for e in tr.events if e['ev'] == 'att')
    ck.validate('ContinuationTrace', 'ContinuationTrace.cfg', tr, {})
