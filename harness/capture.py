"""Obtain the compiled boundary value problem of a problem through beluga.solve()'s public plug-in points."""
import numpy as np

from trees import text


class Stop(Exception):
    pass


def build(p, units=None):
    """Problem record -> beluga.Problem."""
    import beluga
    o = beluga.Problem(p.get('name', 'p'))
    o.independent(p['ind'], '1')
    if p.get('fns'):
        import fnlib
        fnlib.declare(o, p['fns'])
    for s in p['states']:
        o.state(s['n'], text(s['f']), '1')
    for u in p['controls']:
        o.control(u, '1')
    for c in p['consts']:
        o.constant(c['n'], c['v'], '1')
    for q in p['quants']:
        o.quantity(q['n'], text(q['e']))
    for s in p['switches']:
        o.switch(s['n'], [text(f) for f in s['fns']], [[text(c) for c in cs] for cs in s['conds']], s['tol'])
    for i, x in enumerate(p.get('sym') or ()):
        if i < p.get('coms', 0):        # some are declared by what they conserve
            o.constant_of_motion('c_' + x, '_lam_' + x, '1')
            continue
        o.symmetry(['1' if s['n'] == x else '0' for s in p['states']], '1')
    if p['Phi0'] != ['n', 0]:
        o.initial_cost(text(p['Phi0']), '1')
    o.path_cost(text(p['L']), '1')
    if p['Phif'] != ['n', 0]:
        o.terminal_cost(text(p['Phif']), '1')
    for e in p['psi0']:
        o.initial_constraint(text(e), '1')
    for e in p['psif']:
        o.terminal_constraint(text(e), '1')
    for c in p['ineq']:
        kw = dict(lower=text(c['lo']), upper=text(c['hi']), activator=c['act'], method=c['m'])
        {'initial': o.initial_constraint, 'path': o.path_constraint,
         'terminal': o.terminal_constraint}[c['loc']](text(c['e']), '1', **kw)
    o.scale(un_m=1, un_s=1)
    return o


class Captured:
    """What solve() hands to the guess generator and to the solver."""

    def __init__(self, ocp, method, **optim):
        import beluga
        from beluga.numeric.bvp_solvers import BaseAlgorithm
        from beluga.numeric.data_classes.Trajectory import Trajectory
        cap = self

        class Guess:
            def generate(self, fp, solinit, fmap, imap):
                cap.fp, cap.map, cap.inv, cap.const = fp, fmap, imap, np.array(solinit.const, dtype=float)
                b = fp.prob
                cap.states = [s.name for s in b.states]
                cap.quads = [s.name for s in b.quads]
                cap.params = [s.name for s in b.parameters]
                cap.nus = [s.name for s in b.constraint_parameters]
                cap.consts = [s.name for s in b.constants]
                cap.controls = [s.name for s in b.controls]
                sol = Trajectory(np.array([0., 1.]), np.ones((2, len(cap.states))))
                sol.const = cap.const
                sol.dynamical_parameters = np.ones(len(cap.params))
                sol.nondynamical_parameters = np.ones(len(cap.nus))
                return sol

        class Alg(BaseAlgorithm):
            def solve(self, solinit, **kw):
                cap.alg = self
                raise Stop()
        try:
            beluga.solve(ocp=ocp, method=method, optim_options=optim, bvp_algorithm=Alg(), guess_generator=Guess(),
                         steps=None, autoscale=False, save_sols=False)
        except Stop:
            pass
        self.deriv = self.alg.derivative_function
        self.quad = self.alg.quadrature_function
        self.bc = self.alg.boundarycondition_function
        self.djac = self.alg.derivative_function_jac
        self.bjac = self.alg.boundarycondition_function_jac
        self.compute_u = self.fp.compute_u
