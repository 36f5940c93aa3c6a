"""Families of optimal control problems, in the terms of spec/Indirect.tla."""
import copy
import random

from trees import parse, free


def problem(states, controls, consts=None, quants=(), switches=(), L='0', Phi0='0', Phif='0', psi0=(), psif=(),
            ineq=(), ind='t', name='', rng=None, fns=()):
    """Text -> problem record."""
    consts = consts or {}
    return {
        'fns': list(fns),
        'name': name, 'ind': ind, 'rng': rng or {},
        'states': [{'n': n, 'f': parse(f)} for n, f in states],
        'controls': list(controls),
        'consts': [{'n': n, 'v': v} for n, v in consts.items()],
        'quants': [{'n': n, 'e': parse(e)} for n, e in quants],
        'switches': [{'n': n, 'fns': [parse(f) for f in fns], 'conds': [[parse(c) for c in cs] for cs in conds],
                      'tol': tol} for n, fns, conds, tol in switches],
        'L': parse(L), 'Phi0': parse(Phi0), 'Phif': parse(Phif),
        'psi0': [parse(e) for e in psi0], 'psif': [parse(e) for e in psif],
        'ineq': [{'loc': loc, 'e': parse(e), 'lo': parse(lo), 'hi': parse(hi), 'act': act, 'm': m}
                 for loc, e, lo, hi, act, m in ineq]}


CFGS = [{'method': m, 'control': c} for m in ('traditional', 'diffyg') for c in ('differential', 'algebraic')]
TD, TA, DD, DA = CFGS


def hand_plain():
    """Problems without inequalities, quantities, switches."""
    k = {'a': 2.0, 'b': 0.5, 'c': 1.25, 'x_0': 0.3, 'x_f': 1.5}
    out = [
        problem([('x', 'u')], ['u'], k, L='u**2', psi0=['x - x_0', 't'], psif=['x - x_f', 't - 1'], name='integrator'),
        problem([('x', 'v'), ('v', 'a*u - b*v')], ['u'], k, L='u**2 + c*x**2', psi0=['x - x_0', 'v', 't'],
                psif=['x - x_f', 'v', 't - 2'], name='double-integrator'),
        problem([('x', 'v*cos(th)'), ('y', 'v*sin(th)'), ('v', 'a*sin(th)')], ['th'], k, L='1', Phif='0',
                psi0=['x', 'y', 'v', 't'], psif=['x - x_f', 'y - a'], name='brachistochrone'),
        problem([('x', 'a*x*t + u')], ['u'], k, L='u**2*(1 + t**2) + x*t', Phi0='c*x**2', Phif='b*x**3 + t**2*x',
                psi0=['t'], psif=['t - 1'], name='time-varying, free ends'),
        problem([('x', 'u + x*w'), ('y', 'a*w + sin(x)')], ['u', 'w'], k, L='u**2 + u*w + c*w**2 + x**2*y',
                psi0=['x - x_0', 'y + x**2 - 1', 't'], psif=['x*y - x_f', 't**2 - 4'], Phif='x**2 + y',
                name='two coupled controls'),
        problem([('x', 'u*w'), ('y', 'u + w')], ['u', 'w'], k, L='u*w*a + x**2', Phif='exp(x)*b',
                psi0=['x - x_0', 'y', 't'], psif=['y - x_f'], name='zero-diagonal control hessian'),
        problem([('x', 'u')], ['u'], k, L='a*u**2 + u*x', psi0=['x', 't'], psif=['x - x_f'], Phif='t', name='free time'),
        problem([('x', 'y'), ('y', 'z'), ('z', 'u')], ['u'], k, L='u**2/2', Phi0='x*y + t', Phif='z**2*t',
                psi0=['x - x_0', 'y*z'], psif=['x + y + z - x_f'], name='free initial time, mixed costs'),
        problem([('s', 'c*u')], ['u'], k, L='exp(u) + exp(-1*u) + s**2', psi0=['s', 't'], psif=['s - 1', 't - a'],
                ind='t', name='non-quadratic'),
        problem([('h', 'u')], ['u'], k, L='u**2*h', psi0=['h - x_0', 'r'], psif=['h - x_f', 'r - 1'], ind='r',
                name='other name of time'),
        problem([('x', 'u**3/3 + a*u')], ['u'], k, L='u**4 + c*u**2', Phif='x', psi0=['x', 't'], psif=['t - 1'],
                name='quartic'),
        problem([('x', 'u'), ('y', 'w'), ('z', 'x*w - y*u')], ['u', 'w'], k, L='u**2 + w**2', psi0=['x', 'y', 'z', 't'],
                psif=['x', 'y', 'z - 1', 't - 1'], name='heisenberg'),
        problem([('x', 'u'), ('y', 'a*w + x'), ('z', 'r*w')], ['u', 'r', 'w'], k, L='u**2 + b*w**2 + c*r**2 + u*r',
                psi0=['x', 'y', 'z', 't'], psif=['x - 1', 'y*z - 1', 't - 1'], Phif='z**2', name='three controls'),
        problem([('x', 'y*u'), ('y', 'z + w'), ('z', 'p*x'), ('p', 'u - w')], ['w', 'u'], k, L='u**2 + w**2 + x*p',
                psi0=['p - x_0', 'x', 'z + y', 't'], psif=['x - y', 'z*p - x_f'], Phif='p**2', name='four states'),
        problem([('x', 'u')], ['u'], L='u**2 + x**2', psi0=['x - 1', 't'], psif=['t - 1'], name='no constants'),
    ]
    return out


def hand_algebraic():
    """Problems whose stationarity condition sympy solves, with a minimum of H over the controls."""
    k = {'a': 2.0, 'b': 0.5, 'c': 1.25, 'x_0': 0.3, 'x_f': 1.5}
    b = {'psi0': ['x - x_0', 't'], 'psif': ['x - x_f', 't - 1']}
    out = [
        problem([('x', 'a*u')], ['u'], k, L='u**2', **b, name='integrator'),
        problem([('x', 'v'), ('v', 'a*u - b*v')], ['u'], k, L='u**2 + c*x**2', **b, name='double-integrator'),
        problem([('x', 'v*cos(th)'), ('y', 'v*sin(th)'), ('v', 'a*sin(th)')], ['th'], k, L='1', **b,
                name='brachistochrone'),
        problem([('x', 'a*cos(th) + y*b'), ('y', 'a*sin(th)')], ['th'], k, L='1', **b, name='zermelo'),
        problem([('x', 'u + w'), ('y', 'u - 3*w + x')], ['u', 'w'], k, L='u**2 + u*w + c*w**2 + x*y', **b,
                name='two coupled controls'),
        problem([('x', 'u'), ('y', 'w')], ['u', 'w'], k, L='u**2 + a*w**2 + x*u', Phif='y**2', **b,
                name='two separate controls'),
        problem([('x', 't*u')], ['u'], k, L='u**2*(1 + t**2)', Phif='x*t', **b, name='time-varying'),
        problem([('x', 'sin(u)')], ['u'], k, L='sin(u)**2*a', **b, name='four candidates, two of them not always real'),
        problem([('x', 'u**2')], ['u'], k, L='u**4', **b, name='three candidates, two of them not always real'),
        problem([('x', 'a*cos(u)'), ('y', 'b*sin(u)')], ['u'], k, L='1 + a*sin(u)**2', **b,
                name='first candidate not real', rng={'_lam_x': [-6, -4]}),
        problem([('x', 'u**2 + w')], ['u', 'w'], k, L='u**4 + w**2 + x**2', **b, name='three candidates, two controls'),
        problem([('x', 'cos(u)*y'), ('y', 'w')], ['u', 'w'], k, L='w**2 + 1', **b, name='trigonometric and quadratic'),
        problem([('x', 'a*cos(u)'), ('y', 'b*cos(w) + x')], ['u', 'w'], k, L='1', **b, name='two angles, four candidates'),
        problem([('x', 'a*cos(u)'), ('y', 'b*cos(w) + x'), ('z', 'cos(p)*c')], ['p', 'w', 'u'], k, L='x**2', **b,
                name='three angles, eight candidates'),
        problem([('x', 'a*cos(u)'), ('y', 'b*sin(w)'), ('z', 'x*w*0 + y')], ['u', 'w'], k, L='1', **b,
                name='two kinds of angles'),
    ]
    return out


def hand_ineq():
    k = {'a': 2.0, 'b': 0.5, 'lo': -3.0, 'hi': 4.0, 'e1': 0.3, 'e2': 0.2, 'e3': 0.15}
    two = dict(psi0=['x', 't'], psif=['x - 1', 't - 1'])
    dyn = [('x', 'y'), ('y', 'a*u - b*x')]
    out = [
        problem(dyn, ['u'], k, L='u**2', ineq=[('path', 'x', 'lo', 'hi', 'e1', 'utm')], **two, name='state bound'),
        problem(dyn, ['u'], k, L='u**2', ineq=[('path', 'u + x', 'lo', 'hi', 'e1', 'utm')], **two, name='mixed bound'),
        problem(dyn, ['u'], k, L='u**2', ineq=[('path', 'u', 'lo', 'hi', 'e1', 'epstrig')], **two, name='control bound'),
        problem(dyn, ['u'], k, L='u*x', ineq=[('path', 'u', '-1*a', 'b + 1', 'e2', 'epstrig')], **two,
                name='control bound by expressions, bang-bang cost'),
        problem(dyn, ['u'], k, L='u**2', ineq=[('path', 'x*y', 'lo - 5', 'hi + 5', 'e1', 'utm'),
                                               ('path', 'u', 'lo', 'hi', 'e2', 'epstrig')], **two, name='both'),
        problem(dyn, ['u'], k, L='u**2', ineq=[('path', 'u', 'lo', 'hi', 'e2', 'epstrig'),
                                               ('path', 'u*x', 'lo - 9', 'hi + 9', 'e1', 'utm')], **two,
                name='both, other order'),
        problem(dyn, ['u'], k, L='u**2', Phi0='x*y', Phif='y**2',
                ineq=[('initial', 'y', 'lo', 'hi', 'e1', 'utm'), ('terminal', 'y + x', 'lo', 'hi', 'e2', 'utm')], **two,
                name='boundary bounds'),
        problem(dyn, ['u'], k, L='u**2',
                ineq=[('terminal', 'y', 'lo', 'hi', 'e1', 'utm'), ('path', 'y', 'lo', '2*hi', 'e2', 'utm'),
                      ('initial', 'y', '2*lo', 'hi', 'e3', 'utm')], **two, name='all three places'),
        problem(dyn, ['u'], k, L='u**2',
                ineq=[('path', 'x', 'lo', 'hi', 'e1', 'utm'), ('path', 'y', 'lo', 'hi', 'e2', 'utm'),
                      ('path', 'u', 'lo', 'hi', 'e3', 'utm')], **two, name='three path bounds'),
        problem([('x', 'u*cos(w)'), ('y', 'u*sin(w)')], ['u', 'w'], k, L='u**2 + w**2',
                ineq=[('path', 'u', 'b', 'hi', 'e1', 'epstrig'), ('path', 'w', 'lo', 'hi', 'e2', 'epstrig')], **two,
                name='two bounded controls'),
        problem([('x', 'u*cos(w)'), ('y', 'u*sin(w)')], ['u', 'w'], k, L='u**2 + w**2',
                ineq=[('path', 'w', 'lo', 'hi', 'e1', 'epstrig')], **two, name='second control bounded'),
        problem(dyn, ['u'], k, L='u**2', ineq=[('path', 'u', 'lo - x**2', 'hi + y**2*x**2 + b', 'e1', 'epstrig')], **two,
                name='control bound that depends on the states'),
        problem([('x', 'u*cos(w)'), ('y', 'u*sin(w)')], ['u', 'w'], k, L='u**2 + w**2',
                ineq=[('path', 'w', 'lo - t**2', 'hi + x**2', 'e1', 'epstrig'), ('path', 'u', 'lo - y**2', 'hi', 'e2', 'epstrig')],
                **two, name='control bounds that depend on time and states'),
        problem([('x', 'u*t')], ['u'], k, L='u**2', ineq=[('path', 'x + t', 'lo - t', 'hi + t**2', 'e1', 'utm')], **two,
                name='time-varying bound'),
        problem(dyn, ['u'], k, L='u**2',
                ineq=[('terminal', 'x*y', 'lo', 'hi', 'e1', 'utm'), ('terminal', 'y', '2*lo', 'hi + 2', 'e2', 'utm'),
                      ('initial', 'y', 'lo', 'hi', 'e3', 'utm'), ('initial', 'y*x', 'lo', 'hi + 1', 'e1', 'utm')],
                **two, name='several boundary bounds'),
        problem(dyn, ['u'], k, L='u**2',
                ineq=[('path', 'x', 'lo', 'hi', 'e1', 'utm'), ('path', 'y', '2*lo', 'hi', 'e3', 'utm'),
                      ('path', 'x', '2*lo', 'hi + 1', 'e2', 'utm'), ('path', 'u', 'lo', 'hi', 'e1', 'epstrig'),
                      ('path', 'u', '3*lo', '2*hi', 'e2', 'utm')], **two, name='several path bounds of the same quantity'),
        problem(dyn, ['u'], k, L='u**2',
                ineq=[('terminal', 'y', 'lo', 'hi', 'e1', 'utm'), ('terminal', 'y', '2*lo', 'hi + 2', 'e2', 'utm'),
                      ('initial', 'y*x', 'lo', 'hi', 'e3', 'utm'), ('initial', 'y*x', 'lo', 'hi', 'e3', 'utm')],
                **two, name='several boundary bounds of the same quantity, one repeated'),
        problem([('x', 'u + 2*v'), ('y', 'w - v')], ['u', 'v', 'w'], k, L='u**2 + v**2 + w**2',
                ineq=[('path', 'w', 'lo', 'hi', 'e2', 'epstrig')], **two, name='third control bounded'),
        problem(dyn, ['u'], k, L='u**2',
                ineq=[('terminal', 'y', 'lo', 'hi', 'e1', 'utm'), ('initial', 'y', 'lo', 'hi', 'e2', 'utm')],
                psi0=['x', 'y', 't'], psif=['x - 1', 'y', 't - 1'], name='bounds of quantities also fixed'),
    ]
    return out


def hand_abbrev():
    k = {'a': 2.0, 'b': 0.5, 'rho': 0.7, 'H': 3.0, 'e1': 0.6, 'lo': -3.0, 'hi': 4.0}
    two = dict(psi0=['x', 't'], psif=['x - 1', 't - 1'])
    out = [
        problem([('x', 'y'), ('y', 'D + u')], ['u'], k, quants=[('q', 'rho*y**2/2'), ('D', 'q*a')], L='u**2 + D*q', **two,
                name='chain, definition first'),
        problem([('x', 'y'), ('y', 'D + u')], ['u'], k, quants=[('D', 'q*a'), ('q', 'rho*y**2/2')], L='u**2 + D*q', **two,
                name='chain, use first'),
        problem([('x', 'y'), ('y', 'Q3 + u')], ['u'], k,
                quants=[('Q2', 'Q1*x + a'), ('Q1', 'exp(-1*y/H)'), ('Q3', 'Q2*Q1 + b')], L='u**2 + Q2', **two,
                Phif='Q1*x', name='chain of three, 2 1 3'),
        problem([('x', 'y'), ('y', 'Q3 + u')], ['u'], k,
                quants=[('Q3', 'Q2 + b'), ('Q2', 'Q1*x + a'), ('Q1', 'exp(-1*y/H)')], L='u**2 + Q3', **two,
                Phi0='Q3*x', name='chain of three, 3 2 1'),
        problem([('x', 'y'), ('y', 'Q3 + u')], ['u'], k,
                quants=[('Q2', 'Q1*x + a'), ('Q3', 'Q2 + b*u'), ('Q1', 'exp(-1*y/H)')], L='u**2 + Q3**2', psi0=['x - Q1', 't'],
                psif=['Q2 - 1', 't - 1'], name='chain of three, 2 3 1'),
        problem([('x', 'y'), ('y', 'u')], ['u'], k, quants=[('g', 'x*y')], L='u**2',
                ineq=[('path', 'g', 'lo', 'hi', 'e1', 'utm')], **two, name='quantity in a bound'),
        problem([('x', 'y'), ('y', 'u')], ['u'], k, quants=[('lim', 'hi + x**2')], L='u**2',
                ineq=[('path', 'y', '-1*lim', 'lim', 'e1', 'utm')], **two, name='quantity as the bound'),
        problem([('x', 'y'), ('y', 'T + u')], ['u'], k, switches=[('T', ['a', 'b*y'], [['x - rho'], ['rho - x']], 'e1')],
                L='u**2 + T', **two, name='switch'),
        problem([('x', 'y'), ('y', 'T + u')], ['u'], k,
                switches=[('T', ['a', 'b*y', 'x*y'], [['x - rho', 'H - x'], ['rho - x'], ['y', 'x - H', '-1*y - a']], 'e1')],
                L='u**2 + T', **two, name='switch with several conditions'),
        problem([('x', 'y'), ('y', 'T + u')], ['u'], k, quants=[('z', 'x - rho')],
                switches=[('T', ['a*z', 'b'], [['z'], ['-1*z']], 'e1')], L='u**2', **two,
                name='quantities inside a switch'),
        problem([('x', 'y'), ('y', 'q + u')], ['u'], k, quants=[('q', 'T*y')],
                switches=[('T', ['a', '0*x', 'b'], [['x - rho'], ['x - H'], ['H - x']], 'e1')], L='u**2', **two,
                name='switch inside a quantity'),
        problem([('x', 'S*y'), ('y', 'T + u')], ['u'], k,
                switches=[('T', ['a', 'b*S'], [['t - rho'], ['rho - t']], 'e1'), ('S', ['1*a', '2*b'], [['y'], ['-1*y']], 'e1')],
                L='u**2', **two, name='nested switches'),
        problem([('x', 'S*y'), ('y', 'T + u')], ['u'], k,
                switches=[('S', ['1*a', '2*b'], [['y'], ['-1*y']], 'e1'), ('T', ['a', 'b*S'], [['t - rho'], ['rho - t']], 'e1')],
                L='u**2', **two, name='nested switches, other order'),
        problem([('x', 'y'), ('y', 'T + u')], ['u'], k, quants=[('T2', 'T**2')],
                switches=[('T', ['a', 'b*y'], [['x - rho'], ['rho - x']], 'e1')],
                ineq=[('path', 'T2', 'lo', 'hi + 5', 'e1', 'utm'), ('path', 'u', 'lo', 'hi', 'e1', 'epstrig')],
                L='u**2 + T', **two, name='everything'),
    ]
    return out


def hand_reduce():
    """Problems with states only the boundary terms depend on: (problem, states to remove)."""
    k = {'a': 2.0, 'b': 0.5, 'x_0': 0.3, 'x_f': 1.5, 'lo': -3.0, 'hi': 4.0, 'e1': 0.3}
    one = problem([('x', 'v'), ('v', 'a*u - b*v')], ['u'], k, L='u**2 + v**2', psi0=['x - x_0', 'v', 't'],
                  psif=['x - x_f', 'v', 't - 2'], name='first state')
    two = problem([('v', 'u - v**2'), ('x', 'v*a')], ['u'], k, L='u**2', psi0=['x - x_0', 'v', 't'],
                  psif=['v'], Phif='x**2*t + x', name='last state, free end')
    bra = problem([('x', 'v*cos(th)'), ('y', 'v*sin(th)'), ('v', 'a*sin(th)')], ['th'], k, L='1',
                  psi0=['x', 'y', 'v', 't'], psif=['x - x_f', 'y - a'], name='brachistochrone')
    tim = problem([('x', 'u*t')], ['u'], k, L='u**2 + t', psi0=['x', 't'], psif=['x - 1', 't - 1'], name='only state')
    mid = problem([('p', 'w'), ('x', 'p*u'), ('r', 'u - r')], ['u', 'w'], k, L='u**2 + w**2*(1 + r**2)',
                  psi0=['p', 'x*p - 1', 'r - x', 't'], psif=['x + r - p**2', 't - 1'], Phi0='x*p', name='middle state')
    con = problem([('x', 'v'), ('v', 'u')], ['u'], k, L='u**2', psi0=['x', 'v', 't'], psif=['x - 1', 'v'],
                  ineq=[('path', 'u', 'lo', 'hi', 'e1', 'epstrig'), ('path', 'v', 'lo', 'hi', 'e1', 'utm')],
                  name='with bounds')
    far = problem([('x', 'u'), ('y', 'w'), ('z', 'u*w')], ['u', 'w'], k, L='u**2 + w**2*a', psi0=['x', 'y', 'z', 't'],
                  psif=['x + y - 1', 'z - x', 't - 1'], name='all states')
    return [(one, ['x']), (two, ['x']), (bra, ['x']), (bra, ['x', 'y']), (bra, ['y', 'x']), (bra, ['y']), (tim, ['x']),
            (mid, ['x']), (con, ['x']), (far, ['x', 'y', 'z']), (far, ['z', 'x']), (far, ['y'])]


# Functions are told apart by the length of their names in the specification.
CUBIC = {'n': 'g', 'kind': 'cubic'}
WAVE = {'n': 'wv', 'kind': 'wave'}
TAB = {'n': 'tab', 'kind': 'table', 't': {'x0': -9, 'h': [3, 2, 2, 4, 1, 3, 5, 2], 'Z': [0, 1, -1, 0, 1, 0, -1, 1, 0],
                                          'y': None}}
SURF = {'n': 'surf', 'kind': 'surf'}
DECAY = {'n': 'decay', 'kind': 'decay'}
MIX = {'n': 'mixing', 'kind': 'mix'}


def _heights(t, y1, b1):
    """The heights that belong to the second derivatives (spec/Spline.tla: Slopes, Heights)."""
    h, Z = t['h'], t['Z']
    b = [b1]
    for i in range(1, len(h)):
        b.append(b[-1] + h[i - 1] * (Z[i - 1] + 2 * Z[i]) + h[i] * (2 * Z[i] + Z[i + 1]))
    y = [y1]
    for i in range(len(h)):
        y.append(y[-1] + b[i] * h[i])
    return y


TAB['t']['y'] = _heights(TAB['t'], 2, -4)
FNS = [CUBIC, WAVE, TAB, SURF, DECAY, MIX]
ARGC = {'g': 1, 'wv': 1, 'tab': 1, 'surf': 2, 'decay': 2, 'mixing': 3}


def hand_calls():
    k = {'a': 2.0, 'b': 0.5, 'e1': 0.4, 'lo': -3.0, 'hi': 4.0}
    two = dict(psi0=['x', 't'], psif=['x - 1', 't - 1'])
    out = []
    for f in (CUBIC, WAVE, TAB):
        n = f['n']
        out += [
            problem([('x', '%s(x) + u' % n)], ['u'], k, L='u**2', **two, fns=[f], name=n + ' of a state'),
            problem([('x', '%s(a*x + b) + u' % n)], ['u'], k, L='u**2 + %s(x)' % n, **two, fns=[f],
                    name=n + ' of an expression'),
            problem([('x', 'y'), ('y', '%s(u)' % n)], ['u'], k, L='4*u**2 + x*y', **two, fns=[f],
                    name=n + ' of the control'),
            problem([('x', '%s(x*b)*%s(t) + u' % (n, n))], ['u'], k, L='u**2', Phif='%s(x)*t' % n,
                    psi0=['t'], psif=['%s(x) - a' % n], fns=[f], name=n + ' of time and in boundary terms'),
            problem([('x', '%s(q) + u' % n)], ['u'], k, quants=[('q', 'x*r'), ('r', '%s(x/2)' % n)], L='u**2', **two, fns=[f],
                    name=n + ' of a quantity'),
            problem([('x', '%s(%s(x)/4) + u' % (n, n))], ['u'], k, L='u**2', **two, fns=[f], name=n + ' nested'),
        ]
    out += [
        problem([('x', 'surf(x, y) + u'), ('y', 'x')], ['u'], k, L='u**2 + surf(y, x)', **two, fns=[SURF],
                name='both arguments'),
        problem([('x', 'surf(x, x) + u'), ('y', 'surf(a*x, u/4)')], ['u'], k, L='u**2*4', **two, fns=[SURF],
                name='same argument twice'),
        problem([('x', 'decay(y, u)'), ('y', 'u')], ['u'], k, L='u**2 + decay(x, t)', **two, fns=[DECAY],
                name='control as one argument'),
        problem([('x', 'mixing(x, y, u/3)'), ('y', 'u')], ['u'], k, L='u**2', **two, fns=[MIX], name='three arguments'),
        problem([('x', 'T + u')], ['u'], k, switches=[('T', ['g(x)', 'tab(x)'], [['x - b'], ['b - x']], 'e1')], L='u**2',
                **two, fns=[TAB, CUBIC], name='functions inside a switch'),
        problem([('x', 'y'), ('y', 'u')], ['u'], k, L='u**2', ineq=[('path', 'wv(x)', 'lo', 'hi', 'e1', 'utm'),
                                                                    ('path', 'u', 'lo', 'hi', 'e1', 'epstrig')], **two,
                fns=[WAVE], name='function in a bound'),
        problem([('x', 'wv(u) + tab(x)')], ['u'], k, L='u**2*4', ineq=[('path', 'u', 'lo', 'hi', 'e1', 'epstrig')], **two,
                fns=[WAVE, TAB], name='function of a bounded control'),
    ]
    return out


# ---------------------------------------------------------------------------------------------
class Gen:
    """Random problems."""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.fns = []

    def expr(self, names, depth=2):
        r = self.r
        if depth == 0 or r.random() < 0.2:
            return ['v', r.choice(names)] if r.random() < 0.8 else ['n', r.randint(1, 4)]
        if self.fns and r.random() < 0.4:
            f = r.choice(self.fns)['n']
            return ['call', f, [0] * ARGC[f], [['/', self.expr(names, depth - 1), ['n', 2]] for _ in range(ARGC[f])]]
        o = r.choice(['+', '+', '*', '*', '^', 'sin', 'cos', 'exp', '/'])
        a = self.expr(names, depth - 1)
        if o in '+*':
            return [o, a, self.expr(names, depth - 1)]
        if o == '/':
            return ['/', a, ['+', ['n', 2], ['^', ['v', r.choice(names)], 2]]]
        if o == '^':
            return ['^', a, r.randint(2, 3)]
        if o == 'exp':
            return ['exp', ['/', a, ['n', -4]]]
        return [o, a]

    def prob(self, kind, i):
        r = self.r
        n, m = r.randint(1, 3), r.choice([1, 1, 1, 2, 2, 3])
        xs = ['x%d' % (j + 1) for j in range(n)]
        us = ['u%d' % (j + 1) for j in range(m)]
        ks = {'k1': 0.7, 'k2': 1.6, 'k3': 2.3, 'lo': -4.0, 'hi': 5.0, 'ep': 0.4}
        if kind == 'ineq':
            ks.update({'ea': 0.25, 'eb': 0.6, 'lim': 7.5})
        cn = ['k1', 'k2', 'k3']
        ind = r.choice(['t', 't', 's'])
        base = xs + cn + ([ind] if r.random() < 0.5 else [])
        cyc = []
        if kind == 'reduce':                 # states nothing but the boundary terms may depend on
            cyc = r.sample(xs, r.randint(1, min(n, 2)))
            base = [x for x in base if x not in cyc]
        qn, sn = [], []
        p = {'name': '%s-%d' % (kind, i), 'ind': ind, 'consts': [{'n': a, 'v': b} for a, b in ks.items()],
             'quants': [], 'switches': [], 'ineq': [], 'controls': us}
        self.fns = r.sample(FNS, r.randint(1, 2)) if kind == 'calls' else []
        if self.fns:
            p['fns'] = self.fns
        if kind == 'abbrev' or kind == 'calls' and r.random() < 0.4:
            nq = r.randint(1, 3)
            for j in range(nq):
                p['quants'].append({'n': 'q%d' % j, 'e': self.expr(base + qn, 1)})
                qn.append('q%d' % j)
            if r.random() < 0.5:
                nf = r.randint(1, 3)
                p['switches'].append({'n': 'sw', 'fns': [self.expr(base + qn, 1) for _ in range(nf)],
                                      'conds': [[self.expr(base + qn, 1) for _ in range(1 + (j + i) % 3 % 2)] for j in range(nf)],
                                      'tol': 'ep'})
                sn = ['sw']
            r.shuffle(p['quants'])
        voc = base + qn * 2 + sn * 2
        p['states'] = []
        for j, x in enumerate(xs):
            f = self.expr(voc, 2)
            u = us[j % m]
            w = r.random()
            if w < 0.5:
                f = ['+', f, ['*', ['v', r.choice(cn)], ['v', u]]]
            elif w < 0.75:
                f = ['+', f, ['*', self.expr(voc, 1), ['sin', ['v', u]]]]
            elif w < 0.85 and kind == 'calls':
                g = r.choice(self.fns)['n']
                f = ['+', f, ['call', g, [0] * ARGC[g], [['/', ['v', u], ['n', 2]]] * ARGC[g]]]
            elif w < 0.85:
                f = ['*', f, ['+', ['n', 1], ['^', ['v', u], 2]]]
            else:
                f = ['+', f, ['*', ['v', r.choice(us)], ['v', r.choice([x for x in xs if x not in cyc] or cn)]]]
            p['states'].append({'n': x, 'f': f})
        L = self.expr(voc, 2)
        for j, u in enumerate(us):
            L = ['+', L, ['*', ['+', ['n', j + 1], ['^', self.expr(voc, 0), 2]], ['^', ['v', u], 2]]]
        if m == 2 and r.random() < 0.5:
            L = ['+', L, ['*', ['v', us[0]], ['v', us[1]]]]
        p['L'] = L
        p['sym'], p['coms'] = cyc, i % 3
        voc = voc + cyc
        p['Phi0'] = self.expr(voc + [ind], 2) if r.random() < 0.4 else ['n', 0]
        p['Phif'] = self.expr(voc + [ind], 2) if r.random() < 0.6 else ['n', 0]
        p['psi0'] = [['v', ind]] + [self.expr(xs + cn + [ind] + qn, 1) for _ in range(r.randint(0, n))]
        p['psif'] = [self.expr(xs + cn + [ind] + qn, 1) for _ in range(r.randint(0, n + 1))]
        r.shuffle(p['psi0'])
        if kind == 'ineq':
            bounded = []
            favoured = r.choice([None, None, 'path', 'initial', 'terminal'])     # several bounds in one place
            for _ in range(r.randint(1, 4)):
                loc = favoured or r.choice(['path', 'path', 'initial', 'terminal'])
                act = r.choice(['ep', 'ea', 'eb'])
                lo, hi = r.choice(['lo', '-1*hi', 'lo - k2', '-1*lim']), r.choice(['hi', 'lim', 'hi + k1', 'hi*k2'])
                if loc == 'path' and r.random() < 0.4 and len(bounded) < m:
                    u = r.choice([x for x in us if x not in bounded])
                    bounded.append(u)
                    if r.random() < .3:
                        hi = '%s + %s**2' % (hi, r.choice(xs + [ind]))
                    p['ineq'].append({'loc': 'path', 'e': ['v', u], 'lo': parse(lo), 'hi': parse(hi), 'act': act, 'm': 'epstrig'})
                else:
                    voc2 = xs + ([ind] if r.random() < .3 else []) + (us if loc == 'path' else [])
                    if r.random() < .15:
                        hi = '%s + %s**2' % (hi, r.choice(xs))
                    same = [c['e'] for c in p['ineq'] if c['loc'] == loc or loc == 'path']
                    e = r.choice(same) if same and r.random() < .25 else self.expr(voc2, 1)
                    p['ineq'].append({'loc': loc, 'e': e, 'lo': parse(lo), 'hi': parse(hi), 'act': act,
                                      'm': 'utm'})
        return p


def size(p):
    return len(repr(p))


def family(kind, nrandom, seed):
    """[(problem, cfg)] of a kind: plain, algebraic, ineq, abbrev."""
    out = []
    if kind == 'plain':
        for p in hand_plain():
            out += [(p, TD), (p, DD)]
    elif kind == 'algebraic':
        for p in hand_algebraic():
            out += [(p, TA), (p, DA)]
        for p in hand_plain()[:2]:
            out += [(p, TD), (p, DD)]
    elif kind == 'ineq':
        for i, p in enumerate(hand_ineq()):
            out += [(p, TD)] + ([(p, DD)] if i % 2 == 0 else [])
    elif kind == 'abbrev':
        for i, p in enumerate(hand_abbrev()):
            out += [(p, TD)] + ([(p, DD)] if i % 2 == 1 else [])
    elif kind == 'calls':
        for i, p in enumerate(hand_calls()):
            out += [(p, TD)] + ([(p, DD)] if i % 2 == 0 else [])
    elif kind == 'reduce':
        for p, x in hand_reduce():
            p = dict(p, sym=x, coms=len(out) // 2 % 3)
            out += [(p, dict(DD, reduce=x)), (p, DD if len(out) % 4 else TD)]
            if p['name'] in ('first state', 'last state, free end', 'brachistochrone', 'only state', 'all states'):
                out += [(p, dict(DA, reduce=x))]
    g = Gen(seed)
    k2 = {'reduce': 'reduce', 'calls': 'calls', 'plain': 'plain', 'algebraic': 'plain', 'ineq': 'ineq', 'abbrev': 'abbrev'}[kind]
    for i in range(nrandom):
        p = g.prob(k2, i)
        out.append((p, dict(DD, reduce=p['sym']) if kind == 'reduce' else TD if i % 3 else DD))
    return [(copy.deepcopy(p), dict(c)) for p, c in out]
