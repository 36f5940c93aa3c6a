"""Functions and tables the problems of the "calls" family refer to: as handed to beluga, and with exact derivatives."""
import math

import numpy as np


def _cubic(x):
    return x**3 / 3 - x / 2 + 0.25


def _wave(x):
    return math.sin(2 * x) + 0.5 * x


def _surf(x, y):
    return x**2 * y - 0.5 * x * y**2 + 0.3 * y


def _decay(x, y):
    return math.exp(-0.5 * x) * y


def _mix(x, y, z):
    return x * y + y * z * z


PY = {'cubic': _cubic, 'wave': _wave, 'surf': _surf, 'decay': _decay, 'mix': _mix}


def poly(terms):
    """{exponents: coefficient} -> derivative evaluator."""
    def f(orders, *args):
        tot = 0.0 * sum(args)
        for ex, c in terms.items():
            if any(o > e for o, e in zip(orders, ex)):
                continue
            m = c
            for o, e, a in zip(orders, ex, args):
                m = m * math.factorial(e) / math.factorial(e - o) * a**(e - o)
            tot = tot + m
        return tot
    return f


def exact_wave(orders, x):
    k, = orders
    lin = 0.5 * x if k == 0 else 0.5 if k == 1 else 0.0
    return 2.0**k * np.sin(2 * x + k * np.pi / 2) + lin


def exact_decay(orders, x, y):
    i, j = orders
    return (-0.5)**i * np.exp(-0.5 * x) * (y if j == 0 else 1.0 if j == 1 else 0.0)


EXACT = {'cubic': poly({(3,): 1 / 3, (1,): -0.5, (0,): 0.25}), 'wave': exact_wave,
         'surf': poly({(2, 1): 1.0, (1, 2): -0.5, (0, 1): 0.3}), 'decay': exact_decay,
         'mix': poly({(1, 1, 0): 1.0, (0, 1, 2): 1.0})}


def exact_table(t):
    """Piecewise cubics of spec/Spline.tla (record with x0, h, y, Z)."""
    h, y, Z = [np.array(t[k], dtype=float) for k in 'hyZ']
    x = t['x0'] + np.concatenate(([0.0], np.cumsum(h)))

    def f(orders, a):
        k, = orders
        a = np.asarray(a, dtype=float)
        i = np.clip(np.searchsorted(x, a, side='right') - 1, 0, len(h) - 1)
        s, hh = a - x[i], h[i]
        c1 = (y[i + 1] - y[i]) / hh - hh * (2 * Z[i] + Z[i + 1])
        c2, c3 = 3 * Z[i], (Z[i + 1] - Z[i]) / hh
        return [y[i] + c1 * s + c2 * s**2 + c3 * s**3, c1 + 2 * c2 * s + 3 * c3 * s**2, 2 * c2 + 6 * c3 * s,
                6 * c3][k] if k < 4 else 0.0 * s
    return f


def exact(fns):
    return {f['n']: exact_table(f['t']) if f['kind'] == 'table' else EXACT[f['kind']] for f in fns}


def declare(o, fns):
    for f in fns:
        if f['kind'] == 'table':
            t = f['t']
            x = t['x0'] + np.concatenate(([0], np.cumsum(t['h'])))
            o.table(f['n'], '1d_spline', list(t['y']), [int(v) for v in x], '1', ['1'])
        else:
            py = PY[f['kind']]
            o.custom_function(f['n'], py, '1', ['1'] * py.__code__.co_argcount)
