"""C26: numerical derivatives.  TLC enumerates grids, polynomials and orders (spec/NumDiffMC); weights and derivatives
the code gives for them are checked by spec/NumDiffTrace.  Run as a program: the same with compiled functions."""
import json
import os
import random
import subprocess
import sys

UNIT, BIG = 100000, 2000000000


def fix(v):
    v = float(v) * UNIT
    return int(round(v)) if abs(v) < BIG else BIG if v > 0 else -BIG if v < 0 else 1999999999


def source(terms, n):
    names = ['x', 'y', 'z'][:n]
    body = ' + '.join('*'.join(['(%r)' % float(t['c'])] + ['%s**%d' % (a, e) for a, e in zip(names, t['e']) if e])
                      for t in terms)
    return 'def f(%s):\n    return %s + 0.0*%s\n' % (', '.join(names), body, names[0])


def kink(o):
    names = ['x', 'y', 'z'][:len(o)]
    body = '*'.join('max(%s, 0.0)**%d' % (a, k) if k else '1.0' for a, k in zip(names, o))
    return 'def f(%s):\n    return %s\n' % (', '.join(names), body)


def make(src):
    ns = {'NONE': {'zero': 0.0, 'name': 'no compiler accepts this'}}
    exec(src, ns)
    return ns['f']


def guard(f):
    try:
        return '', f()
    except Exception as e:
        return type(e).__name__, None


def derivative(src, o, m, a, x, rng):
    import numba
    from beluga.numeric.numerical_derivatives import gen_num_diff
    from beluga.numeric.numerical_derivatives.finite_diff import gen_fin_diff
    how = rng.random()
    f = make(src.rstrip('\n') + " + NONE['zero']\n" if how > 0.7 else src)      # not compilable
    o = tuple(o)
    if rng.random() < 0.3:                      # trailing zeros need not be written
        while len(o) > 1 and o[-1] == 0:
            o = o[:-1]
    if how < 0.4:
        f = numba.njit(f)
    if a == 1:
        g = gen_num_diff(f, order=o, method=m)
    else:
        g = gen_fin_diff(f, deriv_order=o, step_size=1e-6 * 10**sum(o), acc_order=a,
                         method={'f_diff': 'forward', 'b_diff': 'backward', 'c_diff': 'central'}[m])
    return g(*[float(v) for v in x])


def events(cases, seed):
    rng = random.Random(seed)
    for c in cases:
        if c['k'] == 'grid':
            from beluga.numeric.numerical_derivatives.finite_diff import gen_fin_diff_coeff
            import numpy as np
            sc = rng.choice([1, 2])
            out, w = guard(lambda: gen_fin_diff_coeff(c['d'], np.array(c['g'], dtype=float) / sc))
            yield dict(ev='weights', g=c['g'], d=c['d'], sc=sc, out=out, got=[] if w is None else [fix(v) for v in w])
        elif c['k'] == 'diff':
            f = source(c['p'], len(c['o']))
            out, v = guard(lambda: fix(derivative(f, c['o'], c['m'], c['a'], c['x'], rng)))
            yield dict(ev='diff', p=c['p'], o=c['o'], m=c['m'], a=c['a'], x=c['x'], out=out, got=0 if v is None else v)
        else:
            f = kink(c['o'])
            out, v = guard(lambda: fix(derivative(f, c['o'], c['m'], 1, [0] * len(c['o']), rng)))
            yield dict(ev='kink', o=c['o'], m=c['m'], out=out, got=0 if v is None else v)


def refusals():
    from beluga.numeric.numerical_derivatives import gen_num_diff
    f, g = make(source([{'c': 1, 'e': [2]}], 1)), make(source([{'c': 1, 'e': [2, 1]}], 2))
    for fn, o in ((f, (1,)), (g, (1, 0)), (g, (1, 1))):
        yield dict(ev='refuse', want='NotImplementedError', out=guard(lambda: gen_num_diff(fn, o, 'no_diff'))[0])
    for m in ('f_diff', 'b_diff', 'c_diff', 'csd'):
        yield dict(ev='refuse', want='SyntaxError', out=guard(lambda: gen_num_diff(f, (0, 1), m))[0])
        yield dict(ev='refuse', want='SyntaxError', out=guard(lambda: gen_num_diff(g, (0, 0, 2), m))[0])


def check(ck):
    import vlib
    os.environ['NUMBA_DISABLE_JIT'] = '1'
    out = os.path.join(ck.work, 'nd')
    os.makedirs(out)
    ck.model('NumDiffMC', 'NumDiffMC.cfg' if ck.quick else 'NumDiffDeep.cfg', env={'OUTDIR': out}, workers=1)
    cases = sorted((json.loads(s) for s in open(os.path.join(out, 'cases.ndjson'))), key=lambda c: json.dumps(c, sort_keys=True))
    rng = random.Random(ck.seed)
    jit = rng.sample([c for c in cases if c['k'] != 'grid'], 48 if ck.quick else 400)
    tr = vlib.Trace(os.path.join(ck.work, 'nd.ndjson'))
    procs = []
    for k in range(4):
        path = os.path.join(ck.work, 'jit%d.json' % k)
        json.dump({'cases': jit[k::4], 'seed': ck.seed + k}, open(path, 'w'))
        procs.append(subprocess.Popen([sys.executable, os.path.abspath(__file__), path], stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, env={**os.environ, 'NUMBA_DISABLE_JIT': '0'}))
    for n, e in enumerate(events(cases, ck.seed)):
        tr.add(ev='scn', idx=n, jit=False)
        tr.add(**e)
    tr.add(ev='scn', idx=-1, jit=False)
    for e in refusals():
        tr.add(**e)
    njit = 0
    for p in procs:
        for s in p.communicate()[0].decode().splitlines():
            e = json.loads(s)
            tr.add(ev='scn', idx=njit, jit=True)
            tr.add(**e)
            njit += 1
    if njit != len(jit):
        ck.fail('C26.compiled', ran=njit, of=len(jit))
    ck.extra.update(cases=len(cases), compiled=njit)
    ck.validate('NumDiffTrace', 'NumDiffTrace.cfg', tr, {}, props_only=False)


if __name__ == '__main__':
    import warnings
    warnings.filterwarnings('ignore')
    d = json.load(open(sys.argv[1]))
    for e in events(d['cases'], d['seed']):
        print(json.dumps(e), flush=True)
