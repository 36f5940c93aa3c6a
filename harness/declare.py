"""Conformance of problem declarations (spec/Declare.tla): C23."""
import copy
import glob
import json
import os
import zlib

import numpy as np

import symbolic
import vlib
from trees import text

TD = {'method': 'traditional', 'control': 'differential'}
DD = {'method': 'diffyg', 'control': 'differential'}


def declare(o, d):
    k, n = d['k'], d['n']
    if k == 'independent':
        o.independent(n[0], '1')
    elif k == 'state':
        o.state(n[0], text(d['e']), '1')
    elif k == 'control':
        o.control(n[0], '1')
    elif k == 'constant':
        o.constant(n[0], d['v'], '1')
    elif k == 'badconstant':
        o.constant(n[0], 'not a number', '1')
    elif k == 'quantity':
        o.quantity(n[0], text(d['e']))
    elif k == 'switch':
        o.switch(n[0], [text(f) for f in d['fns']], [[text(c) for c in cs] for cs in d['conds']], d['tol'])
    elif k == 'unit':
        o.scale(**{x: 1 for x in n})
    elif k in ('table', 'badtable'):
        o.table(n[0], '1d_spline' if k == 'table' else 'no such kind', [0., 1., 0., 2.], [0., 1., 2., 3.], '1', ['1'])
    elif k == 'function':
        o.custom_function(n[0], lambda x: x * x, '1', ['1'])
    elif k == 'com':
        o.constant_of_motion(n[0], '_lam_x', '1')
    elif k == 'path':
        o.path_cost(text(d['e']), '1')
    elif k == 'initial':
        o.initial_cost(text(d['e']), '1')
    elif k == 'terminal':
        o.terminal_cost(text(d['e']), '1')
    elif k == 'setcost':
        kw = {x: text(d[x]) for x in ('initial', 'path', 'terminal') if d[x] != ['n', 0]}
        o.set_cost(units='1', **kw)
    elif k == 'psi0':
        o.initial_constraint(text(d['e']), '1')
    elif k == 'psif':
        o.terminal_constraint(text(d['e']), '1')
    elif k == 'ineq':
        getattr(o, d['loc'] + '_constraint')(text(d['e']), '1', lower=text(d['lo']), upper=text(d['hi']), activator=d['act'], method=d['m'])
    else:
        raise vlib.ToolError('no declaration ' + k)


def replay(job):
    """One history -> (declaration events, events of the boundary value problems)."""
    idx, hist, outdir, keys, seed = job
    vlib.silence()
    import beluga
    from capture import Captured
    dev, bev = [{'ev': 'scn', 'idx': idx}], []
    objs = [beluga.Problem('p')]
    nsolve = 0
    for i, h in enumerate(hist):
        if h['op'] == 'copy':
            objs.append(copy.deepcopy(objs[0]))
            dev.append({'ev': 'copy'})
            continue
        o = objs[h['o'] - 1]
        if h['op'] == 'declare':
            out = ''
            try:
                declare(o, h['d'])
            except vlib.ToolError:
                raise
            except Exception as e:
                out = vlib.excinfo(e)
            dev.append({'ev': 'declare', 'o': h['o'], 'd': h['d'], 'out': out})
            continue
        key = keys.get(json.dumps(h['p'], sort_keys=True)) if h['out'] == '' else None
        cfg = (TD, DD)[(idx + nsolve) % 2]
        nsolve += 1
        e = {'ev': 'solve', 'o': h['o'], 'out': '', 'consts': [], 'units': []}
        try:
            cap = Captured(o, cfg['method'], control_method=cfg['control'])
            e['consts'] = [{'n': n, 'v': int(v) if v == int(v) else str(v)} for n, v in zip(cap.consts, cap.const)]
            e['units'] = sorted(u.name for u in cap.fp.prob.units)
        except Exception as ex:
            e['out'] = vlib.excinfo(ex)
            dev.append(e)
            continue
        dev.append(e)
        if key is None:
            continue
        num = key[cfg['method']]
        with open(os.path.join(outdir, '%d.json' % num)) as f:
            b = json.load(f)['bvp']

        def emit(**kw):
            bev.append(kw)
        emit(ev='scn', idx=num, name='declared', method=cfg['method'], control=cfg['control'], jac=False, mode='bvp',
             hist=hist[:i + 1])
        rng = np.random.default_rng([seed, idx, i])
        try:
            symbolic.evaluate(cap, b, h['p'], cfg, rng, emit)
            emit(ev='end', out='ok')
        except Exception as ex:
            emit(ev='end', out=vlib.excinfo(ex))
    return dev, bev


def check(ck):
    os.environ['NUMBA_DISABLE_JIT'] = '1'
    ck.model('DeclareMC', 'DeclareMC.cfg' if ck.quick else 'DeclareDeep.cfg', env={'OUTDIR': ''}, workers=8, timeout=800)
    n = 140 if ck.quick else 600
    hdir, outdir = os.path.join(ck.work, 'hist'), os.path.join(ck.work, 'bvps')
    os.makedirs(hdir), os.makedirs(outdir)
    ck.model('DeclareMC', 'DeclareSim.cfg', env={'OUTDIR': hdir}, workers=1, timeout=800,
             extra=('-simulate', 'num=%d' % n, '-depth', '100', '-seed', str(ck.seed)))
    hists = []
    for p in sorted(glob.glob(hdir + '/*.json'), key=lambda x: int(os.path.basename(x)[:-5])):
        with open(p) as f:
            hists.append(json.load(f))
    # a name declared on a copy, and then on the original: always among the histories (a known finding)
    z = {'k': 'constant', 'n': ['z'], 'v': 1}
    hists.append([{'op': 'declare', 'o': 1, 'd': {'k': 'state', 'n': ['x'], 'e': ['n', 1]}}, {'op': 'copy', 'o': 1},
                  {'op': 'declare', 'o': 2, 'd': z}, {'op': 'declare', 'o': 1, 'd': z}])
    fam, keys = [], {}
    for h in hists:
        for e in h:
            if e['op'] == 'solve' and e['out'] == '':
                k = json.dumps(e['p'], sort_keys=True)
                if k not in keys:
                    keys[k] = {'traditional': len(fam) + 1, 'diffyg': len(fam) + 2}
                    fam += [{'p': e['p'], 'cfg': TD}, {'p': e['p'], 'cfg': DD}]
    path = os.path.join(ck.work, 'problems.json')
    with open(path, 'w') as f:
        json.dump(fam, f)
    ck.model('IndirectMC', 'IndirectMC.cfg', env={'PROBLEMS': path, 'OUTDIR': outdir}, workers=8, timeout=800)
    ck.log('%d histories, %d different problems' % (len(hists), len(keys)))
    import beluga  # noqa: F401
    jobs = [(i, h, outdir, keys, ck.seed) for i, h in enumerate(hists)]
    res = ck.pmap(replay, jobs, chunksize=1)
    tr, tb = vlib.Trace(os.path.join(ck.work, 'trace.ndjson')), vlib.Trace(os.path.join(ck.work, 'traceb.ndjson'))
    for d, b in res:
        tr.events += d
        tb.events += b
    tr.write(), tb.write()
    ck.validate('DeclareTrace', 'DeclareTrace.cfg', tr, {}, props_only=False)
    os.environ['PROBLEMS'] = path
    ck.validate('IndirectTrace', 'IndirectTrace.cfg', tb, {}, props_only=False)
    ck.extra['histories'] = len(hists)
    ck.extra['declarations'] = sum(1 for e in tr.events if e['ev'] == 'declare')
    ck.extra['copies'] = sum(1 for e in tr.events if e['ev'] == 'copy')
    ck.extra['solves'] = sum(1 for e in tr.events if e['ev'] == 'solve')
