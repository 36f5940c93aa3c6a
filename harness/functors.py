"""Conformance of the composition of problem transformations (spec/Functor.tla): C12."""
import json
import os

import vlib


def read(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def replay(ops, tr):
    from beluga.symbolic.data_classes import GenericFunctor

    class Rec(GenericFunctor):
        def __init__(self, name):
            self.name = name

        def transformation(self, prob):
            return prob + [self.name]
    tr.add(ev='scn', kind='compose')
    regs = [Rec('a'), Rec('b'), GenericFunctor()]
    for o in ops:
        i, j = o['i'] - 1, o['j'] - 1
        a, b = regs[i], regs[j]
        out = ''
        r = None
        try:
            if o['inplace']:
                x = a
                if o['op'] == '*':
                    x *= b
                elif o['op'] == '<<':
                    x <<= b
                elif o['op'] == '>>':
                    x >>= b
                elif o['op'] == '**half':
                    x **= 0.5
                else:
                    x **= o['n']
                r = x
            else:
                r = (a * b if o['op'] == '*' else a << b if o['op'] == '<<' else a >> b if o['op'] == '>>'
                     else a ** 0.5 if o['op'] == '**half' else a ** o['n'])
        except Exception as e:
            out = vlib.excinfo(e)
        if not out:
            if o['inplace']:
                regs[i] = r
            else:
                regs.append(r)
        tr.add(ev='op', o=o, out=out)
    for k, f in enumerate(regs):
        for _ in range(2 if k == len(regs) - 1 else 1):
            try:
                w = f([])
            except Exception as e:
                w = ['!' + vlib.excinfo(e)]
            tr.add(ev='word', reg=k + 1, w=w)


def problem():
    import beluga
    o = beluga.Problem('stages')
    o.independent('t', 's')
    o.state('x', 'v', 'm')
    o.state('v', 'u*A + w', 'm/s')
    o.control('u', '1')
    o.control('w', '1')
    o.constant('A', 2, '1')
    o.constant('eps', 1e-2, '1')
    o.quantity('two', 'A*2')
    o.switch('S', ['A', 'A*2'], [['x - A'], ['A - x']], 'eps')
    o.path_cost('u**2 + w**2 + two*S', '1')
    o.initial_constraint('x', 'm')
    o.initial_constraint('v', 'm/s')
    o.initial_constraint('t', 's')
    o.terminal_constraint('x - 1', 'm')
    o.path_constraint('v', 'm/s', lower='-4', upper='4', activator='eps', method='utm')
    o.path_constraint('w', '1', lower='-4', upper='4', activator='eps', method='epstrig')
    o.scale(m='x', s='x/v')
    return o


def stage(word):
    vlib.silence()
    import beluga.symbolic.data_classes.mapping_functions as mf
    try:
        f = mf.GenericFunctor()
        for k in word:
            f >>= getattr(mf, k)()
        f(problem())
        return ''
    except Exception as e:
        return vlib.excinfo(e)


def check(ck):
    os.environ['NUMBA_DISABLE_JIT'] = '1'
    out = os.path.join(ck.work, 'out')
    os.makedirs(out)
    ck.model('FunctorMC', 'FunctorMC.cfg' if ck.quick else 'FunctorDeep.cfg', env={'OUTDIR': out}, workers=1,
             timeout=800)
    ck.model('FunctorStage', 'FunctorStage.cfg' if ck.quick else 'FunctorStageDeep.cfg', env={'OUTDIR': out}, workers=1,
             timeout=800)
    hists, words = read(out + '/hist.ndjson'), read(out + '/words.ndjson')
    tr = vlib.Trace(os.path.join(ck.work, 'trace.ndjson'))
    for h in hists:
        replay(h['ops'], tr)
    extra = [dict(op='**', i=1, j=1, n=-1, inplace=False), dict(op='**', i=2, j=1, n=-3, inplace=True),
             dict(op='**half', i=1, j=1, n=0, inplace=False)]
    for e in extra:
        replay([e, dict(op='>>', i=1, j=2, n=0, inplace=False)], tr)
    import beluga  # noqa: F401
    if ck.quick:
        words = words[::max(1, len(words) // 400)]
    else:
        words = words[::max(1, len(words) // 8000)]
    res = ck.pmap(stage, [w['word'] for w in words], chunksize=4)
    tr.add(ev='scn', kind='stage')
    for w, r in zip(words, res):
        tr.add(ev='stage', word=w['word'], out=r)
    tr.write()
    ck.log('%d histories of compositions, %d orders of transformations' % (len(hists), len(words)))
    ck.validate('FunctorTrace', 'FunctorTrace.cfg', tr, {}, props_only=False)
    ck.extra['compositions'] = len(hists)
    ck.extra['stage_orders'] = len(words)
