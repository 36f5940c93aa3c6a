"""C28: differential forms and Hamiltonian fields (spec/Geom): what the code computes symbolically is evaluated at whole
points and checked by spec/GeomTrace."""
import json
import os

BIG = 2000000000


def check(ck):
    import sympy
    import vlib
    from beluga.symbolic.differential_geometry import (exterior_derivative, is_symplectic, make_hamiltonian_vector_field,
                                                       make_standard_symplectic_form, pb, total_derivative)
    from beluga.symbolic.data_classes.mapping_functions import Dualize, Sympify
    from beluga import Problem
    out = os.path.join(ck.work, 'g')
    os.makedirs(out)
    ck.model('GeomMC', 'GeomMC.cfg' if ck.quick else 'GeomDeep.cfg', env={'OUTDIR': out}, workers=1)
    cases = sorted((json.loads(s) for s in open(os.path.join(out, 'cases.ndjson'))), key=lambda c: json.dumps(c, sort_keys=True))
    names = [sympy.symbols('b d a c')[:n] for n in range(5)]     # not in alphabetical order

    def poly(p, syms):
        return sum((t['c'] * sympy.prod([s**e for s, e in zip(syms, t['e'])]) for t in p), sympy.Integer(0))

    def ev(e, syms, x, scale=1):
        v = sympy.sympify(e).subs(dict(zip(syms, x))) * scale
        return int(v) if v.is_integer and abs(v) < BIG else BIG

    def guard(f):
        try:
            return '', f()
        except Exception as e:
            return type(e).__name__, None

    tr = vlib.Trace(os.path.join(ck.work, 'g.ndjson'))
    for n, c in enumerate(cases):
        tr.add(ev='scn', idx=n)
        k = c['k']
        if 'x' in c and k != 'mom':
            syms = names[len(c['x'])]
            basis = list(syms)
        if k == 'func':
            def go():
                d = exterior_derivative(poly(c['p'], syms), basis)
                dd = exterior_derivative(d, basis)
                return [ev(d[i], syms, c['x']) for i in range(len(basis))], \
                       [[ev(dd[i, j], syms, c['x']) for j in range(len(basis))] for i in range(len(basis))]
            o, v = guard(go)
            tr.add(ev=k, p=c['p'], x=c['x'], out=o, d=v[0] if v else [], dd=v[1] if v else [])
        elif k == 'form':
            kind = [sympy.Array, sympy.MutableDenseNDimArray][n % 2]

            def go():
                d = exterior_derivative(kind([poly(p, syms) for p in c['f']]), basis)
                return [[ev(d[i, j], syms, c['x']) for j in range(len(basis))] for i in range(len(basis))]
            o, v = guard(go)
            tr.add(ev=k, f=c['f'], x=c['x'], out=o, d=v or [])
        elif k in ('ham', 'field'):
            m = len(basis) // 2

            def go():
                om = make_standard_symplectic_form(basis[:m], basis[m:]) if k == 'ham' else sympy.MutableDenseNDimArray(c['o'])
                v = make_hamiltonian_vector_field(poly(c['p'], syms), om, basis)
                val = [sympy.sympify(v[i]).subs(dict(zip(syms, c['x']))) for i in range(len(basis))]
                s = sympy.ilcm(1, *[sympy.Rational(a).q for a in val])
                return [int(a * s) for a in val], int(s)
            o, v = guard(go)
            e = dict(ev=k, p=c['p'], x=c['x'], out=o, v=v[0] if v else [], s=v[1] if v else 0)
            if k == 'field':
                e['o'] = c['o']
            tr.add(**e)
        elif k == 'symp':
            o, v = guard(lambda: bool(is_symplectic(sympy.MutableDenseNDimArray(c['o']))))
            tr.add(ev=k, o=c['o'], out=o, got=bool(v))
        elif k == 'total':
            deps = sympy.symbols('q_1 a_2')[:len(c['qs'])]

            def go():
                sub = {s: poly(p, syms) for s, p in zip(deps, c['qs'])}
                d = total_derivative(poly(c['p'], list(syms) + list(deps)), syms[c['v'] - 1], sub)
                return ev(sympy.sympify(d).subs(sub), syms, c['x'])
            o, v = guard(go)
            tr.add(ev=k, p=c['p'], qs=c['qs'], v=c['v'], x=c['x'], out=o, d=BIG if v is None else v)
        elif k == 'mom':
            m = len(c['f'])
            st = ['s', 'r', 'w'][:m]
            syms = sympy.symbols(st + ['_lam_' + a for a in st])

            def go():
                o = Problem()
                o.independent('t', 's')
                for i, a in enumerate(st):
                    o.state(a, 'u' if i == 0 else st[i - 1], '1')
                o.control('u', '1')
                o.path_cost('u**2', '1')
                o.initial_constraint(st[0], '1')
                o.constant_of_motion('g', str(poly(c['g'], syms)), '1')
                o.symmetry([str(poly(p, syms)) for p in c['f']], '1')
                b = (Dualize('diffyg') * Sympify())(o)
                coms = {a.name: a for a in b.constants_of_motion}
                mine = coms.pop('g')
                coms.pop('hamiltonian')
                com, = coms.values()
                v = pb(None, mine, b)
                return [ev(com.expr, syms, c['x']), ev(mine.expr, syms, c['x'])], \
                       [ev(v[i], syms, c['x']) for i in range(2 * m)]
            o, v = guard(go)
            tr.add(ev=k, f=c['f'], g=c['g'], x=c['x'], out=o, com=v[0][0] if v else BIG, own=v[0][1] if v else BIG, v=v[1] if v else [])
        else:
            s = sympy.symbols('x:%d' % (c['a'] + 1))[:c['a']], sympy.symbols('l:%d' % (c['b'] + 1))[:c['b']]

            def go():
                w = make_standard_symplectic_form(list(s[0]), list(s[1]))
                return [[int(w[i, j]) for j in range(w.shape[1])] for i in range(w.shape[0])]
            o, v = guard(go)
            tr.add(ev=k, a=c['a'], b=c['b'], out=o, o=v or [])
    tr.add(ev='scn', idx=-1)
    x, y, z = sympy.symbols('x y z')
    for shape, basis in (([[0, 1, 0], [-1, 0, 1]], [x, y]), ([[0, 1, 0], [-1, 0, 0], [0, 0, 0]], [x, y, z]), ([[0, 1]], [x])):
        tr.add(ev='refuse', want='ValueError',
               out=guard(lambda: make_hamiltonian_vector_field(x * y, sympy.MutableDenseNDimArray(shape), basis))[0])
    tr.add(ev='refuse', want='', out=guard(lambda: int(bool(is_symplectic(None))) and 1 / 0)[0])
    tr.add(ev='refuse', want='', out=guard(lambda: int(bool(is_symplectic(sympy.MutableDenseNDimArray([0, 0])))) and 1 / 0)[0])
    ck.extra.update(cases={k: sum(c['k'] == k for c in cases) for k in sorted({c['k'] for c in cases})})
    ck.validate('GeomTrace', 'GeomTrace.cfg', tr, {}, props_only=False)
