"""Compiled functions (spec/Compile.tla): C30.

Formulas emitted by TLC are compiled every way the library offers, with machine code and without it, and called with the
arguments grouped as the signature says; then whole problems are compiled to machine code and compared with the boundary
value problem of spec/Indirect.tla."""
import json
import os
import subprocess
import sys

BIG = 2000000000


def read(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def whole(v):
    import numpy as np
    z = complex(np.asarray(v).item()) if not isinstance(v, complex) else v

    def r(a):
        return int(round(a)) if np.isfinite(a) and abs(a) < 1e8 and abs(a - round(a)) < 1e-7 * max(1, abs(a)) else BIG
    return [r(z.real), r(z.imag)]


def nested(v):
    import numpy as np
    if isinstance(v, (tuple, list)) or (isinstance(v, np.ndarray) and v.ndim):
        return ['t', [nested(x) for x in v]]
    return ['x', whole(v)]


def ways(case, k):
    """Compile one formula; yields (how, function or exception)."""
    import sympy
    import numba
    import vlib
    from beluga.numeric.compilation import LocalCompiler, jit_lambdify, jit_compile_func
    from beluga.numeric.compilation.jit import jit_compile_func_num_args
    sig, cplx = case['sig'], case['cplx']
    syms, args, kinds = [], [], []
    for s in sig:
        new = [sympy.Symbol('z%d' % (len(syms) + i)) for i in range(max(s, 0) if s >= 0 else 1)]
        syms += new
        args.append(new if s >= 0 else new[0])
        kinds.append('array' if s >= 0 else 'scalar')
    square, shift = (lambda z: z * z - 3), (lambda z: z + 5)
    named = {'square': square, 'shift': shift}[case['g']]
    cache = {}

    def odd(z):                                 # nothing a compiler could translate
        cache[str(z)] = named(z)
        return cache.pop(str(z))

    def expr(f, g):
        if f[0] == 't':
            # lists, tuples and vectors of formulas
            return [expr(x, g) for x in f[1]] if k % 2 else tuple(expr(x, g) for x in f[1])
        e = sympy.Integer(0)
        for t in f[1]:
            m = sympy.Integer(t['c'])
            for s, n in zip(syms + [g], t['e']):
                m *= s ** n
            e += m
        return e
    name = 'square' if k % 2 else 'g'           # numpy has a function of that name, too
    call = sympy.Function(name)(syms[0])
    direct = syms[0] ** 2 - 3 if case['g'] == 'square' else syms[0] + 5

    def attempt(how, build):
        try:
            return how, build()
        except Exception as e:
            return how, e

    def by_name(g):
        lc = LocalCompiler()
        lc.add_function_local(name, g)
        fn = lc.lambdify(args, expr(case['f'], call), complex_numbers=cplx)
        lc.add_function_local(name, lambda z: z - 1000)          # afterwards: another function of that name
        return fn

    def replaced():
        lc = LocalCompiler()
        lc.add_function_local(name, lambda z: z - 1000)
        return lc.lambdify(args, expr(case['f'], call), additional_modules={name: numba.njit(named)}, complex_numbers=cplx)

    def afterwards():                           # a replacement is for one compilation
        lc = LocalCompiler()
        lc.add_function_local(name, named)
        lc.lambdify(args, expr(case['f'], call), additional_modules={name: lambda z: z - 1000}, complex_numbers=cplx)
        return lc.lambdify(args, expr(case['f'], call), complex_numbers=cplx)

    def plain():
        f = sympy.lambdify(args, expr_t(case['f']), ['numpy'])
        return f

    def expr_t(f):
        return tuple(expr_t(x) for x in f[1]) if f[0] == 't' else expr(f, direct)
    yield attempt('by name', lambda: by_name(numba.njit(named)))
    yield attempt('by name, untranslated', lambda: by_name(named))
    yield attempt('by name, not translatable', lambda: by_name(odd))
    yield attempt('replaced', replaced)
    yield attempt('replaced before', afterwards)
    yield attempt('formula', lambda: jit_lambdify(args, expr(case['f'], direct), complex_numbers=cplx))
    yield attempt('function', lambda: jit_compile_func(plain(), args, complex_numbers=cplx))
    yield attempt('function, kinds', lambda: jit_compile_func(plain(), kinds, complex_numbers=cplx))
    if len(set(kinds)) == 1:
        yield attempt('function, count', lambda: jit_compile_func_num_args(
            plain(), len(args), complex_numbers=cplx, array_inputs=kinds[0] == 'array'))


def values(case, z):
    import numpy as np
    out, i = [], 0
    num = (lambda v: complex(*v)) if case['cplx'] else (lambda v: float(v[0]))
    for s in case['sig']:
        n = s if s >= 0 else 1
        v = [num(x) for x in z[i:i + n]]
        i += n
        out.append(np.array(v, dtype=complex if case['cplx'] else float) if s >= 0 else v[0])
    return out


def worker(src, dst, machine):
    import vlib
    vlib.silence()
    cases = read(src)
    with open(dst, 'w') as f:
        for i in range(0, len(cases), 2):
            fns = [(c, how, fn) for n, c in enumerate(cases[i:i + 2]) for how, fn in ways(c, i + n)]
            evs = [[] for _ in fns]
            for q in range(3):                                  # calls of different functions alternate
                for (c, how, fn), ev in zip(fns, evs):
                    if isinstance(fn, Exception):
                        continue
                    try:
                        e = dict(ev='call', z=c['zs'][q], out='', got=nested(fn(*values(c, c['zs'][q]))))
                    except Exception as x:
                        e = dict(ev='call', z=c['zs'][q], out=vlib.excinfo(x), got=['x', [0, 0]])
                    ev.append(e)
            for (c, how, fn), ev in zip(fns, evs):
                out = vlib.excinfo(fn) if isinstance(fn, Exception) else ''
                head = dict(ev='scn', f=c['f'], sig=c['sig'], g=c['g'], how=how, machine=machine, cplx=c['cplx'],
                            calls=0 if out else 3)
                for e in [head] + ev + [dict(ev='end', out=out)]:
                    f.write(json.dumps(e) + '\n')


def formulas(ck):
    import vlib
    out = os.path.join(ck.work, 'formulas')
    os.makedirs(out)
    ck.model('CompileMC', 'CompileMC.cfg' if ck.quick else 'CompileDeep.cfg', env={'OUTDIR': out}, workers=1, timeout=600)
    cases = read(os.path.join(out, 'cases.ndjson'))
    procs = []
    n = 6
    for machine in (True, False):
        for j in range(n if machine else 2):
            part = cases[j::n if machine else 2]
            src, dst = (os.path.join(out, '%s_%d_%d' % (w, machine, j)) for w in ('in', 'out'))
            with open(src, 'w') as f:
                f.write(''.join(json.dumps(c) + '\n' for c in part))
            env = {**os.environ, 'NUMBA_DISABLE_JIT': '0' if machine else '1', 'OMP_NUM_THREADS': '1'}
            procs.append((dst, part, subprocess.Popen(
                [sys.executable, os.path.abspath(__file__), src, dst, str(int(machine))], env=env,
                stdout=subprocess.DEVNULL, stderr=open(dst + '.err', 'w'))))
    tr = vlib.Trace(os.path.join(ck.work, 'formulas.ndjson'))
    for dst, part, p in procs:
        try:
            rc = p.wait(timeout=700)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = -9
        if os.path.exists(dst):
            tr.events += read(dst)
        if rc:
            with open(dst + '.err') as f:
                ck.fail('compiler crashes', status=rc, detail=f.read()[-600:])
    tr.write()
    ck.log('%d formulas, %d compiled functions' % (len(cases), sum(e['ev'] == 'scn' for e in tr.events)))
    ck.validate('CompileTrace', 'CompileTrace.cfg', tr, {}, props_only=False)
    ck.extra['formulas'] = len(cases)
    ck.extra['compiled_functions'] = sum(e['ev'] == 'scn' for e in tr.events)


def check(ck):
    formulas(ck)
    import mapping
    import problems
    import symbolic
    fam = []
    for kind, k in (('plain', 2), ('algebraic', 2), ('ineq', 2), ('abbrev', 2), ('calls', 2)):
        f = problems.family(kind, k, ck.seed * 100 + 30)
        fam += f[ck.seed % 4::4] if ck.quick else f
    real = [x for x in problems.family('algebraic', 0, 1) if 'not always real' in x[0]['name']]
    fam += [x for x in real if x not in fam]
    if ck.quick:                                 # slow to compile
        fam = [x for x in fam if x[0]['name'] not in ('first candidate not real',
                                                      'control bounds that depend on time and states')]
    symbolic.run_family(ck, fam, lambda i, cfg: cfg['control'] == 'differential' and i % 3 == 0, jit=True)
    symbolic.run_family(ck, fam if not ck.quick else fam[::5], None, worker=mapping.one, tag='map', jit=True,
                        keep=lambda c: c != 'half angle')      # a finding of C11


if __name__ == '__main__':
    worker(sys.argv[1], sys.argv[2], sys.argv[3] == '1')
