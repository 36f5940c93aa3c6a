"""Expression trees of spec/Expr.tla: parsing, printing, evaluation."""
import ast

import numpy as np

FN = {'asin': np.arcsin, 'sin': np.sin, 'cos': np.cos, 'exp': np.exp}


def parse(s):
    """Python expression text -> tree."""
    return _p(ast.parse(str(s), mode='eval').body)


def _p(n):
    if isinstance(n, ast.Constant):
        assert isinstance(n.value, int), n.value
        return ['n', n.value]
    if isinstance(n, ast.Name):
        return ['pi'] if n.id == 'pi' else ['v', n.id]
    if isinstance(n, ast.UnaryOp):
        a = _p(n.operand)
        return ['n', -a[1]] if a[0] == 'n' else ['*', ['n', -1], a]
    if isinstance(n, ast.BinOp):
        a, b = _p(n.left), _p(n.right)
        if isinstance(n.op, ast.Add):
            return ['+', a, b]
        if isinstance(n.op, ast.Sub):
            return ['+', a, ['n', -b[1]] if b[0] == 'n' else ['*', ['n', -1], b]]
        if isinstance(n.op, ast.Mult):
            return ['*', a, b]
        if isinstance(n.op, ast.Div):
            return ['/', a, b]
        if isinstance(n.op, ast.Pow):
            assert b[0] == 'n' and b[1] >= 1
            return ['^', a, b[1]]
    if isinstance(n, ast.Call):
        if n.func.id in FN:
            return [n.func.id, _p(n.args[0])]
        return ['call', n.func.id, [0] * len(n.args), [_p(a) for a in n.args]]
    raise ValueError(ast.dump(n))


def text(e):
    """Tree -> text for the problem definition."""
    o = e[0]
    if o == 'n':
        return str(e[1]) if e[1] >= 0 else '(%d)' % e[1]
    if o == 'pi':
        return 'pi'
    if o == 'v':
        return e[1]
    if o in '+*/':
        return '(%s %s %s)' % (text(e[1]), o, text(e[2]))
    if o == '^':
        return '%s**%d' % (text(e[1]) if e[1][0] in 'vn' else '(' + text(e[1]) + ')', e[2])
    if o == 'call':
        assert not any(e[2])
        return '%s(%s)' % (e[1], ', '.join(text(a) for a in e[3]))
    return '%s(%s)' % (o, text(e[1]))


def free(e):
    if e[0] == 'v':
        return {e[1]}
    if e[0] == 'call':
        return set().union(*[free(x) for x in e[3]])
    return set().union(*[free(x) for x in e[1:] if isinstance(x, (list, tuple))])




def value(e, env, fns=None):
    """Value of a tree, with arrays over points in env; fns[name](orders, *args) are the values of functions and
    their derivatives (also found in env['fns'])."""
    fns = fns or env.get('fns') or {}
    memo = {}

    def go(e):
        o = e[0]
        if o == 'n':
            return float(e[1])
        if o == 'pi':
            return np.pi
        if o == 'v':
            return env[e[1]]
        k = id(e)
        if k in memo:
            return memo[k]
        if o == '+':
            r = go(e[1]) + go(e[2])
        elif o == '*':
            r = go(e[1]) * go(e[2])
        elif o == '/':
            r = go(e[1]) / go(e[2])
        elif o == '^':
            r = go(e[1]) ** e[2]
        elif o == 'call':
            r = fns[e[1]](tuple(e[2]), *[go(a) for a in e[3]])
        else:
            r = FN[o](go(e[1]))
        memo[k] = r
        return r
    with np.errstate(all='ignore'):
        return go(e)
