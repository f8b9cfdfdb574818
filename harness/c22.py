"""C22: classes and combinations survive printing and parsing; arithmetic of combinations."""
from symex.lib import *

BOUNDS = 'lists of length up to the listed one with arbitrary non-negative entries (unbounded in the symbolic runs); ' \
         'combinations of two classes with the listed coefficients'
ASSUMPTIONS = ['entries are non-negative integers']


def configs(tier):
    q = tier == 'quick'
    out = []
    L = 4 if q else 6
    for a in range(0, L + 1):
        out.append({'name': 'class len=%d' % a, 'what': 'class', 'a': a, 'weight': 1, 'bounds': 'lists of length %d' % a})
        for b in range(0, L + 1):
            out.append({'name': 'two lists %d,%d' % (a, b), 'what': 'two', 'a': a, 'b': b, 'weight': 1,
                        'bounds': 'pairs of lists of lengths %d and %d' % (a, b)})
    L = 3 if q else 4
    for a in range(0, L + 1):
        for b in range(0, L + 1):
            out.append({'name': 'combination %d,%d' % (a, b), 'what': 'lc', 'a': a, 'b': b, 'weight': 5,
                        'bounds': 'combinations of classes with lists of lengths %d and %d' % (a, b)})
            out.append({'name': 'product %d,%d' % (a, b), 'what': 'prod', 'a': a, 'b': b, 'weight': 5,
                        'bounds': 'products and powers of classes with lists of lengths %d and %d' % (a, b)})
    return out


def vec(E, name, n):
    return [E.var('%s%d' % (name, i), 0) for i in range(n)]


COEFS = [('1', '1'), ('2', '-3'), ('q', '1'), ('-q^2', '5*q'), ('q1*q2', '-q2'), ('7', '-7'), ('-1', '2*q1'), ('q^12', '-10000000000000001*q'), ('123456789012', '-q1^10*q2^11')]


def txt(p):
    return 'S[' + ','.join(str(x) for x in p) + ']'


def same(E, label, x, want):
    E.check(label, And(len(x) == len(want), Eq(list(x), list(want))), (x, want))


def dec(E, label, x):
    return terms(E, label, x)


def build(e1, p, e2, r):
    from sympy import sympify
    mons = {'1': (1, (0, 0, 0)), '2': (2, (0, 0, 0)), 'q': (1, (1, 0, 0)), '-q^2': (-1, (2, 0, 0)), 'q1*q2': (1, (0, 1, 1)),
            '7': (7, (0, 0, 0)), '-1': (-1, (0, 0, 0)), '-3': (-3, (0, 0, 0)), '5*q': (5, (1, 0, 0)), '-q2': (-1, (0, 0, 1)),
            '-7': (-7, (0, 0, 0)), '2*q1': (2, (0, 1, 0)), 'q^12': (1, (12, 0, 0)), '-10000000000000001*q': (-10 ** 16 - 1, (1, 0, 0)),
            '123456789012': (123456789012, (0, 0, 0)), '-q1^10*q2^11': (-1, (0, 10, 11))}
    (c1, d1), (c2, d2) = mons[e1], mons[e2]
    return [T(c1, d1, list(p))], [T(c2, d2, list(r))]


def monomial(E, label, x):
    """A single product: (number, q-powers, the classes in it with repetition)."""
    import sympy
    e = sympy.expand(to_expr(x))
    c, fs = e.as_coeff_mul()
    d, out = [0, 0, 0], []
    for f in fs:
        b, n = f.as_base_exp()
        E.check(label + ': a product of classes and powers of q', b.is_Symbol and n.is_Integer and n > 0, str(e))
        if b.name in QN:
            d[QN.index(b.name)] += int(n)
        else:
            out += [parse_name(b.name)] * int(n)
    E.check(label + ': an integer coefficient', c.is_Integer, str(e))
    return int(c), tuple(d), out


def check_product(E, label, x, c, d, ps):
    import itertools
    got = monomial(E, label, x)
    E.check(label + ': coefficient', got[0] == c and got[1] == tuple(d), (str(x), c, d))
    E.check(label + ': the classes multiplied', len(got[2]) == len(ps) and Or(*[
        And(*[len(a) == len(b) and Eq(list(a), list(b)) for a, b in zip(got[2], s)]) for s in itertools.permutations(ps)]), (str(x), ps))


def run_product(E, sp, p, r):
    from sympy import Symbol
    i = E.var('coefs', 0, len(COEFS) - 1).__index__()
    e1, e2 = COEFS[i]
    (A,), (B,) = build(e1, p, e2, r)
    d = tuple(u + v for u, v in zip(A.d, B.d))
    p, r = list(p), list(r)
    x, y = sp.LinearCombination('(%s)*%s' % (e1, txt(p))), sp.LinearCombination('(%s)*%s' % (e2, txt(r)))
    E.outcome = i
    check_product(E, 'product', call(E, '*', lambda: x * y), A.c * B.c, d, [p, r])
    check_product(E, 'product with an expression', call(E, '*', lambda: x * y.expr), A.c * B.c, d, [p, r])
    check_product(E, 'square', call(E, '**', lambda: x ** 2), A.c ** 2, [2 * u for u in A.d], [p, p])
    check_product(E, 'cube', call(E, '**', lambda: y ** 3), B.c ** 3, [3 * u for u in B.d], [r, r, r])
    check_product(E, 'first power', call(E, '**', lambda: y ** 1), B.c, B.d, [r])
    check_product(E, 'text of a product', sp.LinearCombination('%s*%s^2' % (txt(p), txt(r))), 1, (0, 0, 0), [p, r, r])
    check_product(E, 'a product survives printing and parsing', sp.LinearCombination(str(x * y)), A.c * B.c, d, [p, r])
    if i == 0:
        sx, sy = sp.Schur(list(p)), sp.Schur(list(r))
        check_product(E, 'product of classes', call(E, '*', lambda: sx * sy), 1, (0, 0, 0), [p, r])
        check_product(E, 'power of a class', call(E, '**', lambda: sx ** 2), 1, (0, 0, 0), [p, p])
        check_product(E, 'class times combination', call(E, '*', lambda: sx * y), 1, (0, 0, 0), [p, r])
        check_product(E, 'class times q', call(E, '*', lambda: sx * Symbol('q')), 1, (1, 0, 0), [p])
        check_same(E, 'class plus combination', dec(E, 'sum', call(E, '+', lambda: sx + y)), [A, B])
        zero = y - y
        check_same(E, 'class plus the zero combination', dec(E, 'sum', call(E, '+', lambda: sx + zero)), [A])
        check_same(E, 'class times the zero combination', dec(E, 'product', call(E, '*', lambda: sx * zero)), [])
        E.check('the zeroth power of a class', to_expr(call(E, '**', lambda: sx ** zero)) == 1)
        check_same(E, 'sum of classes and combinations', dec(E, 'sum', call(E, 'sum', lambda: sum([sx, sy, sx]))), scale_terms([A], 2) + [B])
        for bad in ('1', None, [1]):
            E.check('sums with other things are refused', raises(E, lambda: x + bad) is not None)
            E.check('products with other things are refused', raises(E, lambda: x * bad) is not None)
            E.check('differences with other things are refused', raises(E, lambda: x - bad) is not None)


def run(E, sp, cfg):
    p = vec(E, 'x', cfg['a'])
    if cfg['what'] == 'class':
        s = call(E, 'Schur', sp.Schur, list(p))
        t = call(E, 'str', str, s)
        E.outcome = list(p)
        E.check('a class prints as S[...]', t == txt(p), t)
        for form, x in (('text', t), ('symbol', s.symbol()), ('class', s), ('spaced text', t.replace(',', ', '))):
            same(E, 'a class is recovered from its ' + form, call(E, 'Schur(%s)' % form, sp.Schur, x).p, p)
        E.check('symbols are sympy symbols', s.symbol().is_Symbol)
        for x in (s, t, s.symbol()) + ((list(p),) if all(bool(p[i] >= p[i + 1]) for i in range(len(p) - 1)) else ()):
            l = call(E, 'LinearCombination', sp.LinearCombination, x)
            E.check('a combination prints its class as S[...]', str(l) == txt(p), str(l))
            check_same(E, 'a combination of one class', dec(E, 'LinearCombination', l), [T(1, (0, 0, 0), list(p))])
        return
    r = vec(E, 'y', cfg['b'])
    if cfg['what'] == 'prod':
        return run_product(E, sp, p, r)
    if cfg['what'] == 'two':
        u, v = sp.Schur(list(p)), sp.Schur(list(r))
        eq = And(len(p) == len(r), Eq(list(p), list(r))) if len(p) == len(r) else False
        eq = bool(eq)
        E.outcome = eq
        E.check('classes are equal exactly when their lists are', (u == v) == eq)
        E.check('symbols are equal exactly when the lists are', (u.symbol() == v.symbol()) == eq)
        if eq:
            E.check('equal classes hash equally', hash(u) == hash(v))
        lt = bool(list(p) < list(r))
        E.check('classes are ordered as their lists', bool(u < v) == lt)
        # pairs of lists, as used by the conversions
        s = sp.Schur([list(p), list(r)])
        for form, x in (('text', str(s)), ('symbol', s.symbol())):
            t = call(E, 'Schur(%s)' % form, sp.Schur, x).p
            E.check('a pair of lists is recovered from its ' + form, len(t) == 2 and len(t[0]) == len(p) and len(t[1]) == len(r), t)
            same(E, 'a pair of lists is recovered from its ' + form, list(t[0]) + list(t[1]), p + r)
        return
    e1, e2 = COEFS[E.var('coefs', 0, len(COEFS) - 1).__index__()]
    form = E.var('form', 0, 1).__index__()
    text = '(%s)*%s+(%s)*%s' % (e1, txt(p), e2, txt(r))
    if form == 1:
        text = '%s %s  + %s * %s' % (e1, '*' + txt(p), '(' + e2 + ')', txt(r))
    A, B = build(e1, p, e2, r)
    l = call(E, 'LinearCombination', sp.LinearCombination, text)
    E.outcome = show(dec(E, 'parse', l))
    check_same(E, 'text is parsed to the combination it denotes', dec(E, 'parse', l), A + B)
    t = call(E, 'str', str, l)
    E.check('printed with S[...] and ^', 'f' not in t and 'g' not in t and '**' not in t, t)
    check_same(E, 'printing and parsing again gives the same combination', dec(E, 'reparse', sp.LinearCombination(t)), A + B)
    check_same(E, 'repr agrees', dec(E, 'reparse', sp.LinearCombination(repr(l))), A + B)
    # arithmetic
    x, y = sp.LinearCombination('(%s)*%s' % (e1, txt(p))), sp.LinearCombination('(%s)*%s' % (e2, txt(r)))
    check_same(E, 'sum', dec(E, 'sum', call(E, '+', lambda: x + y)), A + B)
    check_same(E, 'difference', dec(E, 'difference', call(E, '-', lambda: x - y)), A + scale_terms(B, -1))
    check_same(E, 'reflected difference', dec(E, 'difference', call(E, '-', lambda: y.expr - x)), B + scale_terms(A, -1))
    check_same(E, 'multiple', dec(E, 'multiple', call(E, '*', lambda: 3 * x)), scale_terms(A, 3))
    check_same(E, 'multiple', dec(E, 'multiple', call(E, '*', lambda: x * 3)), scale_terms(A, 3))
    check_same(E, 'multiple by q', dec(E, 'multiple', call(E, '*', lambda: x * mono((2, 0, 0)))), scale_terms(A, 1, (2, 0, 0)))
    check_same(E, 'sum starting from 0', dec(E, 'sum', call(E, 'sum', lambda: sum([x, y]))), A + B)
    if e1 == '1':
        sx, sy = sp.Schur(list(p)), sp.Schur(list(r))
        check_same(E, 'sum of classes', dec(E, 'sum', call(E, '+', lambda: sx + sy)), A + [T(1, (0, 0, 0), list(r))])
        check_same(E, 'class times number', dec(E, 'product', call(E, '*', lambda: sx * 2 + 3 * sy)),
                   scale_terms(A, 2) + [T(3, (0, 0, 0), list(r))])
        for d in (call(E, '-', lambda: x - 1), call(E, '-', lambda: 1 - x)):
            E.check('the difference with a number is a combination', isinstance(d, sp.LinearCombination), None)
