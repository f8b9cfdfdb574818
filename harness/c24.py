"""C24: spaces are accepted exactly when they exist, and describe themselves correctly."""
from symex.lib import *

BOUNDS = 'm and N unbounded integers (any sign)'
ASSUMPTIONS = ['description: 1 <= m, and a non-degenerate space']


def configs(tier):
    out = []
    for typ in 'ACO':
        out.append({'name': 'accept ' + typ, 'what': 'accept', 'typ': typ, 'weight': 1, 'bounds': 'all integers m, N'})
        out.append({'name': 'types ' + typ, 'what': 'types', 'typ': typ, 'weight': 1,
                    'bounds': 'non-integers (text, float, None, list) in either position, any integer in the other'})
    for typ in 'ABCD':
        out.append({'name': 'describe ' + typ, 'what': 'describe', 'typ': typ, 'weight': 1, 'bounds': 'all spaces of the type'})
    return out


def cls(sp, typ):
    return {'A': sp.Grassmannian, 'C': sp.IsotropicGrassmannian}.get(typ, sp.OrthogonalGrassmannian)


def run(E, sp, cfg):
    typ, what = cfg['typ'], cfg['what']
    if what == 'accept':
        m, N = E.var('m'), E.var('N')
        ex = raises(E, cls(sp, typ), m, N)
        if typ == 'A':
            ok = And(m >= 0, m <= N)
        elif typ == 'C':
            ok = And(m >= 0, N >= 0, N % 2 == 0, 2 * m <= N)
        else:
            ok = And(m >= 0, N >= 0, 2 * m <= N)
        E.outcome = ex is None
        E.check('accepted exactly when the space exists', Iff(ok, ex is None), repr(ex))
        E.check('refused with ValueError', ex is None or isinstance(ex, ValueError), repr(ex))
        return
    if what == 'types':
        x = E.var('x', 0)
        bad = ['3', 2.0, None, [1], 2.5][E.var('bad', 0, 4).__index__()]
        E.outcome = 1
        for args in ((bad, x), (x, bad)):
            ex = raises(E, cls(sp, typ), *args)
            E.check('refused with TypeError', isinstance(ex, TypeError), (repr(bad), repr(ex)))
        return
    m = E.var('m', 1)
    if typ == 'A':
        k = E.var('k', 0)
        N, n, dq = m + k, m + k, m + k
    else:
        k = E.var('k', 0)
        if typ == 'D':
            E.assume(m + k >= 2)
            n = m + k - 1
            N = 2 * n + 2
        else:
            n = m + k
            N = 2 * n + (1 if typ == 'B' else 0)
        dq = n + k + 1 if typ == 'C' else If(k == 0, 2 * n, n + k)
    g = call(E, 'constructor', cls(sp, typ), m, N)
    want = [typ, k, n, NAMES[typ], m, N, dq]

    def describe(label, h):
        d = call(E, label + ' get_type_data', h.get_type_data)
        E.check(label + ' type data', isinstance(d, list) and len(d) == 7 and And(*[x == y for x, y in zip(d, want)]), d)
        E.check(label + ' degree of q', call(E, 'degree_q', h.degree_q) == dq)
        s = call(E, 'str', str, h)
        import re
        f = re.fullmatch(r'Type (\w) ;  \(k,n\) = \((\d+),(\d+)\) ;  (\w+)\((\d+),(\d+)\) ;  deg\(q\) = (\d+)', s)
        E.check(label + ' description has the documented form', f is not None, s)
        v = [f.group(1), None, None, f.group(4)] + [None] * 3
        for i, j in ((1, 2), (2, 3), (4, 5), (5, 6), (6, 7)):
            v[i] = core.detok(int(f.group(j)))
        E.check(label + ' description is correct', And(*[x == y for x, y in zip(v, want)]), s)
    describe('the space:', g)
    E.outcome = [k, n, m, N]
    c = call(E, 'clone', g.clone)
    E.check('a clone is a different object of the same class', c is not g and type(c) is type(g))
    describe('the clone:', c)
