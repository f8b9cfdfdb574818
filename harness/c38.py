"""C38: polynomials in arbitrary classes are evaluated as products."""
from .ring import *

BOUNDS = 'the spaces listed per configuration: every pair of classes, in the polynomials a*b, a^2 - b, (a + b)*b, a*b*a, a^3, a*b + a + 2*b, 2*a*b - q*b + 3*S[] of those two'
ASSUMPTIONS = ['inputs are Schubert classes of the space; q stands for q1 on the spaces with two quantum parameters']


def configs(tier):
    q = tier == 'quick'
    out = []
    for c in ring_configs(13 if q else 28, 10, split=5, tag='poly '):
        out.append(dict(c, what='poly', weight=c['weight'] * 4))
    for c in special_configs([('A', 3, 6), ('C', 3, 6), ('B', 3, 7), ('D', 3, 8), ('D', 4, 8)] if q else LARGE + [('A', 3, 6), ('D', 4, 8)], tag='poly '):
        out.append(dict(c, what='poly'))
    return out


def run(E, sp, cfg):
    import sympy
    typ, m, N = cfg['typ'], cfg['m'], cfg['N']
    g = call(E, 'constructor', space, sp, typ, m, N)
    lam, sl = first_class(E, cfg)
    mu, sm = class_input(E, typ, m, N, 'm')
    a, b, u = sp.Schur(list(lam)), sp.Schur(list(mu)), sp.Schur([])
    A, B, U = a.symbol(), b.symbol(), u.symbol()
    d1 = (0, 1, 0) if typ == 'D' and m + 1 == N // 2 else (1, 0, 0)
    q = mono(d1)
    LC = sp.LinearCombination
    E.outcome = 1
    for mult, toS, giam, act in (('mult', 'toS', 'giambelli', 'act'), ('qmult', 'qtoS', 'qgiambelli', 'qact')):
        M, S, G = (getattr(g, x) for x in (mult, toS, giam))
        tr = lambda x: terms(E, toS, x)
        ab = call(E, mult, M, list(lam), list(mu))
        tab = tr(ab)

        def value(label, e, want):
            check_same(E, '%s of %s' % (toS, label), tr(call(E, toS, S, e)), want)
        value('a product', a * b, tab)
        value('a product given as text', '%s*%s' % (a, b), tab)
        bb = call(E, mult, M, list(mu), list(mu))
        aa = call(E, mult, M, list(lam), list(lam))
        value('a square and a class', '%s^2 - %s' % (a, b), tr(aa) + [T(-1, (0, 0, 0), list(mu))])
        value('a product with a sum', LC((A + B) * B), tab + tr(bb))
        aba = tr(call(E, mult, M, ab, list(lam)))
        value('three factors', LC(A * B) * LC(A), aba)
        value('quantum coefficients and the unit', 2 * A * B - q * B + 3 * U,
              scale_terms(tab, 2) + [T(-1, d1, list(mu)), T(3, (0, 0, 0), [])])
        # as many terms as classes: a sum that is nearly linear
        value('a product and its factors', '%s*%s + %s + 2*%s' % (a, b, a, b), tab + [T(1, (0, 0, 0), list(lam)), T(2, (0, 0, 0), list(mu))])
        value('a number', 5 * U, [T(5, (0, 0, 0), [])])
        if not cfg.get('special'):
            value('a cube', A ** 3, tr(call(E, mult, M, aa, list(lam))))
        # the first factor of a product may be a polynomial
        check_same(E, mult + ' by a product', tr(call(E, mult, M, A * B, list(lam))), aba)
        check_same(E, mult + ' by a product and a number', tr(call(E, mult, M, '%s*%s - 2' % (a, b), a)),
                   aba + [T(-2, (0, 0, 0), list(lam))])
        # Giambelli polynomials multiply
        ga, gb = call(E, giam, G, A).expr, call(E, giam, G, list(mu)).expr
        got = call(E, giam, G, A * B - 3 * A + q).expr
        E.check(giam + ' of a polynomial is the polynomial of the Giambelli polynomials',
                sympy.expand(got - (ga * gb - 3 * ga + q)) == 0, str(got)[:200])
