"""C35: Schur polynomials multiply as the Schubert classes do."""
from symex.lib import *
from .c29 import parse

BOUNDS = 'n variables and the largest parts of the two partitions as listed per configuration, every pair of partitions with at most n parts'
ASSUMPTIONS = ['the Grassmannian Gr(n, N) is large enough for no term to be cut off (N = n + a + b for largest parts a, b)']


def configs(tier):
    q = tier == 'quick'
    out = []
    for n, a, b in [(1, 6, 6), (2, 5, 4), (3, 4, 3), (4, 2, 2), (5, 1, 1)] if q else [(1, 9, 9), (2, 7, 6), (3, 5, 4), (4, 3, 2), (5, 2, 1), (6, 1, 1)]:
        for f in range(a + 1):
            out.append({'name': '%d variables, parts %d and %d' % (n, f, b), 'n': n, 'a': f, 'b': b, 'weight': (f + 1) * n ** 3,
                        'bounds': '%d variables; partitions with first part %d, and with parts up to %d' % (n, f, b)})
    return out


def part(E, name, n, hi, first=None):
    p = []
    for i in range(n):
        x = E.var('%s%d' % (name, i), 0, hi)
        E.assume(x == first if (i == 0 and first is not None) else (p[-1] >= x if i else True))
        p.append(x)
    return clip(E, p)


def poly(E, sp, p, n, memo):
    key = tuple(x.__index__() for x in p)
    if key not in memo:
        memo[key] = parse(call(E, 'to_polinomial_str', sp.Schur(list(key)).to_polinomial_str, n), n)
        E.check('a polynomial', memo[key] is not None, key)
    return memo[key]


def run(E, sp, cfg):
    n, a, b = cfg['n'], cfg['a'], cfg['b']
    lam, mu = part(E, 'l', n, a, a), part(E, 'm', n, b)
    E.assume(Sum(mu) >= 0)
    g = call(E, 'Grassmannian', sp.Grassmannian, n, n + a + b)
    r = terms(E, 'mult', call(E, 'mult', g.mult, list(lam), list(mu)))
    memo = {}
    pl, pm = poly(E, sp, lam, n, memo), poly(E, sp, mu, n, memo)
    got, want = {}, {}
    for e1, c1 in pl.items():
        for e2, c2 in pm.items():
            e = tuple(x + y for x, y in zip(e1, e2))
            got[e] = got.get(e, 0) + c1 * c2
    for t in r:
        c = t.c.__index__()
        for e, x in poly(E, sp, t.p, n, memo).items():
            want[e] = want.get(e, 0) + c * x
    clean = lambda d: {e: c for e, c in d.items() if c}
    E.outcome = show(r)
    E.check('the product of the Schur polynomials is the polynomial of the product', clean(got) == clean(want), (show(r),))
