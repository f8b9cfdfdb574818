"""C29: Schur polynomials."""
from symex.lib import *
import re

BOUNDS = 'partitions with the listed number of parts (trailing zeros included), the listed largest part and number of variables'
ASSUMPTIONS = ['numpy turns the parts into machine integers: the engine splits over all values z3 allows there, so each path has one partition']


def configs(tier):
    q = tier == 'quick'
    out = []
    for n in range(1, (5 if q else 6) + 1):
        for a in range(0, (5 if q else 6) + 1):
            hi = {0: 0, 1: 12, 2: 8, 3: 6, 4: 5, 5: 4, 6: 3}[a] + (0 if q else 1)
            if n > 4 and 0 < a:
                hi -= 2 if a > 2 else 5
            out.append({'name': '%d parts, %d variables' % (a, n), 'a': a, 'n': n, 'hi': hi, 'weight': (hi + 1) ** a * n ** 2,
                        'bounds': 'partitions with %d parts up to %d, %d variables' % (a, hi, n)})
    for a in range(0, 4):
        out.append({'name': 'refusals %d' % a, 'a': a, 'n': None, 'hi': 4, 'weight': 1,
                    'bounds': 'any number of variables below 1; lists of %d integers that are not partitions' % a})
    return out


def ssyt(p, n, memo={}):
    """Schur polynomial as {exponents: coefficient}, by removing horizontal strips (branching rule)."""
    p = tuple(x for x in p if x)
    if len(p) > n:
        return {}
    if n == 0:
        return {(): 1}
    key = (p, n)
    if key in memo:
        return memo[key]
    out = {}

    def rec(i, mu):
        if i == len(p):
            for e, c in ssyt(mu, n - 1).items():
                k = e + (sum(p) - sum(mu),)
                out[k] = out.get(k, 0) + c
            return
        low = p[i + 1] if i + 1 < len(p) else 0
        for x in range(low, p[i] + 1):
            rec(i + 1, mu + (x,))
    rec(0, ())
    memo[key] = out
    return out


def parse(s, n):
    """The polynomial printed as text, as {exponents: coefficient}."""
    import sympy
    if re.search(r'[^0-9xX*^+ \-]', s):
        return None
    xs = sympy.symbols('x1:%d' % (n + 1))
    e = sympy.expand(sympy.sympify(s.replace('^', '**')))
    if not e.free_symbols <= set(xs):
        return None
    if e == 0:
        return {}
    return {tuple(m): int(c) for m, c in sympy.Poly(e, *xs).terms()}


def run(E, sp, cfg):
    a, n = cfg['a'], cfg['n']
    if n is None:
        n = E.var('n', -3, 4)
        p = [E.var('x%d' % i, 0, cfg['hi']) for i in range(a)]
        dec = And(*[p[i] >= p[i + 1] for i in range(a - 1)])
        E.assume(Or(n < 1, Not(dec)))
        ex = raises(E, sp.Schur(list(p)).to_polinomial_str, n.__index__())
        E.outcome = 1
        E.check('refused with ValueError', isinstance(ex, ValueError), repr(ex))
        return
    p = []
    for i in range(a):
        x = E.var('x%d' % i, 0, cfg['hi'])
        if i:
            E.assume(p[-1] >= x)
        p.append(x)
    s = sp.Schur(list(p))
    r = call(E, 'to_polinomial_str', s.to_polinomial_str, n)
    E.check('text', isinstance(r, str), repr(r))
    E.outcome = r
    conc = [x.__index__() for x in p]
    got = parse(r, n)
    E.check('the sum of x^T over all semistandard tableaux T of the shape', got == ssyt(conc, n), (conc, r[:300]))
    E.check('powers are written with ^ and variables as x1, x2, ...', '**' not in r and '_' not in r, r[:200])
    E.check('the class is unchanged', Eq(list(s.p), list(p)) if len(s.p) == len(p) else False)
    E.check('asking again gives the same text', call(E, 'again', s.to_polinomial_str, n) == r)
