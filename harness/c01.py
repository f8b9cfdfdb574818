"""C01: classical Pieri rule, ordinary Grassmannians."""
from symex.lib import *

BOUNDS = ('m rows and p as listed per configuration; k (hence n = m + k) and all parts of the partition '
          'are unbounded integers in the symbolic runs; larger spaces with k fixed as listed')
ASSUMPTIONS = ['the partition fits the m x k rectangle and 1 <= p <= k',
               'coefficients are compared at an arbitrary partition nu of the rectangle (a solver variable)']

BOX = [(5, 4), (6, 4), (7, 3)]


def configs(tier):
    out = []
    for m, pmax in ([(1, 7), (2, 7), (3, 5), (4, 4), (5, 2), (6, 1)] if tier == 'quick' else
                    [(1, 10), (2, 10), (3, 8), (4, 6), (5, 4), (6, 3), (7, 2), (8, 2)]):
        for p in range(1, pmax + 1):
            for ln in range(0, m + 1):
                out.append({'name': 'Gr(%d,n) p=%d len=%d' % (m, p, ln), 'm': m, 'p': p, 'len': ln, 'weight': p * ln,
                            'bounds': 'm=%d, p=%d, length of the partition %d; k, n and the parts unbounded' % (m, p, ln)})
    # larger spaces, k fixed: every class and every p
    for m, k in (BOX if tier == 'quick' else BOX + [(6, 5), (7, 4), (5, 6), (8, 3)]):
        for p in range(1, k + 1):
            for ln in range(0, m + 1):
                out.append({'name': 'Gr(%d,%d) p=%d len=%d' % (m, m + k, p, ln), 'm': m, 'p': p, 'len': ln, 'k': k, 'weight': p * ln,
                            'bounds': 'Gr(%d,%d), p=%d, length of the partition %d' % (m, m + k, p, ln)})
    return out


def run(E, sp, cfg):
    m, p, ln = cfg['m'], cfg['p'], cfg['len']
    k = cfg['k'] if 'k' in cfg else E.var('k', p)
    lam = []
    for i in range(ln):
        x = E.var('l%d' % i, 1)
        E.assume(x <= (lam[-1] if lam else k))
        lam.append(x)
    g = call(E, 'Grassmannian', sp.Grassmannian, m, m + k)
    r = call(E, 'pieri', g.pieri, p, list(lam))
    ts = terms(E, 'pieri', r)
    E.outcome = show(ts)
    for t in ts:
        E.check('result terms are classes of the space',
                And(t.d == (0, 0, 0), len(t.p) <= m, is_canonical(t.p), t.p[0] <= k if t.p else True), t)
    L = pad(lam, m)
    forall_part(E, 'nu', m, k, None, lambda nu: [
        ('coefficient follows the Pieri rule', coef_at(ts, nu) == specA(L, p, nu, k), None)])
