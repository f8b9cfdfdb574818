"""C02: quantum Pieri rule, ordinary Grassmannians."""
from symex.lib import *

BOUNDS = ('m rows and p as listed per configuration; k (hence n = m + k) and all parts of the partition '
          'are unbounded integers in the symbolic runs; larger spaces with k fixed as listed')
ASSUMPTIONS = ['the partition fits the m x k rectangle, m >= 1 and 1 <= p <= k',
               'coefficients are compared at an arbitrary partition nu of the rectangle (a solver variable)']

BOX = [(4, 5), (5, 4), (6, 3)]


def configs(tier):
    out = []
    for m, pmax in ([(1, 6), (2, 6), (3, 4), (4, 3), (5, 2)] if tier == 'quick' else
                    [(1, 8), (2, 8), (3, 6), (4, 4), (5, 3), (6, 2)]):
        for p in range(1, pmax + 1):
            for ln in range(0, m + 1):
                out.append({'name': 'QH Gr(%d,n) p=%d len=%d' % (m, p, ln), 'm': m, 'p': p, 'len': ln, 'weight': p * ln,
                            'bounds': 'm=%d, p=%d, length of the partition %d; k, n and the parts unbounded' % (m, p, ln)})
    # larger spaces, k fixed: every class and every p
    for m, k in (BOX if tier == 'quick' else BOX + [(6, 5), (7, 4), (5, 6), (8, 3)]):
        for p in range(1, k + 1):
            for ln in range(0, m + 1):
                out.append({'name': 'QH Gr(%d,%d) p=%d len=%d' % (m, m + k, p, ln), 'm': m, 'p': p, 'len': ln, 'k': k, 'weight': p * ln,
                            'bounds': 'Gr(%d,%d), p=%d, length of the partition %d' % (m, m + k, p, ln)})
    return out


def run(E, sp, cfg):
    m, p, ln = cfg['m'], cfg['p'], cfg['len']
    k = cfg['k'] if 'k' in cfg else E.var('k', p)
    lam = []
    for i in range(ln):
        x = E.var('l%d' % i, 1)
        E.assume(x <= (lam[-1] if lam else k))
        lam.append(x)
    g = call(E, 'Grassmannian', sp.Grassmannian, m, m + k)
    r = call(E, 'qpieri', g.qpieri, p, list(lam))
    ts = terms(E, 'qpieri', r)
    E.outcome = show(ts)
    for t in ts:
        E.check('result terms are classes of the space times 1 or q',
                And(t.d in ((0, 0, 0), (1, 0, 0)), len(t.p) <= m, is_canonical(t.p), t.p[0] <= k if t.p else True), t)
    L = pad(lam, m)
    forall_part(E, 'nu', m, k, None, lambda nu: [
        ('classical part follows the Pieri rule', coef_at(ts, nu) == specA(L, p, nu, k), None),
        ('q part follows the quantum Pieri rule', coef_at(ts, nu, (1, 0, 0)) == specA_q(L, p, nu, k), None)])
