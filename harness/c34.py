"""C34: Gromov-Witten invariants are symmetric."""
from .ring import *

BOUNDS = 'the spaces listed per configuration: every triple of classes'
ASSUMPTIONS = ['inputs are Schubert classes of the space']


def configs(tier):
    q = tier == 'quick'
    out = ring_configs(28 if q else 60, 10 if q else 12, split=6)
    return out + special_configs(LARGE[:3] if q else LARGE + LARGER)


def run(E, sp, cfg):
    typ, m, N = cfg['typ'], cfg['m'], cfg['N']
    rows, cols, k, n = box(typ, m, N)
    g = call(E, 'constructor', space, sp, typ, m, N)
    lam, sl = first_class(E, cfg)
    mu, sm = class_input(E, typ, m, N, 'm')

    def dual(c):
        d = terms(E, 'dualize', call(E, 'dualize', g.dualize, sp.Schur(list(c))))
        E.check('the dual is a class', len(d) == 1 and bool(d[0].c == 1) and d[0].d == (0, 0, 0), d)
        return list(d[0].p)
    dm = dual(mu)
    for op in ('mult', 'qmult'):
        a = terms(E, op, call(E, op, getattr(g, op), list(lam), list(mu)))
        for t in a:
            # <lam, mu, nu>_d with nu dual to t.p: the same invariant is the coefficient of q^d [mu dual] in lam * nu
            nu = dual(t.p)
            b = terms(E, op, call(E, op, getattr(g, op), list(lam), list(nu)))
            E.check(op + ': the invariant does not depend on the order of the three classes',
                    coef_at(b, dm, t.d, exact=True) == coef_at(a, t.p, t.d, exact=True), (show(a), list(nu), show(b)))
    E.outcome = show(a)
