"""C13: setting q = 0 in the quantum operations gives the classical ones."""
from .ring import *

BOUNDS = 'the spaces listed per configuration: every pair of classes; on the larger spaces every special class times every class'
ASSUMPTIONS = ['inputs are Schubert classes of the space']


def configs(tier):
    return ring_configs(32 if tier == 'quick' else 70, 10) + special_configs(LARGE if tier == 'quick' else LARGE + LARGER)


def q0(ts):
    return [t for t in ts if t.d == (0, 0, 0)]


def run(E, sp, cfg):
    typ, m, N = cfg['typ'], cfg['m'], cfg['N']
    g = call(E, 'constructor', space, sp, typ, m, N)
    lam, sl = first_class(E, cfg)
    mu, sm = class_input(E, typ, m, N, 'm')
    a = terms(E, 'mult', call(E, 'mult', g.mult, list(lam), list(mu)))
    b = terms(E, 'qmult', call(E, 'qmult', g.qmult, list(lam), list(mu)))
    for t in a:
        E.check('classical products carry no q', t.d == (0, 0, 0), t)
    check_same(E, 'qmult at q = 0 is mult', q0(b), a)
    E.outcome = show(b)
    if sm == 0:
        rows, cols, k, n = box(typ, m, N)
        for p in list(range(1, cols + 1)) + ([-k] if typ == 'D' and k else []):
            x = terms(E, 'pieri', call(E, 'pieri', g.pieri, p, sp.Schur(list(lam))))
            y = terms(E, 'qpieri', call(E, 'qpieri', g.qpieri, p, sp.Schur(list(lam))))
            check_same(E, 'qpieri at q = 0 is pieri', q0(y), x)
