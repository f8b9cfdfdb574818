"""C10: products are graded with non-negative integer coefficients."""
from .ring import *

BOUNDS = 'the spaces listed per configuration: every pair of classes; on the larger spaces every special class times every class'
ASSUMPTIONS = ['inputs are Schubert classes of the space']


NARROW = [('B', 1, 11), ('B', 1, 13), ('C', 1, 12), ('D', 1, 12), ('B', 2, 11), ('B', 2, 13), ('C', 2, 12), ('D', 2, 12), ('A', 2, 9), ('A', 7, 9)]


def configs(tier):
    return ring_configs(32 if tier == 'quick' else 70, 10) + special_configs((LARGE if tier == 'quick' else LARGE + LARGER) + NARROW)


def run(E, sp, cfg):
    typ, m, N = cfg['typ'], cfg['m'], cfg['N']
    g = call(E, 'constructor', space, sp, typ, m, N)
    dq = deg_q(typ, m, N)
    E.check('degree of q', And(call(E, 'degree_q', g.degree_q) == dq))
    lam, sl = first_class(E, cfg)
    mu, sm = class_input(E, typ, m, N, 'm')
    # dq of q1 and q2 are each half of what q would be; degree_q gives deg q1 = deg q2 for k = 1
    for op, quantum in (('mult', False), ('qmult', True)):
        r = call(E, op, getattr(g, op), list(lam), list(mu))
        ts = terms(E, op, r)
        check_terms_valid(E, op + ': terms are classes of the space', ts, typ, m, N, quantum)
        for t in ts:
            E.check(op + ': coefficients are non-negative', coef_at(ts, t.p, t.d, exact=True) >= 0, t)
            E.check(op + ': homogeneous', degree(t, dq) == sl + sm, t)
    E.outcome = show(ts)
