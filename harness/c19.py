"""C19: the rim hook product is the quantum product of an ordinary Grassmannian."""
from .ring import *

BOUNDS = 'the Grassmannians listed per configuration: every pair of classes'
ASSUMPTIONS = ['inputs are Schubert classes of the space']


def configs(tier):
    q = tier == 'quick'
    out = ring_configs(35 if q else 56, 7 if q else 10, split=10, types='A')
    for m, N, sizes in ((4, 8, (3,)), (3, 8, (3,)), (5, 8, (3,))) if q else ((4, 8, (2, 3, 4, 5, 8)), (3, 9, (3, 4, 5, 6)), (6, 9, (3, 4, 5, 6)), (4, 9, (3, 4)), (5, 10, (2,))):
        for s in sizes:
            for t in range(0, N - m + 1):
                out.append({'name': 'Gr(%d,%d) second size=%d first=%d' % (m, N, s, t), 'typ': 'A', 'm': m, 'N': N, 'first': t, 'size': s, 'may_be_empty': True,
                            'weight': 9000, 'bounds': 'Gr(%d,%d): every class with first part %d times every class of codimension %d' % (m, N, t, s)})
    for c in out:
        if c['name'].startswith('Gr(3,6)'):
            c['weight'] *= 4
    return out


def run(E, sp, cfg):
    m, N = cfg['m'], cfg['N']
    g = call(E, 'constructor', space, sp, 'A', m, N)
    lam, sl = first_class(E, cfg)
    mu, sm = class_input(E, 'A', m, N, 'm')
    if cfg.get('size'):
        E.assume(sm == cfg['size'])
    a = terms(E, 'qmult_rh', call(E, 'qmult_rh', g.qmult_rh, list(lam), list(mu)))
    b = terms(E, 'qmult', call(E, 'qmult', g.qmult, list(lam), list(mu)))
    E.outcome = show(a)
    check_same(E, 'the rim hook algorithm gives the quantum product', a, b)
    check_terms_valid(E, 'terms are classes of the space times powers of q', a, 'A', m, N, True)
    E.check('the space itself is unchanged', list(g.get_type_data()) == ['A', N - m, N, 'Gr', m, N, N])
