"""C40: every product is the product in the (quantum) cohomology ring."""
from .ring import *
from .cohom import ring

BOUNDS = 'the spaces listed per configuration: every pair of classes; on the larger spaces every pair whose second class has the given size and at least two rows'
ASSUMPTIONS = ['inputs are Schubert classes of the space']


def configs(tier):
    q = tier == 'quick'
    out = ring_configs(24 if q else 60, 12, split=6)
    big = [('A', 4, 8), ('C', 3, 10), ('B', 3, 9), ('B', 2, 11), ('D', 3, 10), ('D', 2, 10), ('C', 2, 10)]
    more = [('A', 4, 9), ('C', 4, 10), ('B', 4, 11), ('D', 4, 10), ('D', 4, 12), ('C', 4, 12), ('B', 3, 11), ('D', 2, 12), ('D', 6, 12), ('C', 6, 12), ('A', 2, 12)]
    for sizes, spaces in ((((3, 4) if q else (3, 4, 5, 6, 7, 8)), big), ((() if q else (3, 4, 5)), more)):
        for typ, m, N in spaces:
            for s in sizes:
                out.append({'name': '%s second size=%d' % (sname(typ, m, N), s), 'typ': typ, 'm': m, 'N': N, 'size': s, 'may_be_empty': True,
                            'weight': n_classes(typ, m, N) * 6, 'first': None,
                            'bounds': '%s: every class times every class of codimension %d with two or more rows' % (sname(typ, m, N), s)})
    return out


def run(E, sp, cfg):
    typ, m, N = cfg['typ'], cfg['m'], cfg['N']
    mu, sm = class_input(E, typ, m, N, 'm')
    if cfg.get('size'):
        E.assume(And(sm == cfg['size'], len(mu) > 1 and bool(mu[1] > 0)))
    lam, sl = first_class(E, cfg)
    g = call(E, 'constructor', space, sp, typ, m, N)
    R = ring(typ, m, N)
    ops = ['mult', 'qmult'] + (['qmult_rh'] if typ == 'A' else [])
    res = [terms(E, op, call(E, op, getattr(g, op), list(lam), list(mu))) for op in ops]
    cl, cm = [x.__index__() for x in lam], [x.__index__() for x in mu]
    for op, a in zip(ops, res):
        want = [T(v, d, list(c)) for (d, c), v in R.times(cl, cm, op != 'mult').items()]
        check_same(E, op + ' is the product in the %scohomology ring' % ('' if op == 'mult' else 'quantum '), a, want)
    E.outcome = show(a)
