"""C09: multiplications by special classes commute (classical and quantum)."""
from symex.lib import *

BOUNDS = 'the spaces listed per configuration: every class, every pair of special classes (on the larger ones one of the two is fixed)'
ASSUMPTIONS = ['inputs are Schubert classes of the space']


def configs(tier):
    lim = 40 if tier == 'quick' else 120
    out = []
    for typ, m, N in spaces_upto(lim, maxN=12 if tier == 'quick' else 14):
        w = n_classes(typ, m, N)
        for f in range(box(typ, m, N)[1]+1) if w > 12 else [None]:
            out.append({'name': sname(typ, m, N) + ('' if f is None else ' first=%d' % f), 'typ': typ, 'm': m, 'N': N, 'first': f,
                    'weight': w, 'may_be_empty': True,
                    'bounds': '%s: %d classes, all pairs of special classes' % (sname(typ, m, N), w)})
    # larger spaces: one of the two special classes fixed
    q = tier == 'quick'
    for typ, m, N in [('D', 3, 10), ('D', 2, 12), ('D', 3, 12), ('B', 3, 11), ('C', 3, 10), ('A', 4, 9)] + ([] if q else [('D', 4, 12), ('B', 4, 13), ('C', 4, 12), ('A', 5, 10)]):
        rows, cols, k, n = box(typ, m, N)
        one = -k if typ == 'D' and k > 1 else cols
        for f in range(cols + 1):
            out.append({'name': '%s with %d first=%d' % (sname(typ, m, N), one, f), 'typ': typ, 'm': m, 'N': N, 'first': f, 'one': one,
                        'weight': n_classes(typ, m, N) // 4, 'may_be_empty': True,
                        'bounds': '%s: %d classes, the special class %d with every special class' % (sname(typ, m, N), n_classes(typ, m, N), one)})
    return out


def run(E, sp, cfg):
    typ, m, N = cfg['typ'], cfg['m'], cfg['N']
    g = call(E, 'constructor', space, sp, typ, m, N)
    lam, sz = class_input(E, typ, m, N, 'l')
    if cfg.get('first') is not None:
        E.assume((lam[0] if lam else 0) == cfg['first'])
    p, _ = special_input(E, typ, m, N, 'p')
    r, _ = special_input(E, typ, m, N, 'r')
    if cfg.get('one') is None:
        E.assume(p < r)
    else:
        E.assume(r == cfg['one'])
    for op in ('pieri', 'qpieri'):
        f = getattr(g, op)
        S = sp.LinearCombination(list(lam))
        x = call(E, op, lambda: f(p, f(r, S)))
        y = call(E, op, lambda: f(r, f(p, S)))
        tx, ty = terms(E, op, x), terms(E, op, y)
        check_same(E, op + ': the two orders agree', tx, ty)
    E.outcome = show(tx)
