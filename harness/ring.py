"""Shared by the product-level properties C10-C13."""
from symex.lib import *


def ring_configs(limit, maxN, split=8, tag='', types='ABCD', extra=()):
    out = []
    for typ, m, N in list(spaces_upto(limit, types, maxN)) + list(extra):
        w = n_classes(typ, m, N)
        cols = box(typ, m, N)[1]
        for f in range(cols + 1) if w > split else [None]:
            out.append({'name': tag + sname(typ, m, N) + ('' if f is None else ' first=%d' % f), 'typ': typ, 'm': m,
                        'N': N, 'first': f, 'weight': w * w, 'may_be_empty': True,
                        'bounds': '%s: all %d classes%s' % (sname(typ, m, N), w,
                                                           '' if f is None else ' (first factor with first part %d)' % f)})
    return out


def special_configs(spaces, tag=''):
    """Larger spaces: the first class special, the others arbitrary."""
    out = []
    for typ, m, N in spaces:
        w = n_classes(typ, m, N)
        for i in range(box(typ, m, N)[1] + 1):
            out.append({'name': tag + sname(typ, m, N) + ' special first=%d' % i, 'typ': typ, 'm': m, 'N': N, 'first': i, 'special': True,
                        'may_be_empty': True, 'weight': w,
                        'bounds': '%s: the special classes of degree %d times all %d classes' % (sname(typ, m, N), i, w)})
    return out


LARGE = [('D', 4, 10), ('D', 3, 10), ('B', 4, 11), ('A', 4, 8), ('C', 3, 10)]
LARGER = [('C', 4, 10), ('D', 4, 12), ('B', 3, 11), ('C', 4, 12), ('D', 2, 12), ('A', 4, 9)]


def first_class(E, cfg, name='l'):
    lam, sz = class_input(E, cfg['typ'], cfg['m'], cfg['N'], name)
    if cfg.get('special'):
        E.assume(sz == cfg['first'])
    if cfg.get('first') is not None:
        E.assume((lam[0] if lam else 0) == cfg['first'])
    return lam, sz
