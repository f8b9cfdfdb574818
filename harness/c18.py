"""C18: types of classes and the type swap symmetry of even orthogonal Grassmannians."""
from symex.lib import *
from .c14 import params, gen_class, is_class
from .c15 import one

BOUNDS = ('labels: types A, B, C with k, n, parts unbounded and the rows as listed, type D with rows and k as listed; '
          'symmetry of the products: the spaces listed, every class, every special class / pair of classes')
ASSUMPTIONS = ['inputs are Schubert classes of the space']


def configs(tier):
    q = tier == 'quick'
    out = []
    for m in range(1, (6 if q else 8)):
        for k in range(0, (6 if q else 8)):
            if m + k < 2:
                continue
            out.append({'name': 'labels D rows=%d k=%d' % (m, k), 'typ': 'D', 'rows': m, 'k': k, 'what': 'label',
                        'weight': 3 ** m, 'bounds': 'type D, %d rows, k=%d' % (m, k)})
        for typ in 'ABC':
            out.append({'name': 'labels %s rows=%d' % (typ, m), 'typ': typ, 'rows': m, 'k': None, 'what': 'label',
                        'weight': 3, 'bounds': 'type %s, %d rows, k, n, parts unbounded' % (typ, m)})
    for typ, m, N in spaces_upto(60 if q else 120, 'D', 12 if q else 14):
        out.append({'name': 'pieri symmetry ' + sname(typ, m, N), 'typ': typ, 'm': m, 'N': N, 'what': 'pieri',
                    'weight': 5 * n_classes(typ, m, N), 'bounds': '%s: every class and special class' % sname(typ, m, N)})
    for typ, m, N in spaces_upto(32 if q else 80, 'D', 10 if q else 12):
        out.append({'name': 'product symmetry ' + sname(typ, m, N), 'typ': typ, 'm': m, 'N': N, 'what': 'mult',
                    'weight': n_classes(typ, m, N) ** 2, 'bounds': '%s: every pair of classes' % sname(typ, m, N)})
    return out


def swapped(lam, k, has):
    """The class of the other type (has: whether k occurs)."""
    if not has:
        return list(lam)
    return list(lam[:-1]) if lam[-1] == 0 else list(lam) + [0]


def swap_terms(ts, k):
    out = []
    for t in ts:
        body = t.p[:-1] if (len(t.p) and (t.p[-1] == 0)) else t.p
        has = bool(Or(*[x == k for x in body])) if (k > 0 and len(body)) else False
        d = t.d
        if k == 1:
            d = (d[0], d[2], d[1])
        out.append(T(t.c, d, swapped(t.p, k, has)))
    return out


def run(E, sp, cfg):
    typ = cfg['typ']
    if cfg['what'] == 'label':
        rows = cfg['rows']
        k = E.var('k', 1 if typ == 'A' else 0) if cfg['k'] is None else cfg['k']
        m, N, cols = params(typ, rows, k)
        g = call(E, 'constructor', space, sp, typ, m, N)
        lam = gen_class(E, typ, rows, k, cols)
        same = [T(1, (0, 0, 0), list(lam))]
        E.outcome = list(lam)
        if typ != 'D':
            E.check('only even orthogonal Grassmannians have types', raises(E, g.schub_type, list(lam)) is not None)
            check_same(E, 'type_swap changes nothing', terms(E, 'type_swap', call(E, 'type_swap', g.type_swap, list(lam), k)), same)
            check_same(E, 'miami_swap changes nothing', terms(E, 'miami_swap', call(E, 'miami_swap', g.miami_swap, list(lam))), same)
            return
        two = len(lam) > 0 and bool(lam[-1] == 0)
        body = lam[:-1] if two else lam
        has = bool(Or(*[x == k for x in body])) if (k > 0 and body) else False
        ty = 2 if two else (1 if has else 0)
        if k > 0:
            E.check('schub_type of a list', call(E, 'schub_type', g.schub_type, list(lam)) == ty)
            E.check('schub_type of a class', call(E, 'schub_type', g.schub_type, sp.Schur(list(lam))) == ty)
        sw = [T(1, (0, 0, 0), swapped(lam, k, has))]
        for a in (list(lam), sp.Schur(list(lam)).symbol(), sp.Schur(list(lam))):
            r = terms(E, 'type_swap', call(E, 'type_swap', g.type_swap, a, k))
            check_same(E, 'type_swap exchanges types 1 and 2 and fixes type 0', r, sw)
        b = terms(E, 'type_swap', call(E, 'type_swap', g.type_swap, sp.Schur(swapped(lam, k, has)).symbol(), k))
        check_same(E, 'type_swap twice is the identity', b, same)
        odd = bool(Count(x > k for x in body) % 2 == 1) if body else False
        r = terms(E, 'miami_swap', call(E, 'miami_swap', g.miami_swap, list(lam)))
        check_same(E, 'miami_swap swaps exactly the typed classes with an odd number of parts above k', r, sw if (has and odd) else same)
        return
    m, N = cfg['m'], cfg['N']
    rows, cols, k, n = box(typ, m, N)
    g = call(E, 'constructor', space, sp, typ, m, N)
    lam, sl = class_input(E, typ, m, N, 'l')

    def sw(c):
        body = c[:-1] if (len(c) and k > 0 and (c[-1] == 0)) else c
        return swapped(c, k, bool(Or(*[x == k for x in body])) if (k > 0 and len(body)) else False)
    if cfg['what'] == 'pieri':
        p, special = special_input(E, typ, m, N, 'p')
        p2 = p
        if k > 0:
            if p == k:
                p2 = -k
            elif p == -k:
                p2 = k
        for op in ('pieri', 'qpieri'):
            f = getattr(g, op)
            a = terms(E, op, call(E, op, f, p, sp.Schur(list(lam))))
            b = terms(E, op, call(E, op, f, p2, sp.Schur(sw(lam))))
            check_same(E, op + ' commutes with exchanging the types', swap_terms(a, k), b)
        E.outcome = show(a)
        return
    mu, sm = class_input(E, typ, m, N, 'm')
    E.assume(sl <= sm)
    for op in ('mult', 'qmult'):
        f = getattr(g, op)
        a = terms(E, op, call(E, op, f, list(lam), list(mu)))
        b = terms(E, op, call(E, op, f, sw(lam), sw(mu)))
        check_same(E, op + ' commutes with exchanging the types', swap_terms(a, k), b)
    E.outcome = show(a)
