"""C14: dualize is Poincare duality."""
from .ring import *

BOUNDS = ('involution and codimension: types A, B, C with the number of rows as listed and k, n and the parts unbounded; '
          'type D with rows and k as listed.  Pairing: the spaces listed, every pair of classes')
ASSUMPTIONS = ['inputs are Schubert classes of the space']


def configs(tier):
    q = tier == 'quick'
    out = []
    for typ in 'ABC':
        for m in range(1, (5 if q else 6) + 1):
            out.append({'name': 'dual %s rows=%d' % (typ, m), 'typ': typ, 'rows': m, 'k': None, 'what': 'inv', 'weight': 10 ** m,
                        'conc_width': 3, 'bounds': 'type %s, %d rows, k, n and parts unbounded' % (typ, m)})
    for m in range(1, (5 if q else 6) + 1):
        for k in range(0, (6 if q else 8)):
            if (m + k) < 2:
                continue
            out.append({'name': 'dual D rows=%d k=%d' % (m, k), 'typ': 'D', 'rows': m, 'k': k, 'what': 'inv', 'weight': 4 ** m,
                        'bounds': 'type D, %d rows, k=%d' % (m, k)})
    for c in ring_configs(32 if q else 90, 11 if q else 12, tag='pairing '):
        out.append(dict(c, what='pair'))
    return out


def dims(typ, rows, k):
    if typ == 'A':
        return rows * k
    if typ == 'D':
        return rows * (rows + 4 * k - 1) // 2
    return (rows * (rows + 1)) // 2 + 2 * rows * k


def params(typ, rows, k):
    """(m, N, cols)"""
    if typ == 'A':
        return rows, rows + k, k
    n = rows + k
    if typ == 'C':
        return rows, 2 * n, n + k
    if typ == 'B':
        return rows, 2 * n + 1, n + k
    return rows, 2 * n, n - 1 + k


def gen_class(E, typ, rows, k, cols):
    lam = []
    for i in range(rows):
        x = E.var('l%d' % i, 0)
        E.assume(x <= (lam[-1] if i else cols))
        if i and typ != 'A':
            E.assume(Or(lam[-1] > x, x <= k))
        lam.append(x)
    lam = clip(E, lam)
    if typ == 'D' and k > 0 and lam:
        t2 = E.var('t2', 0, 1)
        if Or(*[x == k for x in lam]):
            if t2 == 1:
                lam = lam + [0]
        else:
            E.assume(t2 == 0)
    return lam


def is_class(p, typ, rows, cols, k):
    body = p
    if typ == 'D' and len(p) and (k > 0) and (p[-1] == 0):
        body = p[:-1]
    return And(len(body) <= rows, is_canonical(p, typ, k), is_kstrict(body, k) if typ != 'A' else True,
               body[0] <= cols if body else True)


def run(E, sp, cfg):
    typ = cfg['typ']
    if cfg['what'] == 'inv':
        rows = cfg['rows']
        k = E.var('k', 1 if (typ == 'A' or (typ != 'D' and rows == 0)) else 0) if cfg['k'] is None else cfg['k']
        m, N, cols = params(typ, rows, k)
        lam = gen_class(E, typ, rows, k, cols)
        g = call(E, 'constructor', space, sp, typ, m, N)
        d = terms(E, 'dualize', call(E, 'dualize', g.dualize, sp.Schur(list(lam))))
        E.outcome = show(d)
        E.check('the dual is one class with coefficient 1', And(len(d) == 1, d[0].c == 1, d[0].d == (0, 0, 0)) if d else False)
        dl = d[0].p
        E.check('the dual is a class of the space', is_class(dl, typ, rows, cols, k), dl)
        E.check('complementary codimension', Sum(dl) == dims(typ, rows, k) - Sum(lam), dl)
        b = terms(E, 'dualize', call(E, 'dualize', g.dualize, sp.Schur(list(dl))))
        check_same(E, 'the dual of the dual is the class', b, [T(1, (0, 0, 0), list(lam))])
        return
    m, N = cfg['m'], cfg['N']
    g = call(E, 'constructor', space, sp, typ, m, N)
    lam, sl = first_class(E, cfg)
    mu, sm = class_input(E, typ, m, N, 'm')
    rows, cols, k, n = box(typ, m, N)
    E.assume(sl + sm == dims(typ, rows, k))
    pt = call(E, 'point_class', g.point_class)
    d = terms(E, 'dualize', call(E, 'dualize', g.dualize, sp.Schur(list(lam))))
    r = terms(E, 'mult', call(E, 'mult', g.mult, list(lam), list(mu)))
    E.outcome = show(r)
    isdual = Eq(list(d[0].p), list(mu)) if len(d) == 1 else False
    if isdual:
        check_same(E, 'a class times its dual is the point class', r, [T(1, (0, 0, 0), list(pt.p))])
    else:
        check_same(E, 'other products of complementary codimension vanish', r, [])
