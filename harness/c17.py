"""C17: the lists of classes, generators and the point class are complete and exact."""
from symex.lib import *
from .c14 import dims

BOUNDS = 'every space with N up to the bound of the configuration; an arbitrary class nu (solver variables)'
ASSUMPTIONS = ['m >= 1 and N >= 2 (OG: N >= 3, and OG(1,2) excluded)']


def configs(tier):
    q = tier == 'quick'
    out = []
    top = {'A': 11, 'C': 14, 'B': 13, 'D': 14} if q else {'A': 14, 'C': 18, 'B': 17, 'D': 16}
    for typ in 'ABCD':
        for N in range(2, top[typ] + 1):
            if (typ in 'CD' and N % 2) or (typ == 'B' and N % 2 == 0) or (typ == 'B' and N < 3) or (typ == 'D' and N < 4):
                continue
            out.append({'name': '%s(m,%d)' % (NAMES[typ], N), 'typ': typ, 'N': N, 'weight': 2 ** N,
                        'bounds': '%s(m,%d) for every m, every class' % (NAMES[typ], N)})
    for typ, N in [('C', 16), ('B', 15), ('B', 17), ('D', 16), ('A', 12), ('A', 13)] if q else [('C', 20), ('B', 19), ('D', 18), ('A', 15)]:
        for m in range(1, (N if typ == 'A' else N // 2) + 1):
            if n_classes(typ, m, N) <= ((800 if typ == 'A' else 2000) if q else 6000):
                out.append({'name': sname(typ, m, N), 'typ': typ, 'N': N, 'm': m, 'weight': 10 * n_classes(typ, m, N),
                            'bounds': '%s: every class' % sname(typ, m, N)})
    return out


def lists(E, label, xs, sp):
    E.check(label + ' is a list of Schubert classes', isinstance(xs, list) and all(isinstance(x, sp.Schur) for x in xs), None)
    return [list(x.p) for x in xs]


def run(E, sp, cfg):
    typ, N = cfg['typ'], cfg['N']
    m = cfg.get('m') or E.var('m', 1, N if typ == 'A' else N // 2).__index__()
    rows, cols, k, n = box(typ, m, N)
    g = call(E, 'constructor', space, sp, typ, m, N)
    cl = lists(E, 'schub_classes', call(E, 'schub_classes', g.schub_classes), sp)
    E.outcome = cl
    for p in cl:
        body = p[:-1] if (typ == 'D' and k > 0 and p and p[-1] == 0) else p
        E.check('listed classes are classes of the space',
                And(len(body) <= rows, is_canonical(p, typ, k), is_kstrict(body, k) if typ != 'A' else True,
                    body[0] <= cols if body else True), p)
    nu = []
    for i in range(rows):
        x = E.var('nu%d' % i, 0, cols)
        if i:
            E.assume(nu[-1] >= x)
            if typ != 'A':
                E.assume(Or(nu[-1] > x, x <= k))
        nu.append(x)
    if typ == 'D' and k > 0:
        t1 = Count(Eq(pad(p, rows), nu) for p in cl if not (p and p[-1] == 0))
        t2 = Count(Eq(pad(p[:-1], rows), nu) for p in cl if p and p[-1] == 0)
        E.check('every class is listed exactly once', t1 == 1)
        E.check('type 2 classes are listed exactly once', t2 == If(Or(*[x == k for x in nu]), 1, 0))
    else:
        E.check('every class is listed exactly once', Count(Eq(pad(p, rows), nu) for p in cl) == 1)
    gens = lists(E, 'generators', call(E, 'generators', g.generators), sp)
    want = [[i] for i in range(1, cols + 1)] + ([[k, 0]] if typ == 'D' and k > 0 else [])
    E.check('generators are the special classes, each once', sorted(gens) == sorted(want), gens)
    pt = call(E, 'point_class', g.point_class)
    E.check('the point class is a Schubert class', isinstance(pt, sp.Schur), repr(pt))
    E.check('the point class is in the list', list(pt.p) in cl, repr(pt))
    E.check('every class other than the point class has smaller codimension',
            Or(Sum(nu) < sum(pt.p), Eq(nu, pad(list(pt.p), rows))), repr(pt))
    E.check('the point class has the dimension of the space as codimension', sum(pt.p) == dims(typ, rows, k), repr(pt))
