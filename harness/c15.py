"""C15: partitions and index sets correspond one to one."""
from symex.lib import *
from .c14 import params, gen_class, is_class

BOUNDS = ('types A, B, C: the number of rows m as listed, k, n and all parts / index entries unbounded; '
          'type D: m and k as listed, parts / entries arbitrary')
ASSUMPTIONS = ['inputs are Schubert classes, respectively increasing isotropic index sets, of the space '
               '(type D with k = 0: those of the one component of maximal subspaces)']


def configs(tier):
    q = tier == 'quick'
    out = []
    for typ in 'ABC':
        for m in range(1, (6 if q else 8) + 1):
            for w in ('part', 'index'):
                out.append({'name': '%s %s rows=%d' % (w, typ, m), 'typ': typ, 'rows': m, 'k': None, 'what': w,
                            'weight': 10 ** m, 'conc_width': 3,
                            'bounds': 'type %s, %d rows, k, n and %s unbounded' % (typ, m, 'parts' if w == 'part' else 'entries')})
    for m in range(1, (6 if q else 7) + 1):
        for k in range(0, (4 if q else 6)):
            if m + k < 2 or (q and m > 4 and k > 2):
                continue
            for w in ('part', 'index'):
                out.append({'name': '%s D rows=%d k=%d' % (w, m, k), 'typ': 'D', 'rows': m, 'k': k, 'what': w,
                            'weight': 4 ** m, 'bounds': 'type D, %d rows, k=%d' % (m, k)})
    return out


def index_ok(p, typ, rows, N):
    cs = [len(p) == rows]
    if len(p) == rows:
        cs += [p[0] >= 1, p[-1] <= N] + [p[i] < p[i + 1] for i in range(rows - 1)]
        if typ != 'A':
            cs += [Not(p[i] + p[j] == N + 1) for i in range(rows) for j in range(i, rows)]
    return And(*cs)


def part_of_index(p, typ, k, n):
    """The parts determined by an index set (dimension count of the Schubert variety)."""
    la = []
    for j in range(len(p)):
        if typ == 'A':
            la.append(k + j + 1 - p[j])
            continue
        if typ == 'C':
            la.append(n + k + 1 - p[j] + Count(p[i] + p[j] > 2 * n + 1 for i in range(j)))
            continue
        half, tot = (n, 2 * n + 2) if typ == 'B' else (n + 1, 2 * n + 3)
        la.append(n + k + 2 - p[j] + If(p[j] <= half, -1, Count(p[i] + p[j] > tot for i in range(j))))
    return la


def type_of_index(p, k, n, lam):
    """0/1/2 for type D."""
    if k == 0:       # the component of maximal isotropic subspaces
        return If((n + 1 - Count(x <= n + 1 for x in p)) % 2 == 1, 2, 0)
    has = Or(*[x == k for x in lam])
    inside = Count(x <= n + 1 for x in p)
    return If(has, If((n + 1 - inside) % 2 == 1, 2, 1), 0)


def one(E, label, ts):
    E.check(label + ' is a single class with coefficient 1',
            And(len(ts) == 1, ts[0].c == 1, ts[0].d == (0, 0, 0)) if ts else False)
    return ts[0].p


def matches(E, lam, idx, typ, k, n):
    rows = len(idx)
    want = part_of_index(idx, typ, k, n)
    body, ty = list(lam), 0
    if typ == 'D' and k > 0 and len(lam):
        if lam[-1] == 0:
            body, ty = lam[:-1], 2
        elif Or(*[x == k for x in body]):
            ty = 1
    E.check('the parts and the index set describe the same Schubert variety', Eq(pad(body, rows), want), (lam, idx))
    if typ == 'D':
        E.check('the type and the index set agree', type_of_index(idx, k, n, body) == ty, (lam, idx))


def run(E, sp, cfg):
    typ, rows = cfg['typ'], cfg['rows']
    k = E.var('k', 1 if typ == 'A' else 0) if cfg['k'] is None else cfg['k']
    m, N, cols = params(typ, rows, k)
    n = rows + k if typ in 'ABC' else rows + k - 1
    g = call(E, 'constructor', space, sp, typ, m, N)
    if cfg['what'] == 'part':
        lam = gen_class(E, typ, rows, k, cols)
        p = one(E, 'part2index', terms(E, 'part2index', call(E, 'part2index', g.part2index, sp.Schur(list(lam)).symbol())))
        E.outcome = list(p)
        E.check('the index set is increasing, in range and isotropic', index_ok(p, typ, rows, N), p)
        matches(E, lam, p, typ, k, n)
        p2 = one(E, 'part2index', terms(E, 'part2index', call(E, 'part2index', g.part2index, list(lam))))
        E.check('part2index of a list agrees with the class', And(len(p2) == len(p), Eq(list(p2), list(p))), p2)
        b = one(E, 'index2part', terms(E, 'index2part', call(E, 'index2part', g.index2part, list(p))))
        E.check('index2part undoes part2index', And(len(b) == len(lam), Eq(list(b), list(lam))), b)
        return
    p = []
    for i in range(rows):
        x = E.var('p%d' % i, 1)
        E.assume(x > p[-1] if i else True)
        E.assume(x <= N)
        p.append(x)
    E.assume(index_ok(p, typ, rows, N))
    if typ == 'D' and k == 0:
        E.assume((n + 1 - Count(x <= n + 1 for x in p)) % 2 == 0)
    lam = one(E, 'index2part', terms(E, 'index2part', call(E, 'index2part', g.index2part, sp.Schur(list(p)).symbol())))
    E.outcome = list(lam)
    E.check('index2part gives a class of the space', is_class(lam, typ, rows, cols, k), lam)
    matches(E, lam, p, typ, k, n)
    b = one(E, 'part2index', terms(E, 'part2index', call(E, 'part2index', g.part2index, sp.Schur(list(lam)).symbol())))
    E.check('part2index undoes index2part', And(len(b) == len(p), Eq(list(b), list(p))), b)
