"""C20: removing n-rim hooks until the partition fits the rectangle."""
from symex.lib import *

BOUNDS = 'rectangles m x c as listed (n = m + c); partitions with at most m rows and parts up to the listed bound'
ASSUMPTIONS = ['the partition has at most m rows (written with or without a row of length zero at the end) and does not fit the rectangle yet; rim hooks of size n = m + c']


def configs(tier):
    q = tier == 'quick'
    out = []
    for m in range(1, (4 if q else 5) + 1):
        for c in range(1, (6 if q else 8) + 1 - (m > 2)):
            n = m + c
            hi = (4 * n if m <= 2 else (3 * n if m == 3 else 2 * n + c)) if q else (8 * n if m <= 2 else (5 * n if m == 3 else 3 * n))
            for ln in range(1, m + 1):
                out.append({'name': '%dx%d rows=%d' % (m, c, ln), 'm': m, 'c': c, 'hi': hi, 'len': ln, 'weight': hi ** ln,
                            'bounds': '%d x %d rectangle, %d rows, parts up to %d' % (m, c, ln, hi)})
    return out


def run(E, sp, cfg):
    m, c = cfg['m'], cfg['c']
    n = m + c
    p = []
    for i in range(cfg['len']):
        x = E.var('p%d' % i, 1, cfg['hi'])
        if i:
            E.assume(p[-1] >= x)
        else:
            E.assume(x > c)
        p.append(x)
    zeros = E.var('zeros', 0, 1)
    arg = list(p) + ([0] if zeros == 1 else [])
    r = call(E, 'remove_rim_hooks', lambda: sp.Partition(arg).remove_rim_hooks(n, (m, c)))
    E.check('three results', isinstance(r, tuple) and len(r) == 3, r)
    nu, cnt, h = r
    # first column hook lengths ("beads"): removing an n-rim hook moves one bead down by n
    b = [x + (m - 1 - i) for i, x in enumerate(pad(p, m))]
    quo, res = [x // n for x in b], [x % n for x in b]
    distinct = And(*[Not(res[i] == res[j]) for i in range(m) for j in range(i)])
    E.check('the partition passed in is unchanged', Eq(arg, p + ([0] if zeros == 1 else [])))
    gone = isinstance(nu, int) or (isinstance(nu, sp.Partition) and len(nu.partition) == 0 and bool(cnt == 0))
    E.outcome = [None if isinstance(nu, int) else list(nu.partition), cnt, 0 if gone else (h - cnt) % 2]
    if gone:
        E.check('nothing is left only if the hooks cannot be removed within the rectangle', Not(distinct), r)
        return
    E.check('hooks can be removed only when the beads end on different runners', distinct, r)
    q = list(nu.partition)
    E.check('the remaining partition fits the rectangle', And(len(q) <= m, is_canonical(q), q[0] <= c if q else True), q)
    nb = [x + (m - 1 - i) for i, x in enumerate(pad(q, m))]
    E.check('the remaining beads are the residues', And(*[Or(*[x == y for y in res]) for x in nb]), q)
    E.check('the number of hooks', cnt == Sum(quo), cnt)
    inv = Count(res[i] < res[j] for i in range(m) for j in range(i + 1, m))
    E.check('the parity of the heights', (h - cnt - inv) % 2 == 0, h)
