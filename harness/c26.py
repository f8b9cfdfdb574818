"""C26: partitions are validated, and their basic operations are right."""
from symex.lib import *

BOUNDS = 'lists of the listed lengths with arbitrary integer entries; rectangles with arbitrary integer sides'
ASSUMPTIONS = []


def configs(tier):
    q = tier == 'quick'
    out = []
    for a in range(0, (5 if q else 8) + 1):
        out.append({'name': 'validity len=%d' % a, 'what': 'valid', 'a': a, 'weight': 1, 'bounds': 'lists of %d integers' % a})
        out.append({'name': 'fits len=%d' % a, 'what': 'fits', 'a': a, 'weight': 1, 'bounds': 'partitions with %d parts, all rectangles' % a})
        out.append({'name': 'padding len=%d' % a, 'what': 'pad', 'a': a, 'weight': 1, 'bounds': 'lists of %d integers' % a})
    for a in range(0, (5 if q else 7) + 1):
        hi = {0: 0, 1: 40, 2: 20, 3: 12, 4: 8, 5: 6, 6: 6, 7: 5}[a] + (0 if q or a > 5 else 3)
        out.append({'name': 'conjugate len=%d' % a, 'what': 'conj', 'a': a, 'weight': 2 ** a, 'hi': hi,
                    'bounds': 'partitions with %d parts up to %d' % (a, hi)})
    return out


def run(E, sp, cfg):
    a, what = cfg['a'], cfg['what']
    if what == 'conj':
        import importlib
        f = importlib.import_module('schubertpy.qcalc').part_conj
        p = []
        for i in range(a):
            x = E.var('x%d' % i, 0, cfg['hi'])
            if i:
                E.assume(p[-1] >= x)
            p.append(x)
        r = call(E, 'conjugate', f, list(p))
        E.outcome = list(r)
        E.check('the conjugate partition', And(len(r) == (p[0] if p else 0), *[y == Count(x > i for x in p) for i, y in enumerate(r)]), r)
        b = call(E, 'conjugate', f, list(r))
        E.check('conjugating twice gives the partition', And(len(b) <= len(p), Eq(pad(b, len(p)), p)), b)
        return
    p = [E.var('x%d' % i, 0 if what == 'fits' else None) for i in range(a)]
    if what == 'valid':
        ok = And(*([x >= 0 for x in p] + [p[i] >= p[i + 1] for i in range(a - 1)]))
        E.outcome = 1
        for label, f in (('Partition', sp.Partition), ('LinearCombination', sp.LinearCombination)):
            ex = raises(E, f, list(p))
            E.check(label + ' accepts exactly the weakly decreasing lists of non-negative integers', Iff(ok, ex is None), repr(ex))
            E.check(label + ' refuses with ValueError', ex is None or isinstance(ex, ValueError), repr(ex))
            for bad in ('1', 1.5, None):
                ex = raises(E, f, list(p) + [bad])
                E.check(label + ' refuses entries that are not integers', isinstance(ex, ValueError), repr(ex))
        if ok:
            E.check('the partition is kept', Eq(list(sp.Partition(list(p)).partition), p))
        return
    if what == 'pad':
        last = p[-1] == 0 if p else False
        s = sp.Schur(list(p))
        E.outcome = 1
        E.check('zero padding of a class', Iff(last, call(E, 'has_part_zero_padding', s.has_part_zero_padding)))
        if all(bool(x >= 0) for x in p):
            for c in ('', '2*', 'q*'):
                l = sp.LinearCombination(c + 'S[' + ','.join(str(x) for x in p) + ']+S[3,1]')
                E.check('zero padding of a combination', Iff(last, call(E, 'has_part_zero_padding', l.has_part_zero_padding)))
        return
    for i in range(a - 1):
        E.assume(p[i] >= p[i + 1])
    if a:
        E.assume(p[-1] >= 1)
    r, c = E.var('nrow'), E.var('ncol')
    P = sp.Partition(list(p))
    ex = raises(E, P.is_in_range, r, c)
    if Or(r < 0, c < 0):
        E.outcome = 'refused'
        E.check('negative rectangles are refused', isinstance(ex, ValueError), repr(ex))
        return
    E.check('rectangles are accepted', ex is None, repr(ex))
    got = P.is_in_range(r, c)
    E.outcome = bool(got)
    E.check('a partition fits exactly when it has at most that many rows and columns',
            Iff(And(a <= r, p[0] <= c if p else True), got))
