"""C36: requests without a meaning are refused."""
from .ring import *

BOUNDS = 'the spaces listed per configuration: every class with at least two rows as factor, every class acted on; ' \
         'skew heights: every pair of lists of the listed lengths (unbounded entries)'
ASSUMPTIONS = ['"refused" means that an exception is raised; classes acted on are Schubert classes of the space',
               'skew heights: the smaller partition is written without rows of length zero']

JUNK = [None, {}, (1,), set(), b'S[1]', object, [1, 2], ['1'], [-1], [1, -1], [1, None]]
TEXT = ['S[1', '5', 'S5', 'S(1,2)', '{1:2}', 'S[1.5]', "S['a']", '', 'S']


def configs(tier):
    q = tier == 'quick'
    out = []
    for c in ring_configs(16 if q else 40, 8 if q else 10, tag='special '):
        out.append(dict(c, what='special'))
    for c in ring_configs(10 if q else 24, 8 if q else 10, tag='types ', types='ABC', split=99):
        out.append(dict(c, what='types'))
    L = 4 if q else 6
    for a in range(L):
        for b in range(L + 1):
            out.append({'name': 'skew %d in %d' % (a, b), 'what': 'skew', 'a': a, 'b': b, 'weight': 2 ** (a + b),
                        'bounds': 'lists of lengths %d and %d, unbounded entries' % (a, b)})
    for a in range(1, 4):
        out.append({'name': 'operands len=%d' % a, 'what': 'ops', 'a': a, 'weight': 5, 'bounds': 'classes with lists of length %d, unbounded entries' % a})
    return out


def parts(E, name, n, lo):
    p = []
    for i in range(n):
        x = E.var('%s%d' % (name, i), lo)
        if i:
            E.assume(p[-1] >= x)
        p.append(x)
    return p


def refused(E, what, f, *a):
    ex = raises(E, f, *a)
    E.check(what + ' is refused', ex is not None, [str(x) for x in a])


def run(E, sp, cfg):
    import importlib
    what = cfg['what']
    E.outcome = 1
    if what == 'skew':
        f = importlib.import_module('schubertpy.partition').skew_partition_height
        lam, mu = parts(E, 'l', cfg['a'], 1), parts(E, 'm', cfg['b'], 0)
        inside = And(len(lam) <= len(mu), *[x <= y for x, y in zip(lam, mu)])
        if inside:
            h = call(E, 'skew_partition_height', f, list(lam), list(mu))
            E.check('the height is the number of rows with a box', h == Count(x > y for x, y in zip(mu, pad(lam, len(mu)))), h)
        else:
            ex = raises(E, f, list(lam), list(mu))
            E.check('the height of a shape that is not contained is refused', isinstance(ex, ValueError), repr(ex))
        return
    if what == 'ops':
        p = parts(E, 'l', cfg['a'], 1)
        s = sp.Schur(list(p))
        l = sp.LinearCombination(list(p))
        for x in (l, s):
            before = str(x)
            for name in ('__add__', '__radd__', '__mul__', '__rmul__', '__pow__', '__sub__', '__rsub__'):
                f = getattr(x, name, None)
                if f is None:
                    continue
                for y in (None, 'S[1]', {}, (1,), [1]):
                    refused(E, '%s with an operand that is no number, class or combination' % name, f, y)
            E.check('nothing is changed by refused operations', str(x) == before, str(x))
        for j in JUNK:
            refused(E, 'a combination made from this', sp.LinearCombination, j)
        for j in JUNK[:6]:
            if not isinstance(j, (list, tuple)):
                refused(E, 'a class made from this', sp.Schur, j)
        for j in TEXT:
            refused(E, 'a class made from this text', sp.Schur, j)
        i = E.var('i', 0, len(p) - 1).__index__()       # one part that is no number
        for j in ('1.5', "'a'", 'None', '(1,2)', '{}', 'x', '-'):
            ws = [str(x) for x in p]
            refused(E, 'a class made from text with this part', sp.Schur, 'S[%s]' % ','.join(ws[:i] + [j] + ws[i + 1:]))
            refused(E, 'a class made from text with this part added', sp.Schur, 'S[%s]' % ','.join(ws + [j]))
        return
    typ, m, N = cfg['typ'], cfg['m'], cfg['N']
    g = call(E, 'constructor', space, sp, typ, m, N)
    lam, sl = first_class(E, cfg)
    if what == 'types':
        if typ == 'A':
            for f in (g.part2pair, g.pair2part):
                for a in (list(lam), sp.Schur(list(lam)), sp.LinearCombination(list(lam)), [[1], [1]]):
                    refused(E, f.__name__ + ' in type A', f, a)
        for a in (list(lam), sp.Schur(list(lam))):
            refused(E, 'the type of a class in type ' + typ, g.schub_type, a)
        return
    body = lam[:-1] if len(lam) and (lam[-1] == 0) else lam
    E.assume(len(body) >= 2)
    mu, sm = class_input(E, typ, m, N, 'm')
    v = sp.Schur(list(lam)).symbol()
    w = sp.Schur([1]).symbol()
    for op in ('act', 'qact'):
        f = getattr(g, op)
        for e in (v, sp.LinearCombination(v), str(sp.Schur(list(lam))), v * w, v ** 2, w + v, 3 * v - 1):
            refused(E, op + ' of a polynomial in classes that are not special', f, e, sp.Schur(list(mu)))
