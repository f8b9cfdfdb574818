"""C27: the expansion of a combination lists exactly its terms."""
from symex.lib import *
from .c22 import vec, txt

BOUNDS = 'combinations of up to three classes with lists of length up to the listed one, arbitrary non-negative entries'
ASSUMPTIONS = ['entries are non-negative integers; coefficients 1, 2, -1, -3, q, 2*q, -q, q^2, q1, 3*q1, q2, -2*q2, -q1*q2, four large ones; '
               'and four patterns of four or five terms on two classes',
               'a sum with at least one class in every term, with or without one more term that is a number (-3, -1, 0, 1, 2 or one of two large ones)']
COEFS = [(1, ()), (2, ()), (-1, ()), (-3, ()), (1, ('q',)), (2, ('q',)), (-1, ('q',)), (1, ('q', 'q')), (1, ('q1',)), (3, ('q1',)),
         (1, ('q2',)), (-2, ('q2',)), (-1, ('q1', 'q2')), (10 ** 7 + 1, ()), (-10 ** 17 - 1, ()), (123456789012, ('q',)), (1, ('q',) * 12)]
# several terms on the same class: one list of (coefficient, q-powers) per class
NUMS = [0, 1, -1, 2, -3, 10 ** 9 + 7, -10 ** 17 - 1]
MANY = [[[(1, ()), (-1, ('q',)), (2, ('q', 'q'))], [(1, ('q',)), (-1, ())]],
        [[(3, ('q',)), (-3, ('q', 'q'))], [(1, ()), (1, ('q',)), (1, ('q', 'q'))]],
        [[(1, ('q1',)), (-1, ('q2',)), (1, ('q1', 'q2')), (5, ())], [(-1, ('q1',))]],
        [[(10 ** 9, ()), (-10 ** 9, ('q',))], [(-10 ** 9, ()), (10 ** 9, ('q',)), (1, ('q',) * 10)]]]


def configs(tier):
    L = 2 if tier == 'quick' else 4
    out = []
    for a, b in ((1, 0), (1, 1), (1, 2), (2, 2)):
        out.append({'name': 'many %d,%d' % (a, b), 'many': True, 'lens': [a, b], 'weight': 4,
                    'bounds': 'four or five terms on two classes, lengths %d, %d' % (a, b)})
    for a in range(L + 1):
        out.append({'name': 'one %d' % a, 'lens': [a], 'weight': 1, 'bounds': 'one class, list of length %d' % a})
        for b in range(L + 1):
            if (a, b) != (0, 0):        # there is one class with the empty list
                out.append({'name': 'two %d,%d' % (a, b), 'lens': [a, b], 'weight': 4, 'bounds': 'two classes, lengths %d, %d' % (a, b)})
            if tier != 'quick' and 0 < a <= 2 and b <= 2:
                out.append({'name': 'three %d,%d,1' % (a, b), 'lens': [a, b, 1], 'weight': 40,
                            'bounds': 'three classes, lengths %d, %d, 1' % (a, b)})
    return out


def exps(q):
    return (q.count('q'), q.count('q1'), q.count('q2'))


def pairs(E, r):
    import sympy
    got = []
    for c, part in r:
        e = sympy.expand(to_expr(c))
        d = [0, 0, 0]
        k, rest = e.as_coeff_mul()
        for f in rest:
            b, ex = f.as_base_exp()
            E.check('coefficients are numbers times powers of q', b.is_Symbol and b.name in QN and ex.is_Integer, str(e))
            d[QN.index(b.name)] += int(ex)
        got.append(T(int(k), tuple(d), list(part)))
    return got


def run(E, sp, cfg):
    ps, ts, text = [], [], []
    for i, ln in enumerate(cfg['lens']):
        p = vec(E, 'xyz'[i], ln)
        if cfg.get('many'):
            how = E.var('how', 0, len(MANY) - 1).__index__() if i == 0 else how
            coefs = MANY[how][i]
        else:
            coefs = [COEFS[E.var('c%d' % i, 0, len(COEFS) - 1).__index__()]]
        for o in ps:        # distinct classes
            if len(o) == len(p):
                E.assume(Not(Eq(o, p)))
        ps.append(p)
        for c, qs in coefs:
            ts.append(T(c, exps(qs), p))
            text.append('(%d%s)*%s' % (c, ''.join('*' + x for x in qs), txt(p)))
    l = sp.LinearCombination('+'.join(text))
    E.outcome = 1
    for inc in (True, False):
        r = call(E, 'schur_expansion', l.schur_expansion, inc)
        want = [t for t in ts if inc or t.d == (0, 0, 0)]
        if isinstance(r, tuple) and len(r) == 2:
            E.check('a single pair only for a single term', len(want) == 1)
            r = [r]
        E.check('a list of (coefficient, partition) pairs', isinstance(r, list) and all(isinstance(x, tuple) and len(x) == 2 for x in r), str(r))
        E.check('as many pairs as terms', len(r) == len(want), str(r))
        got = pairs(E, r)
        check_same(E, 'the pairs add up to the combination', got, want)
        for x, y in zip(got, got[1:]):
            E.check('sorted by partition', bool(list(x.p) <= list(y.p)), str(r))
    # a number in the sum counts as a multiple of the class with the empty list
    num = NUMS[E.var('num', 0, len(NUMS) - 1).__index__()]
    r = call(E, 'schur_expansion', sp.LinearCombination('+'.join(text) + '+(%d)' % num).schur_expansion, True)
    alone = call(E, 'schur_expansion', sp.LinearCombination('%d' % num).schur_expansion, True)
    E.check('the expansion of a number', alone == (num, []) or alone == [(num, [])], (num, str(alone)))
    r = [r] if isinstance(r, tuple) else r
    E.check('as many pairs as terms, the number included', len(r) == len(ts) + (1 if num else 0), str(r))
    nums = [T(num, (0, 0, 0), [])] if num else []
    check_same(E, 'a number in the sum is kept with its sign', pairs(E, r), ts + nums)
    # products of classes are refused
    if len(ps) == 2:
        m = sp.LinearCombination('%s*%s' % (txt(ps[0]), txt(ps[1])))
        E.check('a product of two classes is refused', isinstance(raises(E, m.schur_expansion), ValueError))
