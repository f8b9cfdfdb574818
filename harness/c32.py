"""C32: combinations report their own structure."""
from symex.lib import *
from .c22 import vec, txt

BOUNDS = 'sums of up to three distinct classes / products / powers; lists of the listed lengths with arbitrary non-negative entries'
ASSUMPTIONS = ['entries are non-negative integers; the classes of a sum are distinct']
NUMS = [1, 2, -1, -3]


def configs(tier):
    q = tier == 'quick'
    out = []
    L = 3 if q else 4
    for a in range(L + 1):
        out.append({'name': 'one %d' % a, 'lens': [a], 'weight': 1, 'bounds': 'one class, list of length %d' % a})
        for b in range(a, L + 1):
            if (a, b) != (0, 0):
                out.append({'name': 'two %d,%d' % (a, b), 'lens': [a, b], 'weight': 5, 'bounds': 'two classes, lengths %d, %d' % (a, b)})
            if 0 < a <= 2 and b <= 2:
                out.append({'name': 'three %d,%d,1' % (a, b), 'lens': [a, b, 1], 'weight': 20,
                            'bounds': 'three classes, lengths %d, %d, 1' % (a, b)})
    out.append({'name': 'numbers', 'lens': [], 'weight': 1, 'bounds': 'numbers from -5 to 5'})
    return out


def flat(x):
    if x is None:
        return []
    if isinstance(x, list):
        return [z for y in x for z in flat(y)]
    return [x]


def operands(E, sp, label, l, ps):
    import itertools
    r = flat(call(E, label, l.list_schur_oprands))
    E.check(label + ': classes', all(isinstance(x, sp.Schur) for x in r), r)
    E.check(label + ': exactly the classes that occur', len(r) == len(ps) and Or(*[
        And(*[len(x.p) == len(p) and Eq(list(x.p), list(p)) for x, p in zip(r, s)]) for s in itertools.permutations(ps)]), (r, ps))


def shape(E, l, valid, size, op, padded=None):
    E.check('is_valid says whether it is a linear combination', call(E, 'is_valid', l.is_valid) == valid, str(l))
    E.check('len counts the operands', call(E, 'len', len, l) == size, (str(l), size))
    for o in '+*^':
        E.check('is_operator names the outermost operation', bool(call(E, 'is_operator', l.is_operator, o)) == (o == op), (str(l), o))
    E.check('other operators are refused', isinstance(raises(E, l.is_operator, '-'), ValueError))
    if padded is not None:
        E.check('zero padding', Iff(padded, call(E, 'has_part_zero_padding', l.has_part_zero_padding)), str(l))


def run(E, sp, cfg):
    L = sp.LinearCombination
    if not cfg['lens']:
        v = E.var('v', -5, 5).__index__()
        E.outcome = v
        for x in (v, str(v)):
            l = L(x)
            shape(E, l, True, 1, None, False)
            E.check('numbers have no classes', flat(l.list_schur_oprands()) == [])
            E.check('numbers print as numbers', str(l) == str(v))
        return
    ps = []
    for i, ln in enumerate(cfg['lens']):
        p = vec(E, 'xyz'[i], ln)
        for o in ps:
            if len(o) == len(p):
                E.assume(Not(Eq(o, p)))
        ps.append(p)
    pad_ = Or(*[p[-1] == 0 for p in ps if p])
    n = len(ps)
    cs = [NUMS[E.var('c%d' % i, 0, len(NUMS) - 1).__index__()] for i in range(n)]
    E.outcome = cs
    terms_ = ['(%d)*%s' % (c, txt(p)) for c, p in zip(cs, ps)]
    l = L('+'.join(terms_))
    if n == 1:
        shape(E, l, True, 1 if cs[0] == 1 else 2, None if cs[0] == 1 else '*', pad_)
    else:
        shape(E, l, True, n, '+', pad_)
    operands(E, sp, 'operands of a sum', l, ps)
    # with a power of q, a square, a product: no longer a combination with number coefficients
    p = ps[0]
    k2 = {1: 2, 2: 3, -1: -1, -3: -2}[cs[0]]
    sq = L('%s^2' % txt(p))
    shape(E, sq, False, 1, '^', Or(*[x == 0 for x in p[-1:]]))
    operands(E, sp, 'operands of a square', sq, [p])
    sc = L('%d*%s^2' % (k2, txt(p)))
    shape(E, sc, False, 2, '*', Or(*[x == 0 for x in p[-1:]]))
    operands(E, sp, 'operands of a multiple of a square', sc, [p])
    shape(E, L('%d*%s^2+%s' % (k2, txt(p), txt(p))), False, 2, '+', Or(*[x == 0 for x in p[-1:]]))
    x = L('%s^2+%s' % (txt(p), '5'))
    shape(E, x, False, 2, '+', Or(*[x == 0 for x in p[-1:]]))
    if n > 1:
        y = L('%s^2+2*%s+%s^3' % (txt(ps[0]), txt(ps[0]), txt(ps[1])))
        operands(E, sp, 'operands of a sum with powers', y, [ps[0], ps[0], ps[1]])
        shape(E, y, False, 3, '+')
        m = L('*'.join(txt(p) for p in ps))
        shape(E, m, False, n, '*', pad_)
        operands(E, sp, 'operands of a product', m, ps)
        m2 = L('3*' + '*'.join(txt(p) for p in ps) + '+' + txt(ps[0]))
        shape(E, m2, False, 2, '+', pad_)
        operands(E, sp, 'operands of a sum with a product', m2, ps + [ps[0]])
