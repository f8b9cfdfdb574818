"""C12: the products are commutative, associative, unital, distributive."""
from .ring import *

BOUNDS = 'the spaces listed per configuration: all pairs (commutativity, unit; on the larger spaces special class times class), all triples (class, class, special class) ' \
         'for associativity, and pairs of combinations of any two classes and S[] (coefficients from the list in the harness) for distributivity'
ASSUMPTIONS = ['inputs are Schubert classes of the space']


def configs(tier):
    q = tier == 'quick'
    out = []
    for c in ring_configs(32 if q else 70, 10, tag='comm '):
        out.append(dict(c, law='comm'))
    for c in special_configs(LARGE if q else LARGE + LARGER, tag='comm '):
        out.append(dict(c, law='comm'))
    for c in ring_configs(12 if q else 24, 8 if q else 10, tag='assoc '):
        out.append(dict(c, law='assoc'))
    for c in ring_configs(6 if q else 16, 8 if q else 10, tag='bilinear ', split=4):
        out.append(dict(c, law='bilin', weight=c['weight'] * 5))
    return out


# coefficients of lam, mu and S[] in the two factors
FACTORS = [(('1', '1', '0'), ('1', '1', '0')), (('1', '1', '0'), ('1', '-1', '0')), (('2', '-q', '0'), ('1', '3', '0')),
           (('1', '0', '0'), ('1', '1', '1')), (('1', '2', '-1'), ('1', '0', '0')), (('1', '1', '1'), ('1', '1', '1')),
           (('q', '1', '0'), ('0', '-2', '3')), (('2', '0', '3'), ('0', '-2', '0')), (('0', '0', '2'), ('q', '0', '0')), (('q', '0', '0'), ('0', '3*q', '0'))]


def combo(sympy, cs, xs):
    return sum((sympy.sympify(c) * x for c, x in zip(cs, xs)), sympy.Integer(0))


def bilinear(E, sp, g, lam, mu):
    import sympy
    i = E.var('factors', 0, len(FACTORS) - 1).__index__()
    cl, cr = FACTORS[i]
    form = i % 2
    ps = [list(lam), list(mu), []]
    xs = [sp.Schur(p).symbol() for p in ps]
    # the unit of the first factor is written as a number, or as S[]
    one = [sympy.Integer(1)] if E.var('number', 0, 1).__index__() else xs[2:]
    l, r = combo(sympy, cl, xs[:2] + one), combo(sympy, cr, xs)
    al, ar = (l, r) if form == 0 else (sp.LinearCombination(l), str(sp.LinearCombination(r)))
    ops = ['mult', 'qmult'] + (['qmult_rh'] if hasattr(g, 'qmult_rh') else [])
    for op in ops:
        f = getattr(g, op)
        got = sympy.expand(to_expr(call(E, op, f, al, ar)))
        want = sympy.Integer(0)
        for i, a in enumerate(cl):
            for j, b in enumerate(cr):
                if a != '0' and b != '0':
                    want += sympy.sympify(a) * sympy.sympify(b) * to_expr(call(E, op, f, list(ps[i]), list(ps[j])))
        check_same(E, op + ' of two combinations is the combination of the products', terms(E, op, got), terms(E, op, sympy.expand(want)))
    E.outcome = 1


def run(E, sp, cfg):
    typ, m, N = cfg['typ'], cfg['m'], cfg['N']
    g = call(E, 'constructor', space, sp, typ, m, N)
    lam, sl = first_class(E, cfg)
    mu, sm = class_input(E, typ, m, N, 'm')
    if cfg['law'] == 'bilin':
        return bilinear(E, sp, g, lam, mu)
    one = [T(1, (0, 0, 0), list(lam))]
    if cfg['law'] == 'comm':
        if not cfg.get('special'):
            E.assume(sl <= sm)
        for op in ('mult', 'qmult'):
            f = getattr(g, op)
            a = terms(E, op, call(E, op, f, list(lam), list(mu)))
            b = terms(E, op, call(E, op, f, sp.Schur(list(mu)), sp.Schur(list(lam))))
            check_same(E, op + ' is commutative', a, b)
            if sm == 0:
                check_same(E, op + ': S[] is the unit', a, one)
                check_same(E, op + ': 1 is the unit', terms(E, op, call(E, op, f, 1, list(lam))), one)
            # (lam + 2 mu) * mu = lam * mu + 2 mu * mu
            c = terms(E, op, call(E, op, f, sp.Schur(list(lam)) + 2 * sp.Schur(list(mu)).symbol(), sp.Schur(list(mu))))
            d = terms(E, op, call(E, op, f, list(mu), list(mu)))
            check_same(E, op + ' is distributive', c, a + scale_terms(d, 2))
        E.outcome = show(a)
        return
    p, special = special_input(E, typ, m, N, 'p')
    for op in ('mult', 'qmult'):
        f = getattr(g, op)
        a = call(E, op, lambda: f(f(list(special), list(lam)), list(mu)))
        b = call(E, op, lambda: f(list(special), f(list(lam), list(mu))))
        ta = terms(E, op, a)
        check_same(E, op + ' is associative', ta, terms(E, op, b))
    E.outcome = show(ta)
