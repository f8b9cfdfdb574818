"""C11: Giambelli polynomials evaluate back to the class."""
from .ring import *

BOUNDS = 'the spaces listed per configuration: every class'
ASSUMPTIONS = ['inputs are Schubert classes of the space']


def configs(tier):
    return ring_configs(90 if tier == 'quick' else 200, 12 if tier == 'quick' else 14, split=10,
                        extra=[('D', 4, 12)] if tier == 'quick' else [('D', 5, 12)])


def special_lists(typ, m, N):
    rows, cols, k, n = box(typ, m, N)
    s = [[i] for i in range(1, cols + 1)]
    if typ == 'D' and k > 0:
        s.append([k, 0])
    return s


def run(E, sp, cfg):
    import sympy
    typ, m, N = cfg['typ'], cfg['m'], cfg['N']
    g = call(E, 'constructor', space, sp, typ, m, N)
    dq = deg_q(typ, m, N)
    lam, sl = first_class(E, cfg)
    spec = special_lists(typ, m, N)
    for op, back, toS in (('giambelli', 'act', 'toS'), ('qgiambelli', 'qact', 'qtoS')):
        r = call(E, op, getattr(g, op), sp.Schur(list(lam)))
        e = sympy.expand(to_expr(r))
        for s in e.free_symbols:
            nm = str(s)
            if op == 'qgiambelli' and nm in QN:
                continue
            p = parse_name(nm)
            if p is None:
                E.fail(op + ': unexpected symbol', nm)
            E.check(op + ': only special classes of the space occur', Or(*[Eq(list(p), x) for x in spec]), p)
        # homogeneous with integer coefficients
        for term in sympy.Add.make_args(e):
            c, rest = term.as_coeff_mul()
            d = 0
            for f in rest:
                b, ex = f.as_base_exp()
                pp = parse_name(str(b))
                d = d + (dq if pp is None else Sum(pp)) * int(ex)
            if term != 0:
                E.check(op + ': integer coefficients', bool(c.is_Integer), str(term))
                E.check(op + ': homogeneous of the degree of the class', d == sl, str(term))
        b = call(E, back, getattr(g, back), r, sp.Schur([]))
        ts = terms(E, back, b)
        check_same(E, back + '(' + op + '(class), 1) is the class', ts, [T(1, (0, 0, 0), list(lam))])
        b2 = terms(E, toS, call(E, toS, getattr(g, toS), r))
        check_same(E, toS + ' of the class is the class', terms(E, toS, call(E, toS, getattr(g, toS), sp.Schur(list(lam)))),
                   [T(1, (0, 0, 0), list(lam))])
        check_same(E, toS + ' of the Giambelli polynomial is the class', b2, [T(1, (0, 0, 0), list(lam))])
    E.outcome = show(ts)
