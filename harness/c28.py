"""C28: polynomials in the special classes act by iterated Pieri multiplication."""
from .ring import *

BOUNDS = 'the spaces listed per configuration: every class, every pair of special classes'
ASSUMPTIONS = ['inputs are Schubert classes of the space; polynomials p1*p2 + 2*p1 - q, p1^2 + p2, p1^3 - q*p1, (up to 12 classes) p1^5 + 1000003*p1^3, p1, constants, and polynomials with q, q^2, q2, q1*q2 as coefficients, for arbitrary special classes p1, p2']


def configs(tier):
    return ring_configs(24 if tier == 'quick' else 70, 10, split=6)


def run(E, sp, cfg):
    import sympy
    typ, m, N = cfg['typ'], cfg['m'], cfg['N']
    g = call(E, 'constructor', space, sp, typ, m, N)
    lam, sl = first_class(E, cfg)
    p, P = special_input(E, typ, m, N, 'p')
    r, R = special_input(E, typ, m, N, 'r')
    E.assume(p <= r)
    sP, sR, S = sp.Schur(list(P)).symbol(), sp.Schur(list(R)).symbol(), sp.Schur(list(lam)).symbol()
    rows, cols, k, n = box(typ, m, N)
    q = mono((1, 0, 0))
    if typ == 'D' and k == 1:
        q = mono((0, 1, 0))
    dq = tuple(1 if s == str(q) else 0 for s in QN)
    d1, d2 = ((0, 1, 1), (0, 0, 1)) if typ == 'D' and k == 1 else ((1, 0, 0), (2, 0, 0))
    for op, pi, prod in (('act', 'pieri', 'mult'), ('qact', 'qpieri', 'qmult')):
        f, h, mul = getattr(g, op), getattr(g, pi), getattr(g, prod)
        hp = call(E, pi, h, p, S)
        tp = terms(E, pi, hp)
        hr = terms(E, pi, call(E, pi, h, r, S))
        hpr = terms(E, pi, call(E, pi, h, r, hp))
        one = [T(1, (0, 0, 0), list(lam))]
        check_same(E, op + ' of a special class is Pieri multiplication', terms(E, op, call(E, op, f, sP, S)), tp)
        check_same(E, prod + ' by a special class is Pieri multiplication', terms(E, prod, call(E, prod, mul, list(P), list(lam))), tp)
        check_same(E, op + ' of a product is the composition', terms(E, op, call(E, op, f, sP * sR, S)), hpr)
        check_same(E, op + ' of 1 is the identity', terms(E, op, call(E, op, f, 1, S)), one)
        check_same(E, op + ' of 0 is 0', terms(E, op, call(E, op, f, 0, S)), [])
        e = sp.LinearCombination(sP * sR + 2 * sP - q)
        check_same(E, op + ' is linear in the polynomial, and q acts as a scalar', terms(E, op, call(E, op, f, e, sp.Schur(list(lam)))),
                   hpr + scale_terms(tp, 2) + scale_terms(one, -1, dq))
        for d, e2 in ((d1, sP), (d2, sP), (d1, sP * sR), (d2, sR ** 2)):
            w = {sP: tp, sP * sR: hpr}.get(e2)
            if w is None:
                w = terms(E, pi, call(E, pi, h, r, call(E, pi, h, r, S)))
            check_same(E, op + ' of a class times a quantum monomial', terms(E, op, call(E, op, f, sp.LinearCombination(mono(d) * e2), S)),
                       scale_terms(w, 1, d))
        check_same(E, op + ' of quantum coefficients', terms(E, op, call(E, op, f, mono(d1) * sP - 12345678901 * mono(d2) * sR - mono(d1), S)),
                   scale_terms(tp, 1, d1) + scale_terms(hr, -12345678901, d2) + scale_terms(one, -1, d1))
        for cl, hc in ((sP, p), (sR, r)):
            x3 = call(E, pi, h, hc, call(E, pi, h, hc, call(E, pi, h, hc, S)))
            t3 = terms(E, pi, x3)
            if n_classes(typ, m, N) <= 12:
                x5 = call(E, pi, h, hc, call(E, pi, h, hc, x3))
                check_same(E, op + ' of a fifth power', terms(E, op, call(E, op, f, cl ** 5 + 1000003 * cl ** 3, S)), terms(E, pi, x5) + scale_terms(t3, 1000003))
            check_same(E, op + ' of a cube', terms(E, op, call(E, op, f, cl ** 3 - q * cl, S)), t3 + scale_terms(tp if cl == sP else hr, -1, dq))
        check_same(E, op + ' of text', terms(E, op, call(E, op, f, str(sp.Schur(list(P))) + '^2 + ' + str(sp.Schur(list(R))), str(sp.Schur(list(lam))))),
                   terms(E, pi, call(E, pi, h, p, hp)) + hr)
    E.outcome = show(hpr)
