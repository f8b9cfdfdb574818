"""C21: every operation extends linearly, whatever form its argument takes."""
from symex.lib import *
from .c15 import index_ok
from .c16 import spec_pair

BOUNDS = 'the spaces and operations listed per configuration: every pair of classes (or index sets), coefficients from the list in the harness'
ASSUMPTIONS = ['arguments are combinations of two Schubert classes (index sets, pairs) with coefficients (1,1), (1,-1), (2,-2q), (q^11,1/2), (-12345678901,q), (3q,0)',
               'argument forms: linear combination object, text, sympy expression, multiplied out or not; one class also as a class object or list']

OPS = ['pieri', 'qpieri', 'dualize', 'type_swap', 'miami_swap', 'part2index', 'index2part', 'part2pair', 'pair2part', 'giambelli', 'toS', 'act', 'qact']


def configs(tier):
    q = tier == 'quick'
    out = []
    spaces = [('A', 2, 4), ('C', 2, 4), ('C', 1, 4), ('B', 2, 5), ('B', 1, 5), ('D', 2, 6), ('D', 2, 4), ('A', 1, 3)]
    if not q:
        spaces += [('A', 2, 5), ('C', 2, 6), ('B', 2, 7), ('D', 3, 6), ('D', 2, 8), ('D', 1, 6)]
    for typ, m, N in spaces:
        for op in OPS:
            if typ == 'A' and op in ('part2pair', 'pair2part'):
                continue
            out.append({'name': '%s %s' % (op, sname(typ, m, N)), 'typ': typ, 'm': m, 'N': N, 'op': op,
                        'weight': n_classes(typ, m, N) ** 2,
                        'bounds': '%s on %s: every pair of classes, every pair of coefficients' % (op, sname(typ, m, N))})
    return out


COEFS = [('1', '1'), ('1', '-1'), ('2', '-2*q'), ('q**11', '1/2'), ('-12345678901', 'q'), ('3*q', '0')]


def operation(E, sp, g, cfg, typ, N):
    op = cfg['op']
    if op in ('pieri', 'qpieri'):
        i, _ = special_input(E, typ, cfg['m'], N, 'p')
        f = getattr(g, op)
        return lambda x: f(i, x)
    if op == 'type_swap':
        k = box(typ, cfg['m'], N)[2]
        return lambda x: g.type_swap(x, k)
    if op in ('act', 'qact'):
        f = getattr(g, op)
        return lambda x: f('S[1]^2+2*S[1]+1', x)
    return getattr(g, op)


def argument(E, typ, m, N, op, name):
    if op == 'index2part':
        rows, cols, k, n = box(typ, m, N)
        p = []
        for i in range(rows):
            x = E.var('%s%d' % (name, i), 1, N)
            if i:
                E.assume(x > p[-1])
            p.append(x)
        E.assume(index_ok(p, typ, rows, N))
        return p
    c = class_input(E, typ, m, N, name)[0]
    if op == 'pair2part':
        k = box(typ, m, N)[2]
        top, bot, two = spec_pair(c, k, typ)
        return [[t + 0 for t in top], clip(E, bot) + ([0] if two else [])]
    return c


def run(E, sp, cfg):
    import sympy
    typ, m, N, op = cfg['typ'], cfg['m'], cfg['N'], cfg['op']
    g = call(E, 'constructor', space, sp, typ, m, N)
    f = operation(E, sp, g, cfg, typ, N)
    x = argument(E, typ, m, N, op, 'x')
    y = argument(E, typ, m, N, op, 'y')
    form = E.var('form', 0, 4).__index__()
    a, b = COEFS[E.var('coefs', 0, len(COEFS) - 1).__index__()]
    sx, sy = sp.Schur(list(x)).symbol(), sp.Schur(list(y)).symbol()
    ea, eb = sympy.sympify(a), sympy.sympify(b)
    expr = ea * sx + eb * sy
    if form == 0:
        arg = sp.LinearCombination(expr)
    elif form == 1:
        arg = '%s*%s+(%s)*%s' % (a, sp.Schur(list(x)), b, sp.Schur(list(y)))
    elif form == 3:
        # not multiplied out
        arg = '(%s)*(%s+(%s)*%s)' % (a, sp.Schur(list(x)), b, sp.Schur(list(y)))
        eb = ea * eb
    elif form == 4:
        arg = sp.LinearCombination((ea + eb) * (sx + sy))
        ea = eb = ea + eb
    else:
        arg = expr
    r = sympy.expand(to_expr(call(E, op, f, arg)))
    fx = to_expr(call(E, op, f, sx))
    fy = to_expr(call(E, op, f, sy))
    want = sympy.expand(ea * fx + eb * fy)
    if op in ('giambelli',):
        E.check(op + ' is linear', r == want, (str(arg), str(r), str(want)))
        E.outcome = 1
        return
    # everything twice: coefficients may be halves
    tr, tw = flat(terms(E, op, 2 * r)), flat(terms(E, op, 2 * want))
    E.outcome = show(tr)
    check_same(E, op + ' is linear', tr, tw)
    if form == 0 and (a, b) == COEFS[0]:
        tx = flat(terms(E, op, fx))
        o1 = flat(terms(E, op, call(E, op, f, sp.Schur(list(x)))))
        check_same(E, op + ' accepts a class object', o1, tx)
        o2 = flat(terms(E, op, call(E, op, f, list(x))))
        check_same(E, op + ' accepts a list', o2, tx)


def flat(ts):
    """Pairs of lists as single lists."""
    return [T(t.c, t.d, [len(t.p[0])] + list(t.p[0]) + list(t.p[1])) if any(isinstance(v, (list, tuple)) for v in t.p) else t
            for t in ts]
