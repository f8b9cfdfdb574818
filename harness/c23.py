"""C23: results do not depend on what was computed before."""
from .ring import *

BOUNDS = 'the target and history spaces / operations listed per configuration; every class as input of the target, every class of the history space in the history'
ASSUMPTIONS = ['the reference is the same call in a second, independent copy of the package loaded from the same sources',
               'histories: one or two operations on the listed spaces before the target call']

OPS = ['pieri', 'qpieri', 'mult', 'qmult', 'giambelli', 'qgiambelli', 'dualize', 'part2index', 'qtoS', 'schub_classes', 'qmult_rh']


# groups of spaces of different types with the same k and n: the internal memo tables see the same arguments
GROUPS = [[('A', 1, 2), ('C', 1, 4), ('B', 1, 5), ('D', 2, 6)],
          [('C', 2, 4), ('B', 2, 5), ('D', 3, 6)]]
SAME = [('A', 2, 4), ('C', 1, 4), ('B', 2, 5), ('D', 2, 4), ('B', 1, 5), ('C', 2, 4), ('D', 2, 6)]
MORE = [[('A', 2, 3), ('C', 2, 6), ('B', 2, 7), ('D', 3, 8)]]
# one space after everything was computed on another: same type and k, same type and n, same k and n ...
AFTER = [(('A', 2, 4), ('A', 3, 5)), (('A', 1, 3), ('A', 2, 4)), (('A', 2, 4), ('A', 1, 4)), (('A', 2, 5), ('A', 2, 4)),
         (('C', 1, 4), ('C', 2, 6)), (('C', 2, 4), ('C', 3, 6)), (('C', 1, 6), ('C', 2, 6)), (('C', 2, 4), ('C', 1, 4)),
         (('B', 1, 5), ('B', 2, 7)), (('B', 2, 5), ('B', 3, 7)), (('B', 1, 7), ('B', 2, 7)), (('B', 2, 5), ('B', 1, 5)),
         (('D', 1, 4), ('D', 2, 6)), (('D', 2, 4), ('D', 3, 6)), (('D', 1, 6), ('D', 2, 6)), (('D', 2, 6), ('D', 1, 4)),
         (('A', 2, 4), ('C', 2, 4)), (('C', 2, 4), ('B', 2, 5)), (('B', 2, 5), ('D', 2, 6)), (('D', 1, 4), ('B', 1, 5)),
         (('A', 1, 3), ('D', 2, 6)), (('C', 1, 4), ('A', 1, 3)), (('B', 1, 5), ('C', 1, 4)), (('D', 2, 6), ('A', 2, 4))]
AFTER_MORE = [(('A', 3, 5), ('A', 3, 6)), (('C', 2, 6), ('C', 1, 4)), (('B', 2, 7), ('B', 1, 5)), (('D', 2, 6), ('D', 3, 8)),
              (('C', 2, 6), ('B', 2, 7)), (('B', 2, 7), ('D', 2, 6)), (('D', 3, 8), ('C', 2, 6))]
TOPS = ['pieri', 'qpieri', 'mult', 'qmult', 'giambelli', 'qgiambelli', 'dualize', 'part2index', 'part2pair', 'qtoS', 'qmult_rh']


def configs(tier):
    q = tier == 'quick'
    out = []

    def add(t, h, top, hop):
        if 'qmult_rh' in (top, hop) and ((top == 'qmult_rh' and t[0] != 'A') or (hop == 'qmult_rh' and h[0] != 'A')):
            return
        out.append({'name': '%s.%s after %s.%s' % (sname(*t), top, sname(*h), hop), 't': t, 'h': h, 'top': top, 'hop': hop,
                    'weight': n_classes(*t) * n_classes(*h),
                    'bounds': 'every class of %s after every class of %s' % (sname(*t), sname(*h))})
    for grp in GROUPS + ([] if q else MORE):
        for t in grp:
            for h in grp:
                if t != h:
                    for op in ('pieri', 'qpieri', 'mult', 'qmult', 'qgiambelli', 'dualize'):
                        if q and op in ('mult', 'qgiambelli', 'qpieri', 'qmult') and n_classes(*t) * n_classes(*h) > 16:
                            continue
                        add(t, h, op, op)
    for t in SAME:
        big = n_classes(*t) > 6
        for top in ('mult', 'qmult', 'giambelli', 'qgiambelli', 'pieri', 'qpieri', 'qmult_rh', 'qtoS', 'dualize', 'schub_classes'):
            for hop in OPS:
                if top == hop and top not in ('pieri', 'qmult', 'schub_classes'):
                    continue
                if q and hop in ('mult', 'giambelli', 'part2index') and top not in ('qmult', 'qgiambelli'):
                    continue
                if q and big and (top, hop) not in (('mult', 'qmult'), ('qmult', 'mult'), ('pieri', 'qpieri'), ('qpieri', 'dualize'), ('pieri', 'pieri')):
                    continue
                if q and not big and top in ('qtoS', 'dualize', 'schub_classes') and hop not in ('qmult', 'schub_classes'):
                    continue
                add(t, t, top, hop)
        for top in TOPS + ['schub_classes'] if not big or not q else ['mult', 'qmult', 'qmult_rh']:
            if (t[0] == 'A' or top != 'qmult_rh') and (t[0] != 'A' or top != 'part2pair'):
                add(t, t, top, 'refused')
    sides = AFTER if q else AFTER + [(h, t) for t, h in AFTER] + AFTER_MORE + [(h, t) for t, h in AFTER_MORE]
    for t, h in dict.fromkeys(sides + [(t, t) for t in SAME]):
        for op in TOPS:
            if t[0] != 'A' and op == 'qmult_rh' or t[0] == 'A' and op == 'part2pair':
                continue
            out.append({'name': '%s.%s after everything on %s' % (sname(*t), op, sname(*h)), 't': t, 'h': h, 'top': op, 'hop': '*',
                        'weight': 2 * n_classes(*t) * n_classes(*h),
                        'bounds': 'every class of %s, after ten operations on all classes of %s' % (sname(*t), sname(*h))})
    return out


def everything(E, sp, g, spc):
    for lam in classes_of(*spc):
        for op in OPS + ['part2pair']:
            if (op == 'qmult_rh' and spc[0] != 'A') or (op == 'part2pair' and spc[0] == 'A') or op == 'schub_classes':
                continue
            do(E, sp, g, spc, op, lam, 'h')


def refused(sp, g, lam):
    """Calls that fail must leave no trace either."""
    bad = ['S[1', None, object()]
    for f in (g.mult, g.qmult, getattr(g, 'qmult_rh', g.mult), g.act, g.qact):
        for b in bad:
            for args in ((list(lam), b), (b, list(lam))):
                try:
                    f(*args)
                except Exception:
                    pass
    for f in (g.giambelli, g.qgiambelli, g.toS, g.qtoS, g.dualize, g.part2index, g.index2part, g.part2pair, g.pair2part):
        for b in bad:
            try:
                f(b)
            except Exception:
                pass
    for f in (g.pieri, g.qpieri):
        for b in bad:
            for p in (1, None):
                try:
                    f(p, b)
                except Exception:
                    pass
    for a in ((3, 2), (-1, 4), ('1', 4), (2, None)):
        try:
            type(g)(*a)
        except Exception:
            pass


def do(E, sp, g, spc, op, lam, tag):
    """Run op on the class; the second argument of products is a fixed class."""
    typ, m, N = spc
    rows, cols, k, n = box(typ, m, N)
    if op in ('pieri', 'qpieri'):
        return getattr(g, op)(1 if cols < 2 else 2, sp.Schur(list(lam)))
    if op in ('mult', 'qmult', 'qmult_rh'):
        second = [1] if rows < 2 or (typ != 'A' and k == 0) else [1, 1]
        if typ == 'D' and k == 1 and rows < 2:
            second = [1]
        return getattr(g, op)(list(lam), second)
    if op == 'refused':
        return refused(sp, g, lam)
    if op == 'schub_classes':
        return g.schub_classes()
    return getattr(g, op)(sp.Schur(list(lam)))


def value(x):
    import sympy
    if isinstance(x, list):
        return [list(y.p) for y in x]
    return sympy.expand(to_expr(x))


def settle(sp, e):
    """Names of classes rewritten with what the path determines about their parts."""
    if isinstance(e, list):
        return e
    return e.xreplace({s: sp.Schur(parse_name(str(s))).symbol() for s in e.free_symbols if parse_name(str(s)) is not None})


def run(E, sp, cfg):
    t, h = tuple(cfg['t']), tuple(cfg['h'])
    linear = cfg['top'] not in ('giambelli', 'qgiambelli', 'schub_classes')
    lam, _ = class_input(E, *t, 'l')
    every = cfg['hop'] == '*'
    mu = None if every else class_input(E, *h, 'h')[0]
    sp2 = fresh_copy()
    g2 = call(E, 'constructor', space, sp2, *t)
    want = value(call(E, 'reference', do, E, sp2, g2, t, cfg['top'], lam, 'r'))
    E.outcome = 1

    def same(label, x):
        got = value(x)
        a, b = settle(sp, got), settle(sp, want)
        if a == b:
            E.check(label, True)
        elif linear:
            check_same(E, label, terms(E, label, a), terms(E, label, b))
        else:
            E.check(label, False, (str(a)[:200], str(b)[:200]))
    g = call(E, 'constructor', space, sp, *t)
    gh = g if h == t else call(E, 'constructor', space, sp, *h)
    past = call(E, 'history', everything, E, sp, gh, h) if every else call(E, 'history', do, E, sp, gh, h, cfg['hop'], mu, 'h')
    if isinstance(past, list):      # the caller may do what it likes with a list it was given
        for c in past:
            c.p.append(99)
        del past[:]
    arg = list(lam)
    same('the result is that of a fresh process', call(E, cfg['top'], do, E, sp, g, t, cfg['top'], arg, 't'))
    E.check('the argument is unchanged', Eq(arg, list(lam)))
    same('repeating the call gives the same result', call(E, 'again', do, E, sp, g, t, cfg['top'], lam, 't'))
    other = call(E, 'constructor', space, sp, *t)
    same('a new instance gives the same result', call(E, 'new instance', do, E, sp, other, t, cfg['top'], lam, 't'))
    E.check('the space still describes itself', list(g.get_type_data()) == list(g2.get_type_data()))
