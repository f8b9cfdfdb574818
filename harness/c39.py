"""C39: computations may be interleaved."""
import sys
from .ring import *
from . import c23
from symex import loader

BOUNDS = 'the spaces and operations listed per configuration: every class as argument of the interrupted operation, every switch point ' \
         '(entry of a function of the package; for the cheap operations every line of it); the other computation: all operations on two classes, ' \
         'on the same object, on another space of the same kind or on one of another type'
ASSUMPTIONS = ['schedules: the operation is interrupted once, the other computation then runs to its end (context bound 2); '
               'the interruption is made in one thread, at the switch point, which is what a second thread does to the shared objects',
               'the reference is the same call in an independent copy of the package, not interrupted']

LINE = ['pieri', 'dualize', 'part2index', 'index2part', 'part2pair', 'type_swap', 'schub_classes', 'generators', 'point_class', 'to_text']
CALL = ['qpieri', 'mult', 'qmult', 'giambelli', 'qgiambelli', 'qtoS', 'qmult_rh']
MAIN = [('A', 2, 4), ('A', 1, 3), ('C', 1, 4), ('B', 2, 5), ('D', 1, 4)]
MORE = [('C', 2, 4), ('B', 1, 5), ('D', 2, 4), ('A', 2, 5), ('C', 2, 6), ('B', 2, 7), ('D', 2, 6), ('D', 3, 6)]
OTHER = {'A': [('A', 1, 3), ('C', 1, 4)], 'C': [('C', 2, 6), ('B', 1, 5)], 'B': [('B', 2, 7), ('D', 1, 4)], 'D': [('D', 2, 6), ('A', 1, 4)]}


def configs(tier):
    q = tier == 'quick'
    out = []
    for t in MAIN + ([] if q else MORE):
        for op in LINE + CALL:
            if (op == 'qmult_rh' and t[0] != 'A') or (op == 'part2pair' and t[0] == 'A'):
                continue
            for who in (['same', 'other'] if q and t not in MORE else ['same', 'other', 'third']):
                h = t if who == 'same' else OTHER[t[0]][who == 'third']
                if q and who != 'same' and op in ('giambelli', 'qtoS', 'qpieri', 'mult') and n_classes(*t) > 4:
                    continue
                line = op in LINE and (not q or n_classes(*t) < 5 or op in ('part2index', 'type_swap')) or not q and n_classes(*t) < 5
                out.append({'name': '%s.%s interrupted by %s%s' % (sname(*t), op, sname(*h), ' (the same object)' if who == 'same' else ''),
                            't': t, 'h': h, 'who': who, 'op': op, 'line': line, 'weight': n_classes(*t) * (60 if op in CALL else 20),
                            'bounds': '%s: every class, every %s as switch point' % (sname(*t), 'line' if line else 'function entry')})
    return out


def do(E, sp, g, spc, op, lam):
    if op in ('generators', 'point_class', 'schub_classes'):
        r = getattr(g, op)()
        return list(r) if isinstance(r, list) else [r]
    if op == 'to_text':
        return [str(g), str(sp.LinearCombination(sp.Schur(list(lam)).symbol() * 2 + 1)), str(g.get_type_data()), str(g.degree_q()), str(type(g.clone())(*g.get_type_data()[4:6]))]
    if op == 'type_swap':
        return g.type_swap(sp.Schur(list(lam)), g.get_type_data()[1])
    if op == 'index2part':
        return g.index2part(g.part2index(list(lam)))
    return c23.do(E, sp, g, spc, op, lam, 't')


def bundle(E, sp, g, spc):
    """The other computation: all operations on two classes."""
    out = []
    cs = classes_of(*spc)
    for lam in (cs[1], cs[-1]):
        for op in CALL + LINE:
            if lam is cs[1] and op in CALL and op not in ('qpieri', 'qmult'):
                continue
            if (op == 'qmult_rh' and spc[0] != 'A') or (op == 'part2pair' and spc[0] == 'A'):
                continue
            out.append(value(do(E, sp, g, spc, op, lam)))
    return out


def value(x):
    import sympy
    if isinstance(x, list):
        return [value(y) for y in x]
    if isinstance(x, str):
        return x
    return sympy.expand(to_expr(x))


REF = {}      # results of the undisturbed computations, in an independent copy of the package


class Switch:
    """Runs `other` when the count-th event in the package's code happens."""

    def __init__(self, root, line, at=None, other=None):
        self.root, self.line, self.at, self.other, self.n = root, line, at, other, 0

    def event(self):
        self.n += 1
        if self.n == self.at:
            sys.settrace(None)
            self.other()

    def glob(self, frame, ev, arg):
        if not frame.f_code.co_filename.startswith(self.root) or frame.f_code.co_name in ('__hash__', '__eq__', '__lt__'):
            return None
        self.event()
        return self.local if self.line else None

    def local(self, frame, ev, arg):
        if ev == 'line' and (self.at is None or self.n < self.at):
            self.event()
        return self.local

    def run(self, f, *a):
        old = sys.gettrace()
        sys.settrace(self.glob)
        try:
            return f(*a)
        finally:
            sys.settrace(old)


def run(E, sp, cfg):
    import os
    t, h, op = tuple(cfg['t']), tuple(cfg['h']), cfg['op']
    root = os.path.join(loader.REPO, 'schubertpy') + os.sep
    lam = class_input(E, *t, 'l')[0] if op not in ('generators', 'point_class', 'schub_classes') else []
    lam = [x.__index__() for x in lam]
    key = (cfg['name'], tuple(lam))
    if key not in REF:
        sp2 = fresh_copy()
        g2 = call(E, 'constructor', space, sp2, *t)
        gh2 = call(E, 'constructor', space, sp2, *h)
        counter = Switch(root, cfg['line'])
        want = value(counter.run(call, E, 'reference', do, E, sp2, g2, t, op, list(lam)))
        REF[key] = counter.n, want, call(E, 'reference', bundle, E, sp2, gh2, h), g2.get_type_data(), gh2.get_type_data()
    count, want, wanth, data, datah = REF[key]
    at = E.var('switch', 0, count).__index__()
    g = call(E, 'constructor', space, sp, *t)
    gh = g if cfg['who'] == 'same' else call(E, 'constructor', space, sp, *h)
    other = []
    sw = Switch(root, cfg['line'], at, lambda: other.append(call(E, 'other computation', bundle, E, sp, gh, h)))
    got = sw.run(call, E, op, do, E, sp, g, t, op, list(lam))
    E.outcome = 1
    if not other:
        other.append(call(E, 'other computation', bundle, E, sp, gh, h))
    E.check('the interrupted computation gives its result', equal(sp, value(got), want), (str(got)[:150], str(want)[:150]))
    bad = [i for i, (x, y) in enumerate(zip(other[0], wanth)) if x != y]
    E.check('the other computation gives its results', not bad and len(other[0]) == len(wanth), bad[:5])
    E.check('a later call gives its result', equal(sp, value(call(E, op, do, E, sp, g, t, op, list(lam))), want))
    E.check('the spaces still describe themselves', list(g.get_type_data()) == list(data) and list(gh.get_type_data()) == list(datah))


def equal(sp, a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(equal(sp, x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return a == b or c23.settle(sp, a) == c23.settle(sp, b)

