"""C33: isomorphic spaces have the same rings."""
from .ring import *

BOUNDS = 'the pairs of spaces listed per configuration: every pair of classes (on the larger ones special class times class)'
ASSUMPTIONS = ['inputs are Schubert classes of the first space',
               'isomorphisms used: Gr(m,N)=Gr(N-m,N), OG(n,2n+1)=OG(n+1,2n+2), IG(1,2n)=Gr(1,2n), IG(2,4)=OG(1,5), OG(2,5)=Gr(1,4)=OG(3,6), '
               'OG(1,6)=Gr(2,4), OG(3,7)=OG(4,8)=OG(1,8), OG(1,3)=OG(2,4)=Gr(1,2); and IG(n,2n) against OG(n,2n+1) up to powers of two (classically)']

Q6 = {(): (), (1,): (1,), (2,): (2,), (3,): (3,), (2, 1): (3, 0), (3, 1): (4,), (3, 2): (5,), (3, 2, 1): (6,)}
P3 = {(): (), (1,): (1,), (2,): (2,), (2, 1): (3,)}
SMALL = [
    (('C', 2, 4), ('B', 1, 5), P3), (('B', 2, 5), ('A', 1, 4), P3), (('D', 3, 6), ('A', 1, 4), P3),
    (('D', 1, 6), ('A', 2, 4), {(): (), (1,): (1,), (2,): (2,), (2, 0): (1, 1), (3,): (2, 1), (4,): (2, 2)}),
    (('D', 4, 8), ('D', 1, 8), Q6), (('B', 3, 7), ('D', 1, 8), Q6),
    (('B', 1, 3), ('A', 1, 2), {(): (), (1,): (1,)}), (('D', 2, 4), ('A', 1, 2), {(): (), (1,): (1,)}),
]


def configs(tier):
    q = tier == 'quick'
    out = []

    def add(s, t, how, split=8):
        w = n_classes(*s)
        for f in range(box(*s)[1] + 1) if w > split else [None]:
            nm = '%s = %s%s%s' % (sname(*s), sname(*t), '' if f is None else ' first=%d' % f, ' (scaled)' if how == 'scale' else '')
            out.append({'name': nm, 'typ': s[0], 'm': s[1], 'N': s[2], 'to': list(t), 'how': how, 'first': f, 'may_be_empty': True,
                        'weight': w * w, 'bounds': '%s: all %d classes%s' % (nm, w, '' if f is None else ' (first factor with first part %d)' % f)})
    for N in range(2, (8 if q else 9) + 1):
        for m in range(1, N // 2 + 1):
            if n_classes('A', m, N) <= (21 if q else 56):
                add(('A', m, N), ('A', N - m, N), 'conj')
    for n in range(1, 6):
        add(('B', n, 2 * n + 1), ('D', n + 1, 2 * n + 2), 'id')
        add(('C', n, 2 * n), ('B', n, 2 * n + 1), 'scale')
    for n in range(1, (8 if q else 11)):
        add(('C', 1, 2 * n), ('A', 1, 2 * n), 'id')
    # larger spaces: the first class special
    big = [(('A', 3, 7), ('A', 4, 7), 'conj'), (('A', 4, 8), ('A', 4, 8), 'conj'), (('A', 2, 9), ('A', 7, 9), 'conj'), (('B', 5, 11), ('D', 6, 12), 'id'), (('C', 5, 10), ('B', 5, 11), 'scale')]
    big += [(('A', 3, 9), ('A', 6, 9), 'conj'), (('B', 6, 13), ('D', 7, 14), 'id'), (('C', 6, 12), ('B', 6, 13), 'scale')]
    if not q:
        big += [(('A', 4, 9), ('A', 5, 9), 'conj'), (('A', 5, 10), ('A', 5, 10), 'conj'), (('B', 7, 15), ('D', 8, 16), 'id'), (('C', 7, 14), ('B', 7, 15), 'scale')]
    for s, t, how in big:
        for f in range(1, box(*s)[1] + 1):
            add(s, t, how, split=10 ** 6)
            out[-1].update(special=True, first=f, name=out[-1]['name'] + ' special=%d' % f, weight=n_classes(*s),
                           bounds='%s = %s: the special class of degree %d times all %d classes' % (sname(*s), sname(*t), f, n_classes(*s)))
    for i, (s, t, mp) in enumerate(SMALL):
        add(s, t, i)
    return out


def image(E, p, how, cols):
    """The class of the other space."""
    if how in ('id', 'scale'):
        return list(p)
    if how == 'conj':
        c = [sum(1 for x in p if x > j) for j in range(cols)]
        return [x for x in c if x]
    mp = SMALL[how][2]
    key = tuple(x.__index__() for x in p)
    E.check('a class of the space', key in mp, key)
    return list(mp[key])


def run(E, sp, cfg):
    typ, m, N = cfg['typ'], cfg['m'], cfg['N']
    t2, m2, N2 = cfg['to']
    how = cfg['how']
    cols = box(typ, m, N)[1]
    g = call(E, 'constructor', space, sp, typ, m, N)
    h = call(E, 'constructor', space, sp, t2, m2, N2)
    lam, sl = first_class(E, cfg)
    mu, sm = class_input(E, typ, m, N, 'm')
    il, im = image(E, lam, how, cols), image(E, mu, how, cols)
    for op in ('mult', 'qmult'):
        a = terms(E, op, call(E, op, getattr(g, op), list(lam), list(mu)))
        if how == 'scale':
            # Q- and P-functions: the classes of IG(n,2n) are those of OG(n,2n+1) times 2^length
            if op == 'qmult':
                continue
            b = terms(E, op, call(E, op, getattr(h, op), il, im))
            a2 = [T(t.c * 2 ** len(t.p), t.d, t.p) for t in a]
            b2 = [T(t.c * 2 ** (len(lam) + len(mu)), t.d, t.p) for t in b]
            check_same(E, 'symplectic and orthogonal maximal Grassmannians agree up to powers of two', a2, b2)
            continue
        b = terms(E, op, call(E, op, getattr(h, op), il, im))
        check_same(E, op + ' agrees on isomorphic spaces', [T(t.c, t.d, image(E, t.p, how, cols)) for t in a], b)
    E.outcome = show(a)
    if how != 'scale':
        E.check('the degree of q agrees', g.degree_q() == h.degree_q(), (g.degree_q(), h.degree_q()))
        d = terms(E, 'dualize', call(E, 'dualize', g.dualize, sp.Schur(list(lam))))
        e = terms(E, 'dualize', call(E, 'dualize', h.dualize, sp.Schur(list(il))))
        check_same(E, 'duality agrees on isomorphic spaces', [T(t.c, t.d, image(E, t.p, how, cols)) for t in d], e)
