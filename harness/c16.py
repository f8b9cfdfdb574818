"""C16: k-strict partitions and partition pairs correspond one to one."""
from symex.lib import *
from .c14 import params, gen_class, is_class
from .c15 import one

BOUNDS = 'types B, C, D with the number of rows and k as listed; all parts arbitrary in the space'
ASSUMPTIONS = ['inputs are Schubert classes, respectively the pairs they correspond to']


def configs(tier):
    q = tier == 'quick'
    out = []
    for typ in 'BCD':
        for m in range(1, (6 if q else 8) + 1):
            for k in range(0, (5 if q else 7)):
                if (typ == 'D' and m + k < 2) or (m + k > (8 if q else 10)):
                    continue
                for w in ('part', 'pair'):
                    out.append({'name': '%s %s rows=%d k=%d' % (w, typ, m, k), 'typ': typ, 'rows': m, 'k': k, 'what': w,
                                'weight': 4 ** m * (k + 1), 'bounds': 'type %s, %d rows, k=%d' % (typ, m, k)})
    for m in range(1, 4):
        out.append({'name': 'A rows=%d' % m, 'typ': 'A', 'rows': m, 'k': None, 'what': 'A', 'weight': 1,
                    'bounds': 'type A, %d rows: refused' % m})
    return out


def spec_pair(lam, k, typ):
    """(condition-free) columns of the left part and the padded right part."""
    body = lam[:-1] if (typ == 'D' and k > 0 and len(lam) and (lam[-1] == 0)) else list(lam)
    top = [Count(x >= c for x in body) for c in range(1, k + 1)]
    bot = [Max(x - k, 0) for x in body]
    return top, bot, len(body) != len(lam)


def check_pair(E, lam, pr, k, typ):
    E.check('a pair of lists', isinstance(pr, (list, tuple)) and len(pr) == 2 and all(isinstance(x, (list, tuple)) for x in pr), pr)
    top, bot, two = spec_pair(lam, k, typ)
    E.check('the first part lists the columns of the part of the diagram in the first k columns', Eq(list(pr[0]), top)
            if len(pr[0]) == len(top) else False, pr)
    b = list(pr[1])
    if two:
        E.check('the mark of a type 2 class is kept', And(len(b) >= 1, b[-1] == 0) if b else False, pr)
        b = b[:-1]
    E.check('the second part lists the rows of the part outside the first k columns',
            And(len(b) <= len(bot), Eq(pad(b, len(bot)), bot), *[x > 0 for x in b]), pr)


def run(E, sp, cfg):
    typ, rows = cfg['typ'], cfg['rows']
    if cfg['what'] == 'A':
        k = E.var('k', 1)
        g = call(E, 'constructor', sp.Grassmannian, rows, rows + k)
        lam = gen_class(E, 'A', rows, k, k)
        E.outcome = 1
        for f in (g.part2pair, g.pair2part):
            E.check('ordinary Grassmannians refuse partition pairs', raises(E, f, sp.Schur(list(lam))) is not None)
        return
    k = cfg['k']
    m, N, cols = params(typ, rows, k)
    g = call(E, 'constructor', space, sp, typ, m, N)
    if cfg['what'] == 'part':
        lam = gen_class(E, typ, rows, k, cols)
        pr = one(E, 'part2pair', terms(E, 'part2pair', call(E, 'part2pair', g.part2pair, sp.Schur(list(lam)).symbol())))
        check_pair(E, lam, pr, k, typ)
        pl = one(E, 'part2pair', terms(E, 'part2pair', call(E, 'part2pair', g.part2pair, list(lam))))
        check_pair(E, lam, pl, k, typ)
        E.outcome = [list(pr[0]), list(pr[1])]
        for arg in ([list(pr[0]), list(pr[1])], sp.Schur([list(pr[0]), list(pr[1])]).symbol()):
            b = one(E, 'pair2part', terms(E, 'pair2part', call(E, 'pair2part', g.pair2part, arg)))
            E.check('pair2part undoes part2pair', And(len(b) == len(lam), Eq(list(b), list(lam))), b)
        return
    # an arbitrary pair
    top = []
    for c in range(k):
        x = E.var('t%d' % c, 0, rows)
        if c:
            E.assume(top[-1] >= x)
        top.append(x)
    bot = []
    for i in range(rows):
        x = E.var('b%d' % i, 0, cols - k)
        if i:
            E.assume(Or(bot[-1] > x, And(bot[-1] == 0, x == 0)))
        bot.append(x)
    if k:
        E.assume(Count(x > 0 for x in bot) <= top[-1])
    bot = clip(E, bot)
    if typ == 'D' and k:
        t2 = E.var('two', 0, 1)
        # k occurs when the last column is longer than the second part
        if top[-1] > len(bot):
            if t2 == 1:
                bot = bot + [0]
        else:
            E.assume(t2 == 0)
    lam = one(E, 'pair2part', terms(E, 'pair2part', call(E, 'pair2part', g.pair2part, [list(top), list(bot)])))
    E.outcome = list(lam)
    E.check('pair2part gives a class of the space', is_class(lam, typ, rows, cols, k), lam)
    check_pair(E, lam, [top, bot], k, typ)
    b = one(E, 'part2pair', terms(E, 'part2pair', call(E, 'part2pair', g.part2pair, sp.Schur(list(lam)).symbol())))
    E.check('part2pair undoes pair2part', And(len(b[0]) == len(top), len(b[1]) == len(bot), Eq(list(b[0]), list(top)),
                                              Eq(list(b[1]), list(bot))) if len(b) == 2 else False, b)
