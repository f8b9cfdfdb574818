"""C37: the Giambelli polynomials are the classical formulas."""
from .ring import *

BOUNDS = 'the spaces listed per configuration: every class (ordinary Grassmannians), every class with at most two rows (symplectic, odd orthogonal)'
ASSUMPTIONS = ['inputs are Schubert classes of the space',
               'formulas: Jacobi-Trudi determinant det(S[lambda_i + j - i]) for ordinary Grassmannians (Giambelli; quantum: Bertram); '
               'for at most two rows c_a c_b - 2 c_(a+1) c_(b-1) + 2 c_(a+2) c_(b-2) ... if a + b > 2k + 1, else c_a c_b - c_(a+1) c_(b-1) '
               '(Buch-Kresch-Tamvakis; quantum symplectic: with c_(n+k+1) = q/2)']


def configs(tier):
    q = tier == 'quick'
    out = []
    for c in ring_configs(70 if q else 140, 10 if q else 12, tag='det ', types='A', split=12):
        out.append(dict(c, what='det'))
    two = []
    for N in range(4, (13 if q else 17)):
        for m in range(1, N // 2 + 1):
            for typ in 'CB':
                if (N % 2 == 0) == (typ == 'C') and (m == 2 or N <= 9) and N >= (4 if typ == 'C' else 5):
                    two.append((typ, m, N))
    for typ, m, N in two:
        out.append({'name': 'two rows ' + sname(typ, m, N), 'typ': typ, 'm': m, 'N': N, 'what': 'two', 'weight': N * N,
                    'bounds': '%s: every class with at most two rows' % sname(typ, m, N)})
    return out


def det(rows):
    """Determinant by permutations of a matrix of sympy expressions."""
    import itertools
    import sympy
    r = sympy.Integer(0)
    n = len(rows)
    for perm in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i):
                if perm[j] > perm[i]:
                    s = -s
        t = sympy.Integer(s)
        for i in range(n):
            t = t * rows[i][perm[i]]
        r += t
    return r


def run(E, sp, cfg):
    import sympy
    typ, m, N = cfg['typ'], cfg['m'], cfg['N']
    rows, cols, k, n = box(typ, m, N)
    g = call(E, 'constructor', space, sp, typ, m, N)
    lam, sl = first_class(E, cfg)
    p = [x.__index__() for x in lam]
    if cfg['what'] == 'two':
        E.assume(len(p) <= 2)
    E.outcome = p
    q = sympy.Symbol('q')

    def c(i, quantum):
        if i < 0 or i > cols + (1 if quantum and typ == 'C' else 0):
            return sympy.Integer(0)
        if i == 0:
            return sympy.Integer(1)
        if i > cols:
            return q / 2
        return sp.Schur([i]).symbol() * (2 if typ == 'B' and i > k else 1)

    for op in ('giambelli', 'qgiambelli'):
        quantum = op == 'qgiambelli'
        got = sympy.expand(to_expr(call(E, op, getattr(g, op), sp.Schur(list(p)))))
        if typ == 'A':
            want = det([[c(p[i] + j - i, quantum) for j in range(len(p))] for i in range(len(p))])
        else:
            a, b = (p + [0, 0])[:2]
            want = c(a, quantum) * c(b, quantum)
            if b:
                if a + b > 2 * k + 1:
                    for s in range(1, b + 1):
                        want += 2 * (-1) ** s * c(a + s, quantum) * c(b - s, quantum)
                else:
                    want -= c(a + 1, quantum) * c(b - 1, quantum)
            if typ == 'B':
                want = want / sympy.Integer(2) ** sum(1 for x in p if x > k)
        E.check(op + ' is the Giambelli formula', sympy.expand(got - sympy.expand(want)) == 0, (str(got), str(want)))
