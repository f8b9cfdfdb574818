"""Helpers shared by the harnesses: decoding of results, declarative
specifications of the Pieri rules, symbolic partitions.

Everything here works both on symbolic and on plain integers."""
from itertools import product as _product

from . import core
from .core import (And, Or, Not, Implies, Iff, If, Eq, Sum, Min, Max, Count,
                   PathAbort, Violation, SymInt, is_sym)


class BadResult(Exception):
    pass


def call(E, label, f, *a, **k):
    """Run code under test; an exception is a violation."""
    try:
        return f(*a, **k)
    except RecursionError as ex:
        E.fail(label + ': raised RecursionError')
    except Exception as ex:
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)
        where = [('%s:%d' % (fr.filename.split('/')[-1], fr.lineno)) for fr in tb[-3:]]
        E.fail(label + ': raised %s' % type(ex).__name__, {'msg': str(ex)[:200], 'at': where})


def raises(E, f, *a, **k):
    """The exception code under test raises, or None."""
    try:
        f(*a, **k)
    except Exception as ex:
        return ex
    return None


# ---------------------------------------------------------------- decoding
_BT = str.maketrans('fjg', '[,]')


def parse_name(s):
    import ast
    t = s.translate(_BT)
    if not t.startswith('S'):
        return None
    try:
        v = ast.literal_eval(t[1:])
    except (ValueError, SyntaxError):
        return None
    return core.detok(v)


def to_expr(x):
    import sympy
    if hasattr(x, 'expr') and not isinstance(x, sympy.Basic):
        return x.expr
    if hasattr(x, 'symbol') and callable(x.symbol) and not isinstance(x, sympy.Basic):
        return x.symbol()
    if is_sym(x):
        raise BadResult('bare symbolic number')
    return sympy.sympify(x)


class T:
    """One term: integer coefficient, exponents of (q, q1, q2), parts."""
    __slots__ = ('c', 'd', 'p')

    def __init__(self, c, d, p):
        self.c, self.d, self.p = c, d, p

    def __repr__(self):
        return '%r*q%r*S%r' % (self.c, self.d, self.p)


QN = ('q', 'q1', 'q2')


def decode(x, classes=True, coef='int'):
    """Terms of a linear combination; raises BadResult on anything else."""
    import sympy
    e = sympy.expand(to_expr(x))
    out = []
    for term in sympy.Add.make_args(e):
        if term == 0:
            continue
        c, rest = term.as_coeff_mul()
        d = [0, 0, 0]
        part = None
        for f in rest:
            base, ex = f.as_base_exp()
            if base.is_Symbol and base.name in QN:
                if not (ex.is_Integer and ex > 0):
                    raise BadResult('bad power in %s' % term)
                d[QN.index(base.name)] += int(ex)
                continue
            if base.is_Symbol and ex == 1:
                p = parse_name(base.name)
                if p is not None and part is None:
                    part = p
                    continue
            raise BadResult('not a linear term: %s' % term)
        if coef == 'int':
            if not c.is_Integer:
                raise BadResult('coefficient %s is not an integer' % c)
            c = int(c)
        if part is None and classes:
            part = []       # a bare number stands for a multiple of the unit
            raise BadResult('term %s carries no class' % term)
        out.append(T(c, tuple(d), part))
    return out


def terms(E, label, x, **k):
    try:
        return decode(x, **k)
    except BadResult as ex:
        E.fail(label + ': malformed result', {'why': str(ex)[:300]})


def pad(p, n):
    return list(p) + [0] * (n - len(p))


def same_part(p, nu):
    """p (concrete length) equals nu up to trailing zeros, as a formula."""
    n = max(len(p), len(nu))
    return Eq(pad(p, n), pad(nu, n))


def coef_at(ts, nu, d=(0, 0, 0), exact=False):
    """Coefficient of q^d S_nu in decoded terms (nu may be symbolic)."""
    r = 0
    for t in ts:
        if t.d == d:
            r = r + If(Eq(list(t.p), list(nu)) if exact else same_part(t.p, nu), t.c, 0)
    return r


def size(p):
    return Sum(p)


def show(ts):
    return {'terms': [[t.c, list(t.d), list(t.p)] for t in ts]}


def is_canonical(p, typ='A', k=0):
    """Weakly decreasing, non-negative, no trailing zero (D: one marking type 2)."""
    p = list(p)
    ok = And(*[p[i] >= p[i + 1] for i in range(len(p) - 1)])
    if not p:
        return ok
    if typ != 'D':
        return And(ok, p[-1] > 0)
    body = p[:-1]
    marked = And(p[-1] == 0, Or(*[x == k for x in body]), *( [body[-1] > 0] if body else [False]))
    if k == 0:
        marked = False
    return And(ok, Or(p[-1] > 0, marked))


def is_kstrict(p, k):
    return And(*[Or(p[i] > p[i + 1], p[i] <= k) for i in range(len(p) - 1)])


# ---------------------------------------------------------------- symbolic inputs
def sym_part(E, name, rows, cols, lo=0):
    """An arbitrary partition with `rows` rows (zeros allowed) and parts <= cols."""
    ps = []
    for i in range(rows):
        x = E.var('%s%d' % (name, i), lo, cols if isinstance(cols, int) and not is_sym(cols) else None)
        if i:
            E.assume(ps[-1] >= x)
        elif is_sym(cols):
            E.assume(x <= cols)
        ps.append(x)
    return ps


def clip(E, p):
    """Drop trailing zeros (forking on which parts are zero)."""
    p = list(p)
    while p and p[-1] == 0:
        p = p[:-1]
    return p


def sym_kstrict(E, name, rows, cols, k):
    p = sym_part(E, name, rows, cols)
    E.assume(is_kstrict(p, k))
    return p


def sym_class(E, typ, name, rows, cols, k):
    """An arbitrary Schubert class index (canonical list) of the given type.

    Type D: an extra boolean chooses between type 1 and type 2 when k occurs."""
    p = sym_part(E, name, rows, cols)
    if typ != 'A':
        E.assume(is_kstrict(p, k))
    c = clip(E, p)
    if typ == 'D' and k > 0:
        if Or(*[x == k for x in c]) if c else False:
            if E.var(name + '_t2', 0, 1) == 1:
                c = c + [0]
    return c


def box(typ, m, N):
    """(rows, cols, k, n) of the Grassmannian of m-planes in N-space."""
    if typ == 'A':
        return m, N - m, N - m, N
    if typ == 'C':
        n = N // 2
        k = n - m
        return n - k, n + k, k, n
    if typ == 'B':
        n = (N - 1) // 2
        k = n - m
        return n - k, n + k, k, n
    n = N // 2 - 1
    k = n + 1 - m
    return n + 1 - k, n + k, k, n


def space(sp, typ, m, N):
    if typ == 'A':
        return sp.Grassmannian(m, N)
    if typ == 'C':
        return sp.IsotropicGrassmannian(m, N)
    return sp.OrthogonalGrassmannian(m, N)


def parts_in_box(rows, cols, k=None):
    """All (k-strict) partitions in a concrete box, padded to `rows`."""
    def rec(i, top):
        if i == rows:
            yield []
            return
        for x in range(top, -1, -1):
            if k is not None and i and x == top and x > k and pre[-1] == x:
                continue
            pre.append(x)
            for r in rec(i + 1, x):
                yield [x] + r
            pre.pop()
    pre = []
    yield from rec(0, cols)


def forall_part(E, tag, rows, cols, k, body):
    """Assert body(nu) -> [(label, cond, info)] for every (k-strict) partition nu
    in the box.  Symbolically nu is one vector of solver variables."""
    if E.symbolic and not E.concretize_inputs:
        nu = []
        for i in range(rows):
            x = E.var('%s%d' % (tag, i), 0, cols if not is_sym(cols) else None)
            if i:
                E.assume(nu[-1] >= x)
            elif is_sym(cols):
                E.assume(x <= cols)
            nu.append(x)
        if k is not None:
            E.assume(is_kstrict(nu, k))
        for label, cond, info in body(nu):
            E.check(label, cond, info)
        return
    given = [E.given.get('%s%d' % (tag, i)) for i in range(rows)] if not E.symbolic else [None]
    if rows and all(x is not None for x in given):
        lst = [given]
        for i in range(rows):
            E.var('%s%d' % (tag, i), 0, cols)
    else:
        lst = parts_in_box(rows, cols, k)
    for nu in lst:
        for label, cond, info in body(list(nu)):
            E.check(label, cond, info)


# ---------------------------------------------------------------- Pieri rules
def hstrip(lam, mu):
    """mu/lam is a horizontal strip (lists of equal length)."""
    cs = []
    for i in range(len(lam)):
        cs.append(mu[i] >= lam[i])
        if i + 1 < len(lam):
            cs.append(lam[i] >= mu[i + 1])
    return And(*cs)


def specA(lam, p, mu, k):
    """Coefficient of S_mu in S_p * S_lam in Gr(rows, rows+k)."""
    c = And(size(mu) == size(lam) + p, hstrip(lam, mu), mu[0] <= k if mu else True)
    return If(c, 1, 0)


def specA_q(lam, p, nu, k):
    """Coefficient of q S_nu in the quantum product S_p * S_lam (Bertram)."""
    m = len(lam)
    if m == 0:
        return 0
    n = m + k
    cs = [size(nu) == size(lam) + p - n]
    for i in range(m):
        cs.append(lam[i] - 1 >= nu[i])
        if i + 1 < m:
            cs.append(nu[i] >= lam[i + 1] - 1)
    cs.append(nu[m - 1] >= 0)
    return If(And(*cs), 1, 0)


class BKT:
    """The Pieri coefficients of Buch, Kresch and Tamvakis for k-strict
    partitions lam -> mu, stated box by box (rows x cols box, all concrete
    sizes; the parts may be symbolic).

    d = 0: types B and C;  d = 1: type D (k'-related boxes)."""

    def __init__(self, lam, mu, k, cols, d):
        self.k, self.d = k, d
        rows = max(len(lam), len(mu))
        self.R, self.C = rows, cols
        L, M = pad(lam, rows), pad(mu, rows)
        self.lam, self.mu = L, M
        inl = lambda r, c: L[r - 1] >= c if 1 <= r <= rows else (r == 0)
        inm = lambda r, c: M[r - 1] >= c if 1 <= r <= rows else (r == 0)
        self.add = {}                # boxes of mu \ lam
        for r in range(1, rows + 1):
            for c in range(1, cols + 1):
                self.add[r, c] = And(inm(r, c), Not(inl(r, c)))
        self._rel = {}
        ok = [M[r] >= M[r + 1] for r in range(rows - 1)]
        # lam ∩ mu =: nu ; nu obtained by removing a vertical strip from the
        # first k columns of lam ; mu/nu a horizontal strip
        for r in range(1, rows + 1):
            ok.append(M[r - 1] >= L[r - 1] - 1)
            ok.append(Implies(M[r - 1] < L[r - 1], L[r - 1] <= k))
            if r < rows:
                ok.append(M[r] <= Min(L[r - 1], M[r - 1]))
        mentioned = {}
        for c in range(1, k + 1):
            for r in range(0, rows + 1):
                # box (r,c) is the bottom box of column c in mu (r=0: empty)
                nxt_m = inm(r + 1, c) if r < rows else False
                nxt_l = inl(r + 1, c) if r < rows else False
                bottom_m = And(inm(r, c), Not(nxt_m))
                bottom_l = And(inl(r, c), Not(nxt_l))
                rel = self.related(r, c)
                cnt = Count(self.add[b] for b in rel)
                same = And(bottom_m, bottom_l)
                ok.append(Implies(same, cnt <= 1))
                # column got shorter: bottom box of mu, and each removed box
                removed = And(inl(r, c), Not(inm(r, c))) if r else False
                fewer_bottom = And(bottom_m, nxt_l)
                need = Or(removed, fewer_bottom)
                ok.append(Implies(need, cnt == 1))
                for b in rel:
                    mentioned.setdefault(b, []).append(Or(same, need))
            # same row
            for r in range(0, rows):
                # both (r,c) and (r+1,c) belong to {bottom of mu} + removed
                inr = Or(And(inl(r, c), Not(inm(r, c))) if r else False,
                         And(inm(r, c), Not(inm(r + 1, c)), inl(r + 1, c)))
                below = And(inl(r + 1, c), Not(inm(r + 1, c)))
                a, b = self.related(r, c), self.related(r + 1, c)
                for x in a:
                    for y in b:
                        if x[0] != y[0]:
                            ok.append(Implies(And(inr, below, self.add[x], self.add[y]), False))
        self.ok = And(*ok)
        # A: boxes of mu\lam in columns > k not mentioned
        self.A = {}
        for r in range(1, rows + 1):
            for c in range(k + 1, cols + 1):
                self.A[r, c] = And(self.add[r, c], Not(Or(*mentioned.get((r, c), [False]))))

    def related(self, r, c):
        """Boxes (r',c') with c' > k related to (r,c), c <= k."""
        s = r + self.k - c + 2 - self.d
        return [(s - j, self.k + j) for j in range(1, self.C - self.k + 1)
                if 1 <= s - j <= self.R]

    def components(self, skip_first):
        """Number of connected components (sharing a vertex) of A; with
        skip_first only those without a box in column k+1.

        mu/lam is a horizontal strip in columns > k, so reading columns from
        left to right each column has at most one box of A, rows weakly
        decrease, and components are maximal runs of columns whose boxes touch."""
        k = self.k
        n = 0
        for c in range(k + 1, self.C + 1):
            here = Or(*[self.A[r, c] for r in range(1, self.R + 1)]) if self.R else False
            if c == k + 1:
                n = n + (0 if skip_first else If(here, 1, 0))
                # a component starting in column k+1 is the one to skip
                continue
            touch = Or(*[And(self.A[r, c], self.A[s, c - 1])
                         for r in range(1, self.R + 1) for s in range(max(1, r - 1), min(self.R, r + 1) + 1)])
            n = n + If(And(here, Not(touch)), 1, 0)
        return n


def _pow2(e, hi):
    """2**e for 0 <= e <= hi; 0 when e is negative (callers treat e = -1 apart)."""
    r = 0
    for j in range(hi + 1):
        r = r + If(e == j, 2 ** j, 0)
    return r


def spec_C(lam, p, mu, k, cols):
    b = BKT(lam, mu, k, cols, 0)
    n = b.components(True)
    return If(And(b.ok, is_kstrict(mu, k), size(mu) == size(lam) + p), _pow2(n, b.R + 1), 0)


def spec_B(lam, p, mu, k, cols):
    b = BKT(lam, mu, k, cols, 0)
    n = b.components(False)
    e = n - If(p > k, 1, 0)
    return If(And(b.ok, is_kstrict(mu, k), size(mu) == size(lam) + p), _pow2(e, b.R + 1), 0)


def spec_D(lam, tlam, p, mu, tmu, k, cols):
    """Coefficient of the class (mu, type tmu) in tau_p * (lam, type tlam);
    p < 0 is the second special class of codimension k.  tmu: 0, 1, 2."""
    b = BKT(lam, mu, k, cols, 1)
    n = b.components(False)
    ap = Max(p, -p) if is_sym(p) else abs(p)
    e = n - If(ap >= k, 1, 0)
    kin = Or(*[x == k for x in mu]) if k > 0 else False
    if k == 0:
        kin = False
    # which type labels mu may carry
    if tmu == 0:
        tyok = Not(kin)
    else:
        tyok = kin
    plain = If(Or(Not(kin), tlam == 0, tlam == tmu), _pow2(e, b.R + 1), 0) if tmu else _pow2(e, b.R + 1)
    # tie: N' = 0 and |p| = k (e = -1)
    cnt = 0
    for c in range(1, k + 1):
        has_m = Count(x >= c for x in mu)
        has_l = Count(x >= c for x in lam)
        cnt = cnt + If(has_m > has_l, 1, 0)
    par = (k + tlam + If(p < 0, 1, 0) - cnt) % 2
    if tmu == 0:
        tie = If(par == 0, 0, 1) if not (k == 0) else 1
    elif tlam == 0:
        tie = If(par == 0, 1 if tmu == 1 else 0, 1 if tmu == 2 else 0)
    else:
        tie = If(par == 0, 0, 1) if tlam == tmu else 0
    val = If(e >= 0, plain, If(e == -1, tie, 0))
    return If(And(b.ok, is_kstrict(mu, k), size(mu) == size(lam) + ap, tyok), val, 0)


# ---------------------------------------------------------------- comparing results
def _anysym(ts):
    return any(is_sym(x) for t in ts for x in t.p)


def as_dict(ts):
    d = {}
    for t in ts:
        k = (t.d, tuple(t.p))
        d[k] = d.get(k, 0) + t.c
    return {k: v for k, v in d.items() if v != 0}


def check_same(E, label, t1, t2, info=None):
    """Two decoded linear combinations are equal (as linear combinations of
    lists: [2] and [2,0] are different classes)."""
    if not _anysym(t1) and not _anysym(t2):
        E.check(label, as_dict(t1) == as_dict(t2), info if info is not None else (show(t1), show(t2)))
        return
    E.check(label, equal_lc(t1, t2), info)


def equal_lc(t1, t2):
    """The formula saying two decoded combinations are equal: at every class
    that occurs in either, the coefficients agree."""
    allt = [(t, 1) for t in t1] + [(t, -1) for t in t2]
    cs = []
    for u, _ in allt:
        s = 0
        for t, sg in allt:
            if t.d == u.d and len(t.p) == len(u.p):
                s = s + If(Eq(list(t.p), list(u.p)), sg * t.c, 0)
        cs.append(s == 0)
    return And(*cs)


def scale_terms(ts, c, d=(0, 0, 0)):
    return [T(t.c * c, tuple(x + y for x, y in zip(t.d, d)), t.p) for t in ts]


def mono(d):
    """The sympy monomial q^a q1^b q2^c."""
    import sympy
    q, q1, q2 = sympy.symbols('q q1 q2')
    return q ** d[0] * q1 ** d[1] * q2 ** d[2]


def fresh_copy():
    """An independent copy of the package: new modules, no history."""
    import importlib
    import sys
    saved = {n: m for n, m in sys.modules.items() if n == 'schubertpy' or n.startswith('schubertpy.')}
    for n in saved:
        del sys.modules[n]
    try:
        return importlib.import_module('schubertpy')
    finally:
        for n in [n for n in sys.modules if n == 'schubertpy' or n.startswith('schubertpy.')]:
            del sys.modules[n]
        sys.modules.update(saved)


def classes_of(typ, m, N):
    """Every Schubert class of the space, as lists."""
    rows, cols, k, n = box(typ, m, N)
    out = []
    for p in parts_in_box(rows, cols, None if typ == 'A' else k):
        c = [x for x in p if x]
        out.append(c)
        if typ == 'D' and k > 0 and k in c:
            out.append(c + [0])
    return out


# spaces with few classes, used by the product-level properties
def n_classes(typ, m, N):
    rows, cols, k, n = box(typ, m, N)
    c = 0
    for p in parts_in_box(rows, cols, None if typ == 'A' else k):
        c += 2 if typ == 'D' and k > 0 and k in p else 1
    return c


def spaces_upto(limit, types='ABCD', maxN=12):
    out = []
    for typ in types:
        for N in range(1, maxN + 1):
            for m in range(1, N + 1):
                if typ == 'A':
                    if m >= N:
                        continue
                elif typ == 'C':
                    if N % 2 or m > N // 2:
                        continue
                elif typ == 'B':
                    if N % 2 == 0 or m > (N - 1) // 2 or N < 3:
                        continue
                else:
                    if N % 2 or m > N // 2 or N < 4:
                        continue
                if box(typ, m, N)[0] * box(typ, m, N)[1] > 60:
                    continue
                if n_classes(typ, m, N) <= limit:
                    out.append((typ, m, N))
    return out


NAMES = {'A': 'Gr', 'B': 'OG', 'C': 'IG', 'D': 'OG'}


def sname(typ, m, N):
    return '%s(%d,%d)' % (NAMES[typ], m, N)


def class_input(E, typ, m, N, name):
    """An arbitrary Schubert class (list) of the space; its codimension."""
    rows, cols, k, n = box(typ, m, N)
    p = []
    for i in range(rows):
        x = E.var('%s%d' % (name, i), 0, cols)
        if i:
            E.assume(p[-1] >= x)
            if typ != 'A':
                E.assume(Or(p[-1] > x, x <= k))
        p.append(x)
    c = clip(E, p)
    sz = Sum(c)
    if typ == 'D' and k > 0 and c:
        t2 = E.var(name + '_t2', 0, 1)
        if Or(*[x == k for x in c]):
            if t2 == 1:
                c = c + [0]
        else:
            E.assume(t2 == 0)
    return c, sz


def special_input(E, typ, m, N, name):
    """(number passed to pieri, class list) of an arbitrary special class."""
    rows, cols, k, n = box(typ, m, N)
    if typ == 'D' and k > 0:
        p = E.var(name, -k, n + k)
        E.assume(Or(p == -k, p >= 1))
        if p < 0:
            return p, [k, 0]
        return p, [p]
    p = E.var(name, 1, cols)
    return p, [p]


def check_terms_valid(E, label, ts, typ, m, N, quantum):
    """Every term is q-monomial times a Schubert class of the space."""
    rows, cols, k, n = box(typ, m, N)
    for t in ts:
        body = t.p
        if typ == 'D' and len(t.p) and k > 0 and (t.p[-1] == 0):
            body = t.p[:-1]
        okd = (t.d == (0, 0, 0)) if not quantum else \
            ((t.d[0] == 0) if (typ == 'D' and k == 1) else (t.d[1] == 0 and t.d[2] == 0))
        E.check(label, And(okd, len(body) <= rows, is_canonical(t.p, typ, k),
                           is_kstrict(body, k) if typ != 'A' else True, body[0] <= cols if body else True), t)


def deg_q(typ, m, N):
    rows, cols, k, n = box(typ, m, N)
    if typ == 'A':
        return n
    if typ == 'C':
        return n + 1 + k
    return 2 * n if k == 0 else n + k


def degree(t, dq):
    return Sum(t.p) + dq * sum(t.d)
