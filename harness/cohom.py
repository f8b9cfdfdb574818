"""The (quantum) cohomology ring computed from the Pieri rules of symex/lib.py
alone: plain numbers, exact linear algebra, none of the code under test."""
from fractions import Fraction

from symex.lib import box, classes_of, deg_q, pad, specA, specA_q
from .pieri_iso import q_monomials, quantum_spec, spec_at

_RINGS = {}


def ring(typ, m, N):
    if (typ, m, N) not in _RINGS:
        _RINGS[typ, m, N] = Ring(typ, m, N)
    return _RINGS[typ, m, N]


class Ring:
    def __init__(self, typ, m, N):
        self.typ, self.m, self.N = typ, m, N
        self.rows, self.cols, self.k, self.n = box(typ, m, N)
        self.cls = [tuple(c) for c in classes_of(typ, m, N)]
        self.index = {c: i for i, c in enumerate(self.cls)}
        self.deg = [sum(c) for c in self.cls]
        self.dq = deg_q(typ, m, N)
        self.bydeg = {}
        for i, d in enumerate(self.deg):
            self.bydeg.setdefault(d, []).append(i)
        self.specials = list(range(1, self.cols + 1))
        if typ == 'D' and self.k > 0:
            self.specials.append(-self.k)
        self._p, self._op = {}, {}
        self.expr = {}                 # class -> [(coefficient, special, class)], minus its q-terms
        self._solve()

    # ---- vectors: {(exponents of q, q1, q2), index of a class): coefficient}
    def split(self, c):
        if self.typ == 'D' and self.k > 0 and self.k in c:
            return (list(c[:-1]), 2) if c[-1] == 0 else (list(c), 1)
        return list(c), 0

    def pieri(self, p, i):
        """The special class p times class i."""
        if (p, i) in self._p:
            return self._p[p, i]
        lam, tl = self.split(self.cls[i])
        L = pad(lam, self.rows)
        out = {}
        top = self.deg[i] + abs(p)
        mons = [(1, 0, 0)] if self.typ == 'A' else q_monomials(self.typ, self.k)
        for d in [(0, 0, 0)] + mons:
            for j in self.bydeg.get(top - self.dq * sum(d), []):
                nu, t = self.split(self.cls[j])
                nu = pad(nu, self.rows)
                if self.typ == 'A':
                    v = specA_q(L, p, nu, self.k) if sum(d) else specA(L, p, nu, self.k)
                elif sum(d):
                    sc, v = quantum_spec(self.typ, L, tl, p, nu, t, self.k, self.n, self.rows, self.cols)[d]
                    v, r = divmod(int(v), sc)
                    assert r == 0
                else:
                    v = dict(spec_at(self.typ, L, tl, p, nu, self.k, self.cols))[t]
                if v:
                    out[d, j] = int(v)
        self._p[p, i] = out
        return out

    def _solve(self):
        """Each class of positive degree as a combination of special class
        times class of lower degree, modulo q."""
        for d in sorted(self.bydeg):
            if d == 0:
                continue
            cols = self.bydeg[d]
            basis = []                 # (pivot, row, how)
            for p in self.specials:
                for i in self.bydeg.get(d - abs(p), []):
                    row = {j: Fraction(v) for (e, j), v in self.pieri(p, i).items() if not any(e)}
                    how = {(p, i): Fraction(1)}
                    for piv, r, h in basis:
                        c = row.get(piv)
                        if c:
                            add(row, r, -c)
                            add(how, h, -c)
                    if not row:
                        continue
                    piv = min(row)
                    c = 1 / row[piv]
                    row = {a: v * c for a, v in row.items()}
                    how = {a: v * c for a, v in how.items()}
                    for b, (q, r, h) in enumerate(basis):
                        c = r.get(piv)
                        if c:
                            add(r, row, -c)
                            add(h, how, -c)
                    basis.append((piv, row, how))
            assert len(basis) == len(cols), 'the special classes generate the ring'
            for piv, row, how in basis:
                assert row == {piv: 1}
                self.expr[piv] = how

    def apply(self, i, vec):
        out = {}
        for (d, j), c in vec.items():
            for (e, l), v in self.product(i, j).items():
                x = (tuple(a + b for a, b in zip(d, e)), l)
                out[x] = out.get(x, 0) + c * v
        return {a: v for a, v in out.items() if v}

    def product(self, i, j):
        """Class i times class j."""
        if (i, j) in self._op:
            return self._op[i, j]
        if self.deg[i] == 0:
            out = {((0, 0, 0), j): 1}
        else:
            out = {}
            for (p, l), c in self.expr[i].items():
                # p * (class l * class j)
                for (d, x), v in self.product(l, j).items():
                    for (e, y), w in self.pieri(p, x).items():
                        a = (tuple(s + t for s, t in zip(d, e)), y)
                        out[a] = out.get(a, 0) + c * v * w
                # class i = sum c (p * class l) minus the q-terms of the same
                for (d, x), v in self.pieri(p, l).items():
                    if any(d):
                        for (e, y), w in self.product(x, j).items():
                            a = (tuple(s + t for s, t in zip(d, e)), y)
                            out[a] = out.get(a, 0) - c * v * w
            out = {a: v for a, v in out.items() if v}
            assert all(v == int(v) for v in out.values())
            out = {a: int(v) for a, v in out.items()}
        self._op[i, j] = out
        return out

    def times(self, a, b, quantum=True):
        """{(exponents, class): coefficient} of the product of two class lists."""
        r = self.product(self.index[tuple(a)], self.index[tuple(b)])
        return {(d, self.cls[j]): v for (d, j), v in r.items() if quantum or not any(d)}


def add(row, other, c):
    for a, v in other.items():
        x = row.get(a, 0) + c * v
        if x:
            row[a] = x
        else:
            row.pop(a, None)
