"""Shared by C03-C08: Pieri rules of isotropic and orthogonal Grassmannians."""
from symex.lib import *


def lam_input(E, typ, cfg):
    rows, cols, k, n = box(typ, cfg['m'], cfg['N'])
    lam = []
    for i in range(cfg['len']):
        x = E.var('l%d' % i, 1, cols)
        if i:
            E.assume(lam[-1] >= x)
        lam.append(x)
    E.assume(is_kstrict(lam, k))
    tlam = 0
    arg = list(lam)
    if typ == 'D' and k > 0:
        has = Or(*[x == k for x in lam]) if lam else False
        t2 = E.var('type2', 0, 1)
        E.assume(Implies(t2 == 1, has))
        if has:
            if t2 == 1:
                tlam, arg = 2, arg + [0]
            else:
                tlam = 1
    return lam, arg, tlam


def p_input(E, typ, cfg):
    rows, cols, k, n = box(typ, cfg['m'], cfg['N'])
    if 'p' in cfg:
        return cfg['p']
    p = E.var('p', -k if typ == 'D' and k > 0 else 1, n + k)
    if typ == 'D' and k > 0:
        E.assume(Or(p == -k, p >= 1))
    return p


def spec_at(typ, lam, tlam, p, nu, k, cols):
    """[(label of nu's type, exact class list, coefficient)]"""
    if typ == 'C':
        return [(0, spec_C(lam, p, nu, k, cols))]
    if typ == 'B':
        return [(0, spec_B(lam, p, nu, k, cols))]
    return [(t, spec_D(lam, tlam, p, nu, t, k, cols)) for t in ((0, 1, 2) if k > 0 else (0,))]


def type_of(E, p, k):
    """0/1/2 of a decoded class list in type D (list shape decides)."""
    if k == 0:
        return 0
    if len(p) and p[-1] == 0:
        return 2
    return None      # 0 or 1 according to whether k occurs


def coefD(ts, nu, tmu, k, d=(0, 0, 0)):
    """Coefficient of the class with partition nu and type tmu."""
    r = 0
    for t in ts:
        if t.d != d:
            continue
        two = len(t.p) > 0 and (t.p[-1] == 0)
        if is_sym(two):
            two = bool(two)
        body = t.p[:-1] if two else t.p
        kin = Or(*[x == k for x in body]) if (body and k > 0) else False
        if two:
            ok = (tmu == 2)
        else:
            ok = Iff(kin, tmu == 1) if tmu in (0, 1) else False
        r = r + If(And(ok, same_part(body, nu)), t.c, 0)
    return r


def coef(typ, ts, nu, tmu, k, d=(0, 0, 0)):
    if typ == 'D':
        return coefD(ts, nu, tmu, k, d)
    return coef_at(ts, nu, d)


def check_classes(E, typ, ts, rows, cols, k, ds):
    for t in ts:
        body = t.p[:-1] if (typ == 'D' and len(t.p) and k > 0 and (t.p[-1] == 0)) else t.p
        E.check('result terms are Schubert classes of the space',
                And(t.d in ds, len(body) <= rows, is_canonical(t.p, typ, k), is_kstrict(body, k),
                    body[0] <= cols if body else True), t)


def mk_configs(typ, spaces, name, split=None):
    out = []
    for m, N in spaces:
        rows, cols, k, n = box(typ, m, N)
        for ln in range(0, (rows if k else min(rows, cols)) + 1):
            firsts = [None]
            if split and ln >= 1 and (rows * cols >= split):
                firsts = list(range(1 if k else ln, cols + 1))
            for f in firsts:
                out.append({'name': '%s(%d,%d) len=%d%s' % (name, m, N, ln, '' if f is None else ' first=%d' % f),
                            'typ': typ, 'm': m, 'N': N, 'len': ln, 'first': f, 'weight': rows * cols * ln,
                            'bounds': '%s(%d,%d): every class with %d rows%s, every special class'
                                      % (name, m, N, ln, '' if f is None else ' and first part %d' % f)})
    return out


def full_configs(typ, spaces, name, ps):
    """Spaces with many rows: the classes with a full first column, a few special classes."""
    out = []
    for m, N in spaces:
        rows, cols, k, n = box(typ, m, N)
        for f in range(max(1, rows if k == 0 else 1), cols + 1):
            for p in ps:
                p = p if p < 90 else cols - (99 - p)   # 99: the longest special class, 98: the one before
                out.append({'name': '%s(%d,%d) full first=%d p=%d' % (name, m, N, f, p), 'typ': typ, 'm': m, 'N': N, 'len': rows,
                            'first': f, 'p': p, 'weight': 2 ** f,
                            'bounds': '%s(%d,%d): every class with %d rows and first part %d, special class %d' % (name, m, N, rows, f, p)})
    return out


def run_classical(E, sp, cfg):
    typ = cfg['typ']
    rows, cols, k, n = box(typ, cfg['m'], cfg['N'])
    lam, arg, tlam = lam_input(E, typ, cfg)
    if cfg.get('first') is not None:
        E.assume(lam[0] == cfg['first'])
    p = p_input(E, typ, cfg)
    g = call(E, 'constructor', space, sp, typ, cfg['m'], cfg['N'])
    r = call(E, 'pieri', g.pieri, p, list(arg))
    ts = terms(E, 'pieri', r)
    E.outcome = show(ts)
    check_classes(E, typ, ts, rows, cols, k, ((0, 0, 0),))
    L = pad(lam, rows)

    def body(nu):
        return [('coefficient follows the Pieri rule' + (' (type %d)' % t if typ == 'D' else ''),
                 coef(typ, ts, nu, t, k) == s, None)
                for t, s in spec_at(typ, L, tlam, p, nu, k, cols)]
    forall_part(E, 'nu', rows, cols, k, body)


# ---------------------------------------------------------------- quantum
def length(nu):
    return Count(x >= 1 for x in nu)


def hooked(nu, l, first, rows):
    """(first, nu_1..nu_l, 1, ..., 1) with `rows` rows."""
    return [first] + list(nu[:l]) + [1] * (rows - 1 - l)


def swap_t(t):
    return (0, 2, 1)[t]


def quantum_spec(typ, lam, tlam, p, nu, t, k, n, rows, cols):
    """{exponents of (q,q1,q2): (scale, scale * coefficient of that q-monomial times nu of type t)}"""
    out = {}
    top = lam[0] if lam else 0
    full = (lam[rows - 1] >= 1) if rows else False
    if typ == 'C':
        out[1, 0, 0] = (2, spec_C(list(lam) + [0], p, [cols + 1] + list(nu), k, cols + 1))
        return out
    if typ == 'B':
        if k == 0:
            out[1, 0, 0] = (1, If(top == cols, spec_B(list(lam[1:]) + [0], p, [cols] + list(nu), 0, cols), 0))
            return out
        tot = 0
        for l in range(rows + 1):
            mu = hooked(nu, l, l + 2 * k, rows + 1)
            tot = tot + If(And(full, length(nu) == l), spec_B(list(lam) + [0], p, mu, k, cols + 1), 0)
        out[1, 0, 0] = (1, tot)
        out[2, 0, 0] = (1, If(top == cols, spec_B(list(lam[1:]) + [0], p, [cols] + list(nu), k, cols), 0))
        return out
    star = If(top == cols, spec_D(list(lam[1:]) + [0], tlam, p, [cols] + list(nu), t, k, cols), 0)
    if k == 0:
        out[1, 0, 0] = (1, star)
        return out
    if k == 1:
        out[0, 1, 1] = (1, star)
        ap = Max(p, -p) if is_sym(p) else abs(p)
        lbar = [Max(x - 1, 0) for x in lam] + [0]
        sig = [length(nu)] + [Max(x - 1, 0) for x in nu]
        dec = And(*[sig[i] >= sig[i + 1] for i in range(len(sig) - 1)])
        base = If(And(full, dec),
                  If(ap == 1, If(Eq(lbar, sig), 1, 0), spec_D(lbar, 0, ap - 1, sig, 0, 0, n)), 0)
        empty = length(nu) == 0
        out[0, 1, 0] = (1, If(And(tlam != 2, p > 0, Or(And(t == 2, Not(empty)), And(t == 0, empty))), base, 0))
        out[0, 0, 1] = (1, If(And(tlam != 1, Or(p == -1, p > 1), Or(And(t == 1, Not(empty)), And(t == 0, empty))), base, 0))
        return out
    tot = 0
    for l in range(rows + 1):
        mu = hooked(nu, l, l + 2 * k - 1, rows + 1)
        tot = tot + If(And(full, length(nu) == l), spec_D(list(lam) + [0], tlam, p, mu, swap_t(t), k, cols + 1), 0)
    out[1, 0, 0] = (1, tot)
    out[2, 0, 0] = (1, star)
    return out


def q_monomials(typ, k):
    if typ == 'C':
        return [(1, 0, 0)]
    if typ == 'B' or k >= 2:
        return [(1, 0, 0)] if k == 0 else [(1, 0, 0), (2, 0, 0)]
    return [(1, 0, 0)] if k == 0 else [(0, 1, 0), (0, 0, 1), (0, 1, 1)]


def run_quantum(E, sp, cfg):
    typ = cfg['typ']
    rows, cols, k, n = box(typ, cfg['m'], cfg['N'])
    lam, arg, tlam = lam_input(E, typ, cfg)
    if cfg.get('first') is not None:
        E.assume(lam[0] == cfg['first'])
    p = p_input(E, typ, cfg)
    g = call(E, 'constructor', space, sp, typ, cfg['m'], cfg['N'])
    r = call(E, 'qpieri', g.qpieri, p, list(arg))
    ts = terms(E, 'qpieri', r)
    E.outcome = show(ts)
    ds = [(0, 0, 0)] + q_monomials(typ, k)
    check_classes(E, typ, ts, rows, cols, k, ds)
    L = pad(lam, rows)

    def body(nu):
        out = []
        for t, s in spec_at(typ, L, tlam, p, nu, k, cols):
            out.append(('classical part follows the Pieri rule', coef(typ, ts, nu, t, k) == s, None))
            for d, (sc, v) in quantum_spec(typ, L, tlam, p, nu, t, k, n, rows, cols).items():
                c = coef(typ, ts, nu, t, k, d)
                out.append(('q%s%s%s part follows the quantum Pieri rule (type %d)' % (d + (t,)), c * sc == v, None))
        return out
    forall_part(E, 'nu', rows, cols, k, body)
