"""C30: CSV comparison of multiplication data."""
from symex.lib import *
import csv
import importlib
import os
import shutil
import tempfile

BOUNDS = ('tables of up to the listed number of rows; labels S[a], S[a,b]; products of one or two terms with parts and '
          'coefficients in the listed ranges')
ASSUMPTIONS = ['files are real files in a scratch folder: parts and coefficients are written as text, so every path fixes the '
               'values it writes (solver-driven case split)']


def configs(tier):
    q = tier == 'quick'
    out = []
    for what in ('reordered', 'rewritten', 'labels', 'blank', 'coefficient', 'part', 'extra', 'duplicate', 'junk', 'power', 'constant'):
        for r in (1, 2) if q else (1, 2, 3):
            out.append({'name': '%s %d' % (what, r), 'what': what, 'rows': r, 'hi': 2 if q else 3, 'weight': 1 + r,
                        'bounds': '%d rows, parts up to %d' % (r, 2 if q else 3)})
    return out


def write(path, rows):
    with open(path, 'w', newline='') as f:
        w = csv.writer(f, delimiter=';')
        for r in rows:
            w.writerow(r)


def S(p):
    return 'S[' + ','.join(str(x) for x in p) + ']'


def expr(ts, style=0):
    """The terms as text, in one of several equivalent ways."""
    if style == 5:
        return factored(ts)
    if style == 6:
        return '2*(%s) - (%s)' % (expr(ts), factored(ts))
    out = []
    for c, q, p in (ts if style % 2 == 0 else ts[::-1]):
        b = '*'.join(['q' if q == 1 else 'q**%d' % q] * (q > 0) + [S(p)])
        if style >= 2 and c != 1:
            b = '*'.join([S(p)] + (['q**%d' % q] if q else [])) + '*(%d)' % c
        elif style == 4:
            b = '(%d*%s - %s)' % (2, b, b) if c == 1 else '%d*%s' % (c, b)
        else:
            b = '%d*%s' % (c, b)
        out.append(b)
    return ' + '.join(out)


def factored(ts):
    """q*(...) and (...)*2 wherever possible."""
    out = []
    for q in sorted({t[1] for t in ts}):
        inner = ' + '.join('%d*%s' % (c, S(p)) for c, q1, p in ts if q1 == q)
        out.append(('q**%d*(%s)' % (q, inner)) if q else '(%s)*1' % inner)
    return '+'.join(out)


def norm(rows):
    """What a row says: its labels and its polynomial."""
    s = set()
    for a, b, ts in rows:
        d = {}
        for c, q, p in ts:
            k = (q, tuple(p))
            d[k] = d.get(k, 0) + c
        s.add((a, b, frozenset((k, c) for k, c in d.items() if c)))
    return s


def run(E, sp, cfg):
    check = importlib.import_module('schubertpy.csv_bijection').check_bijection_with_permutation
    what, n, hi = cfg['what'], cfg['rows'], cfg['hi']

    def pick(name, lo, up):
        return E.var(name, lo, up).__index__()
    rows = []
    for i in range(n):
        a = [pick('a', 0, hi)] if i == 0 else [i]
        b = [1, 1] if i % 2 else [2]
        c1 = [1, 2, -1][pick('c', 0, 2)] if i == 0 else 1
        p = [pick('p', 1, hi), 1] if i == 0 else [2, 0]
        ts = [(c1, 0, p), (3, 1, [1]), (1, 1, [2])][:1 + 2 * (i == 0)]
        rows.append((S(a), S(b), ts))
    one = [(a, b, expr(ts)) for a, b, ts in rows]
    other, ways = list(rows), [0] * n
    extra_lines = []
    j = pick('j', 0, n - 1)
    a, b, ts = rows[j]
    if what == 'reordered':
        other = rows[::-1]
    elif what == 'rewritten':
        ways = [pick('w', 0, 6)] + [5] * (n - 1)
    elif what == 'labels':
        side = pick('side', 0, 2)
        other[j] = (b, a, ts) if side == 2 else (a, S([pick('lb', 0, hi)]), ts) if side else (S([pick('la', 0, hi)]), b, ts)
    elif what == 'blank':
        # one of the labels is left empty: still a row of the table, as long as the product is there
        side = pick('side', 0, 1)
        blank = lambda r, k: ('', r[1], r[2]) if k == 0 else (r[0], '', r[2])
        rows[j] = blank(rows[j], side)
        one[j] = rows[j][:2] + (expr(ts),)
        other[j] = rows[j] if pick('keep', 0, 1) else blank((a, b, ts), 1 - side)
        if pick('change', 0, 1):
            other[j] = other[j][:2] + ([(ts[0][0] + 1, ts[0][1], ts[0][2])] + ts[1:],)
    elif what == 'coefficient':
        other[j] = (a, b, [(pick('cc', -1, 3), ts[0][1], ts[0][2])] + ts[1:])
    elif what == 'part':
        other[j] = (a, b, [(ts[0][0], ts[0][1], [pick('pp', 0, hi), ts[0][2][1]])] + ts[1:])
        E.assume(other[j][2][0][2][0] >= ts[0][2][1])
    elif what == 'power':
        other[j] = (a, b, ts[:-1] + [(ts[-1][0], pick('qq', 0, 2), ts[-1][2])])
    elif what == 'extra':
        la = S([pick('la', 0, hi)])
        other = other + [(a, la, ts) if pick('side', 0, 1) else (la, b, ts)]
        ways = ways + [0]
    elif what == 'duplicate':
        other = other + [rows[j]]
        ways = ways + [pick('w', 0, 3)]
    elif what == 'junk':
        extra_lines = [[], ['', '', ''], ['S[1]', 'S[1]']][pick('junk', 0, 2):]
    two = [(x, y, expr(t, w)) for (x, y, t), w in zip(other, ways)]
    if what == 'constant':
        k = pick('k', -1, 2)
        one[j] = (a, b, str(k))
        two[j] = (a, b, str(pick('k2', -1, 2)))
        rows[j] = (a, b, [(k, 0, [])])
        other[j] = (a, b, [(int(two[j][2]), 0, [])])
    d = tempfile.mkdtemp(prefix='verif_c30_')
    try:
        f1, f2 = os.path.join(d, '1.csv'), os.path.join(d, '2.csv')
        write(f1, one)
        write(f2, extra_lines[:1] + two + extra_lines[1:])
        got = call(E, 'compare', check, f1, f2)
        back = call(E, 'compare', check, f2, f1)
    finally:
        shutil.rmtree(d)
    E.outcome = bool(got)
    same = norm(rows) == norm(other)
    E.check('equal exactly when both files hold the same rows', bool(got) == same, (one, two))
    E.check('symmetric', bool(back) == same, (one, two))
