"""C25: multiplication tables hold the products."""
import contextlib
import io
import re
import warnings

from .ring import *

BOUNDS = 'the spaces listed per configuration: every row, every column'
ASSUMPTIONS = ['inputs are Schubert classes of the space']


def configs(tier):
    out = []
    for c in ring_configs(13 if tier == 'quick' else 24, 8, split=99, extra=[('A', 2, 6), ('A', 4, 6)] if tier == 'quick' else [('A', 3, 7)]):
        for q in (0, 1):
            out.append(dict(c, name=('QMultTable ' if q else 'MultTable ') + c['name'], q=q))
    return out


def run(E, sp, cfg):
    typ, m, N = cfg['typ'], cfg['m'], cfg['N']
    g = call(E, 'constructor', space, sp, typ, m, N)
    lam, sl = first_class(E, cfg)
    op = 'qmult' if cfg['q'] else 'mult'
    tab = call(E, 'table', (sp.QMultTable if cfg['q'] else sp.MultTable), g)
    rows, cols = [list(x.p) for x in tab.df.index], [list(x.p) for x in tab.df.columns]
    cl = [list(x.p) for x in call(E, 'schub_classes', g.schub_classes)]
    E.check('rows and columns are labelled by the classes', sorted(rows) == sorted(cl) and rows == cols, (rows, cols))
    mat = call(E, 'to_matrix', tab.to_matrix)
    E.check('square', len(mat) == len(cl) and all(len(r) == len(cl) for r in mat))
    i = [j for j, x in enumerate(rows) if len(x) == len(lam) and bool(Eq(x, list(lam)))]
    E.check('each class labels exactly one row', len(i) == 1 and len(cols) == len({tuple(c) for c in cols}), lam)
    i = i[0]
    for j, mu in enumerate(cols):
        want = terms(E, op, call(E, op, getattr(g, op), list(lam), list(mu)))
        E.outcome = show(want)
        for label, e in (('matrix entry', mat[i][j]), ('table entry', tab.df.iat[i, j]),
                         ('labelled entry', tab.df.loc[sp.Schur(rows[i]), sp.Schur(mu)])):
            check_same(E, label + ' is the product', terms(E, label, e), want)
    shown = call(E, 'str', str, tab)
    E.check('the table prints', isinstance(shown, str) and 'S[' in shown)
    with wide():
        forms = [('str', call(E, 'str', str, tab)), ('repr', call(E, 'repr', repr, tab))]
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            call(E, 'print', tab.print)
        forms.append(('print', buf.getvalue()))
    for label, text in forms:
        ls = [re.split(r'\s{2,}', x.strip()) for x in text.rstrip('\n').split('\n')]
        E.check(label + ': a line per class below the heading', len(ls) == len(cl) + 1 and ls[0] == [str(sp.Schur(c)) for c in cols], text)
        row = ls[1 + i]
        E.check(label + ': the line is labelled', row[0] == str(sp.Schur(rows[i])), row)
        E.check(label + ': an entry per column', len(row) == len(cols) + 1, row)
        for j, mu in enumerate(cols):
            check_same(E, label + ': the printed entry is the product', terms(E, label, sp.LinearCombination(row[j + 1])), terms(E, label, mat[i][j]))


@contextlib.contextmanager
def wide():
    import pandas
    with pandas.option_context('display.max_rows', None, 'display.max_columns', None, 'display.width', 10 ** 6, 'display.max_colwidth', None):
        yield
