"""C31: drawings show exactly the boxes of the partition."""
from symex.lib import *
import contextlib
import importlib
import io
import os
import re
import shutil
import tempfile

REAL_MATPLOTLIB = True
BOUNDS = 'partitions with the listed number of parts up to the listed size; sums of up to three classes with the listed coefficients'
ASSUMPTIONS = ['drawing loops over every box, so the engine splits over the sizes of the rows (solver-driven case split)']
COEF = [('1', ''), ('2', '2*'), ('-3', '-3*'), ('q', 'q*'), ('4*q', '4*q*'), ('-1', '-1*')]


def configs(tier):
    q = tier == 'quick'
    out = []
    for a in range(0, (8 if q else 9) + 1):
        hi = {0: 0, 1: 15, 2: 11, 3: 4, 4: 3, 5: 2, 6: 2, 7: 2}.get(a, 1) + (0 if q else 1)
        for what in ('text', 'latex', 'plot'):
            h = hi if what != 'plot' else min(hi, 4 if a < 3 else 2)
            out.append({'name': '%s %d' % (what, a), 'what': what, 'a': a, 'hi': h, 'weight': (h + 1) ** a,
                        'bounds': 'partitions with %d parts up to %d' % (a, h)})
    for lens in [(0,), (1,), (2,), (3,), (0, 1), (1, 1), (1, 2), (2, 2), (0, 2)] + ([(1, 2, 0), (1, 1, 1)] if q else [(2, 2, 1), (1, 2, 0), (3, 1, 1), (3, 2)]):
        hi = 3 if q or len(lens) > 2 else 4
        out.append({'name': 'combination %s' % (lens,), 'what': 'sum', 'lens': list(lens), 'hi': hi, 'weight': 40 * (hi + 1) ** sum(lens),
                    'bounds': 'sums of classes with %s parts up to %d' % (', '.join(map(str, lens)), hi)})
    out.append({'name': 'png', 'what': 'png', 'a': 2, 'hi': 2, 'weight': 50, 'bounds': 'partitions with 2 parts up to 2'})
    return out


def out_of(E, label, f, *a, **k):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        call(E, label, f, *a, **k)
    return b.getvalue()


def lines(s):
    return [l.rstrip() for l in s.split('\n')]


def block(p, label, height, wide):
    """A class of a drawn combination: coefficient on the first line, boxes to its right."""
    out = []
    for i in range(height):
        row = '[]' * (p[i] if i < len(p) else 0)
        out.append((label if i == 0 else ' ' * len(label)) + row + ' ' * (2 * wide - len(row)))
    return out


def vec(E, name, n, hi):
    p = []
    for i in range(n):
        x = E.var('%s%d' % (name, i), 0, hi)
        if i:
            E.assume(p[-1] >= x)
        p.append(x)
    return p


def boxes(p):
    return sorted((x, -y) for y, r in enumerate(p) for x in range(r))


def run(E, sp, cfg):
    what = cfg['what']
    if what == 'sum':
        return run_sum(E, sp, cfg)
    sym = vec(E, 'x', cfg['a'], cfg['hi'])
    p = [x.__index__() for x in sym]
    # matplotlib needs machine numbers
    s = sp.Schur(list(p) if what in ('plot', 'png') else list(sym))
    E.outcome = p
    if what == 'text':
        t = out_of(E, 'print_partition', s.print_partition)
        E.check('print_partition: a line of [ ] per row', lines(t) == ['[ ]' * r for r in p] + [''], t)
        t = out_of(E, 'yd', sp.yd, list(sym))
        E.check('yd: a line of [] per row', lines(t)[1:] == ['[]' * r for r in p] + [''], t)
        t = out_of(E, 'draw', sp.Partition(list(sym)).draw)
        E.check('Partition.draw: a line of [] per row', lines(t) == (['[]' * r for r in p] if p else ['0']) + [''], t)
        return
    if what == 'latex':
        t = call(E, 'latex', s.latex)
        st = call(E, 'latex_standalone', s.latex_standalone)
        for label, x in (('latex', t), ('latex_standalone', st)):
            E.check(label + ': one picture', x.count('\\begin{tikzpicture}') == 1 and x.count('\\end{tikzpicture}') == 1, x)
            body = x[x.find('\\begin{tikzpicture}'):x.find('\\end{tikzpicture}')]
            nodes = [(float(u), float(v)) for u, v in re.findall(r'\\node\s+at\s+\((-?[\d.]+)mm,\s*(-?[\d.]+)mm\)\s*\{\}', body)]
            E.check(label + ': one 5mm node per box, in place', sorted(nodes) == [(5.0 * a, 5.0 * b) for a, b in boxes(p)], x)
            E.check(label + ': the label names the partition', re.sub(r'\s', '', 'S_{%s}' % (tuple(p),)) in re.sub(r'\s', '', body), x)
        E.check('latex is a picture only', '\\documentclass' not in t and '\\begin{document}' not in t, t)
        E.check('latex_standalone is a whole document around the same picture',
                st.startswith('\\documentclass') and st.rstrip().endswith('\\end{document}') and st.count('\\begin{document}') == 1
                and st.find('\\begin{document}') < st.find(t) < st.find('\\end{document}'), st)
        return
    plt = importlib.import_module('matplotlib.pyplot')
    if what == 'png':
        d = tempfile.mkdtemp(prefix='verif_c31_')
        try:
            f = os.path.join(d, 'x.png')
            call(E, 'export_png', s.export_png, f)
            E.check('a PNG file is written', os.listdir(d) == ['x.png'] and open(f, 'rb').read(8) == b'\x89PNG\r\n\x1a\n')
            E.check('the figure is closed', plt.get_fignums() == [])
        finally:
            shutil.rmtree(d)
            plt.close('all')
        return
    try:
        fig, ax = call(E, 'plot_partition', s.plot_partition)
        got = sorted((float(b.get_x()), float(b.get_y())) for b in ax.patches)
        E.check('one rectangle per box, in place', got == [(float(a), float(b)) for a, b in boxes(p)], got)
        E.check('unit squares', all(float(b.get_width()) == 1 == float(b.get_height()) for b in ax.patches))
        texts = [re.sub(r'\s', '', t.get_text()) for t in ax.texts]
        E.check('the label names the partition', any(re.sub(r'\s', '', str(tuple(p))) in t for t in texts), texts)
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        E.check('every box is in view', all(x0 <= a and a + 1 <= x1 and y0 <= b and b + 1 <= y1 for a, b in boxes(p)), (x0, x1, y0, y1))
    finally:
        plt.close('all')


def run_sum(E, sp, cfg):
    ps, cs = [], []
    for i, n in enumerate(cfg['lens']):
        p = [x.__index__() for x in vec(E, 'xyz'[i], n, cfg['hi'])]
        E.assume(all(p != o for o in ps))
        ps.append(p)
        cs.append(COEF[E.var('c%d' % i, 0, len(COEF) - 1 if i == 0 else 3).__index__()])
    l = sp.LinearCombination('+'.join('(%s)*S%s' % (c[0], str(p).replace(' ', '')) for c, p in zip(cs, ps)))
    E.outcome = 1
    for inc in (True, False):
        t = out_of(E, 'draw_ascii_partition', l.draw_ascii_partition, inc)
        todo = sorted([(p, c) for p, c in zip(ps, cs) if inc or 'q' not in c[0]], key=lambda x: x[0])
        height = max([len(p) for p, _ in todo] + [1 if todo else 0])
        want = [''] * height
        for j, (p, c) in enumerate(todo):
            b = block(p, (' + ' if j else '') + c[1], height, p[0] if p else 0)
            want = [x + y for x, y in zip(want, b)]
        E.check('the terms are drawn side by side, each with its coefficient and exactly its boxes',
                lines(t) == [x.rstrip() for x in want] + [''] or (not todo and t.strip() == ''), (t, want))
