"""C08: quantum Pieri rule, even orthogonal Grassmannians OG(m, 2n+2)."""
from .pieri_iso import *

BOUNDS = 'the spaces listed per configuration; every typed k-strict partition, every special class'
ASSUMPTIONS = ['input classes are typed k-strict partitions in the rectangle of the space; special classes '
               'p = 1..n+k and, for k > 0, the second class of codimension k']


def configs(tier):
    if tier == 'quick':
        sp = [(1, 4), (2, 4), (1, 6), (2, 6), (3, 6), (1, 8), (2, 8), (3, 8), (4, 8), (1, 10), (2, 10), (3, 10),
              (4, 10), (5, 10), (1, 12), (2, 12), (3, 12), (4, 12), (5, 12), (6, 12)]
    else:
        sp = [(m, N) for N in range(4, 15, 2) for m in range(1, N // 2 + 1)] + [(2, 16), (3, 16), (8, 16), (2, 18)]
    return mk_configs('D', sp, 'QH OG', 20) + full_configs('D', [(8, 18)], 'QH OG', [1, -1, 2])


run = run_quantum
