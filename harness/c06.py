"""C06: quantum Pieri rule, symplectic Grassmannians IG(m, 2n)."""
from .pieri_iso import *

BOUNDS = 'the spaces listed per configuration; every k-strict partition, every special class'
ASSUMPTIONS = ['input classes are k-strict partitions in the rectangle of the space; 1 <= p <= n + k']


def configs(tier):
    if tier == 'quick':
        sp = [(1, 2), (1, 4), (2, 4), (1, 6), (2, 6), (3, 6), (1, 8), (2, 8), (3, 8), (4, 8), (1, 10), (2, 10), (3, 10),
              (4, 10), (5, 10), (1, 12), (2, 12), (3, 12), (4, 12), (5, 12), (6, 12)]
    else:
        sp = [(m, N) for N in range(2, 15, 2) for m in range(1, N // 2 + 1)] + [(2, 16), (3, 16), (8, 16), (2, 18)]
    return mk_configs('C', sp, 'QH IG', 20) + full_configs('C', [(7, 16)] if tier == 'quick' else [(7, 16), (6, 16), (9, 20)], 'QH IG', [1, 2, 99])


run = run_quantum
