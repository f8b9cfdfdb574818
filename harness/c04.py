"""C04: classical Pieri rule, odd orthogonal Grassmannians OG(m, 2n+1)."""
from .pieri_iso import *

BOUNDS = 'the spaces listed per configuration; every k-strict partition, every special class'
ASSUMPTIONS = ['input classes are k-strict partitions in the rectangle of the space; 1 <= p <= n + k']


def configs(tier):
    if tier == 'quick':
        sp = [(1, 3), (1, 5), (2, 5), (1, 7), (2, 7), (3, 7), (1, 9), (2, 9), (3, 9), (4, 9), (1, 11), (2, 11), (3, 11),
              (4, 11), (5, 11), (1, 13), (2, 13), (3, 13), (4, 13), (5, 13), (6, 13)]
    else:
        sp = [(m, N) for N in range(3, 16, 2) for m in range(1, N // 2 + 1)] + [(2, 17), (3, 17), (8, 17), (2, 19)]
    return mk_configs('B', sp, 'OG', 20) + full_configs('B', [(7, 17)] if tier == 'quick' else [(7, 17), (6, 17), (9, 21)], 'OG', [1, 2, 99])


run = run_classical
