"""Skill of a multi-category table against a given expected fraction correct."""
import numpy as np
from specs.prims import S, R


def calculate_mcts_hss_ec(t, k):
    first = t[0].copy()
    n = first[np.where(k == 'n_cat')[0][0]]
    expected = first[np.where(k == 'ec_value')[0][0]]
    for c in range(n * n):
        first[np.where(k == 'fi_oj_' + str(c))[0][0]] = S(t, k, 'fi_oj_' + str(c))
    table = [[0] * n for _ in range(n)]
    for c in range(n * n):
        i = first[np.where(k == 'i_value_' + str(c))[0][0]] - 1
        j = first[np.where(k == 'j_value_' + str(c))[0][0]] - 1
        table[i][j] = first[np.where(k == 'fi_oj_' + str(c))[0][0]]
    correct = sum([table[i][i] for i in range(n)])
    every = sum([table[i][j] for i in range(n) for j in range(n)])
    return R((correct - expected * every) / (every - expected * every))
