"""Weighted choice: Hypothesis's one_of counts a strategy given twice once."""

from hypothesis import strategies as st


def one_of(*strategies):
    if len(strategies) == 1 and isinstance(strategies[0], (list, tuple)):
        strategies = tuple(strategies[0])
    unique, index = [], []
    for s in strategies:
        for i, u in enumerate(unique):
            if u is s:
                break
        else:
            i = len(unique)
            unique.append(s)
        index.append(i)
    if len(unique) == len(index):
        return st.one_of(*unique)
    return st.sampled_from(index).flatmap(lambda i: unique[i])
