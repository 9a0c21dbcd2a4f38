"""Covering arrays: sets of rows in which every combination of values of any t factors occurs.  Deterministic; the result is verified."""
import itertools


def array(levels, t):
    """levels: number of values of every factor.  Greedy, row by row: every row is seeded with an uncovered combination and completed factor by factor."""
    n = len(levels)
    combos = list(itertools.combinations(range(n), t))
    left = {c: set(itertools.product(*(range(levels[i]) for i in c))) for c in combos}
    byf = [[c for c in combos if i in c] for i in range(n)]
    order = sorted(combos, key=lambda c: -len(left[c]))
    rows = []
    while True:
        order = [c for c in order if left[c]]
        if not order: return rows
        seed = max(order, key=lambda c: len(left[c]))
        row = [None] * n
        for i, v in zip(seed, min(left[seed])): row[i] = v
        for i in sorted((i for i in range(n) if row[i] is None), key=lambda i: (-levels[i], i)):
            best = None
            cand = [(c, c.index(i)) for c in byf[i] if left[c] and all(j == i or row[j] is not None for j in c)]
            for v in range(levels[i]):
                v_ = (v + len(rows)) % levels[i]
                row[i] = v_
                gain = sum(tuple(row[j] for j in c) in left[c] for c, _ in cand)
                if best is None or gain > best[0]: best = (gain, v_)
            row[i] = best[1]
        rows.append(row)
        for c in order: left[c].discard(tuple(row[j] for j in c))


def covers(rows, levels, t):
    for c in itertools.combinations(range(len(levels)), t):
        want = 1
        for i in c: want *= levels[i]
        if len({tuple(r[i] for i in c) for r in rows}) != want: return False
    return True
