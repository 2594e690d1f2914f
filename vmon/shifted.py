"""Strict partitions as sets of boxes (i, j) with i <= j."""


def boxes(mu):
    return {(i, i + k) for i, a in enumerate(mu, 1) for k in range(a)}


def shape(s):
    """The strict partition with this shifted diagram, or None."""
    rows = {}
    for i, j in s:
        if j < i or i < 1:
            return None
        rows[i] = rows.get(i, 0) + 1
    n = len(rows)
    if sorted(rows) != list(range(1, n + 1)):
        return None
    mu = tuple(rows[i] for i in range(1, n + 1))
    if any(a <= b for a, b in zip(mu, mu[1:])) or boxes(mu) != set(s):
        return None
    return mu


def add_diagonal(mu, d):
    """The shape with one more box on diagonal d (None if there is none)."""
    s = boxes(mu)
    for i in range(1, len(mu) + 2):
        b = (i, i + d)
        if b not in s and shape(s | {b}) is not None:
            return shape(s | {b})
    return None


def corner(mu, d):
    """The removable box on diagonal d, or None."""
    s = boxes(mu)
    for b in s:
        if b[1] - b[0] == d and shape(s - {b}) is not None:
            return b
    return None
