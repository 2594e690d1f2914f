"""Oracles for crystals: bracketing, Schensted insertion, multiset-valued tableaux, normal crystals."""
import itertools
from collections import Counter
from . import ref


def unpaired(word, i):
    """Positions of the unpaired i's and unpaired (i+1)'s, an i+1 being paired with a later i."""
    stack, low = [], []
    for k, a in enumerate(word):
        if a == i + 1:
            stack.append(k)
        elif a == i:
            if stack:
                stack.pop()
            else:
                low.append(k)
    return low, stack


def f_word(word, i):
    low, _ = unpaired(word, i)
    return None if not low else word[:low[-1]] + (i + 1,) + word[low[-1] + 1:]


def e_word(word, i):
    _, high = unpaired(word, i)
    return None if not high else word[:high[0]] + (i,) + word[high[0] + 1:]


def schensted(word):
    """Row insertion: (rows of P, rows of Q)."""
    p, q = [], []
    for k, a in enumerate(word):
        r = 0
        while True:
            if r == len(p):
                p.append([a])
                q.append([k])
                break
            row = p[r]
            c = next((c for c, b in enumerate(row) if b > a), None)
            if c is None:
                row.append(a)
                q[r].append(k)
                break
            row[c], a = a, row[c]
            r += 1
    return tuple(map(tuple, p)), tuple(map(tuple, q))


def multiset_fillings(boxes, n, total):
    """Fillings by nonempty multisets of letters 1..n, rows weakly and columns strictly increasing, with `total` letters."""
    boxes = sorted(boxes)
    out = []

    def rec(t, fill, left):
        if t == len(boxes):
            if left == 0:
                out.append(frozenset(fill.items()))
            return
        i, j = boxes[t]
        lo = 1
        if (i, j - 1) in fill:
            lo = max(lo, fill[(i, j - 1)][-1])
        if (i - 1, j) in fill:
            lo = max(lo, fill[(i - 1, j)][-1] + 1)
        rest = len(boxes) - t - 1
        for k in range(1, left - rest + 1):
            for m in itertools.combinations_with_replacement(range(lo, n + 1), k):
                fill[(i, j)] = m
                rec(t + 1, fill, left - k)
                del fill[(i, j)]
    rec(0, {}, total)
    return out


def weight(cells, n):
    c = Counter(abs(a) for v in cells.values() for a in (v if isinstance(v, tuple) else (v,)))
    return tuple(c[i] for i in range(1, n + 1))


_schur = {}


def schur_weights(lam, n):
    """{weight: number of semistandard tableaux} of a partition with letters 1..n."""
    if (lam, n) not in _schur:
        gf = ref.tableau_gf(ref.cells(lam), n)
        _schur[(lam, n)] = {tuple(a): c for a, c in gf.items()}
    return _schur[(lam, n)]


def check_normal(ctx, size, n, weights, edges, what, **witness):
    """The graph on range(size) with the f-edges (x, y, i), 1 <= i < n, has string lengths and characters of a normal crystal."""
    f, e = {}, {}
    for x, y, i in edges:
        ctx.check(1 <= i < n, '%s: an edge with label %r' % (what, i), **witness)
        ctx.check((x, i) not in f and (y, i) not in e, '%s: two %d-edges at one element' % (what, i), edge=(x, y, i), **witness)
        f[(x, i)], e[(y, i)] = y, x
        w = list(weights[x])
        w[i - 1] -= 1
        w[i] += 1
        ctx.check(tuple(w) == weights[y], '%s: an %d-edge does not move the weight' % (what, i), tail=weights[x], head=weights[y], **witness)
    for i in range(1, n):
        seen = set()
        for x in range(size):
            if (x, i) in e:
                continue
            k, y = 0, x
            seen.add(y)
            while (y, i) in f:
                y = f[(y, i)]
                ctx.check(y not in seen, '%s: a cycle of %d-edges' % (what, i), **witness)
                seen.add(y)
                k += 1
            ctx.check(k == weights[x][i - 1] - weights[x][i], '%s: an %d-string of length %d starts at weight %r' % (what, i, k, weights[x]), **witness)
        ctx.check(len(seen) == size, '%s: a cycle of %d-edges' % (what, i), **witness)
    parent = list(range(size))

    def root(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    for x, y, i in edges:
        parent[root(x)] = root(y)
    comps = {}
    for x in range(size):
        comps.setdefault(root(x), []).append(x)
    for c in comps.values():
        tops = [x for x in c if all((x, i) not in e for i in range(1, n))]
        ctx.check(len(tops) == 1, '%s: a component with %d highest weight elements' % (what, len(tops)), tops=[weights[t] for t in tops], **witness)
        lam = tuple(a for a in weights[tops[0]] if a)
        got = Counter(weights[x] for x in c)
        ctx.equal(dict(got), schur_weights(lam, n), '%s: the character of the component of %r' % (what, lam), **witness)
    return [frozenset(c) for c in comps.values()]
