import ast
import contextlib
import io
import itertools
import random
import re
from vmon import ref, view, ins, families as F

TITLE = 'Growth diagrams agree with insertion'
RULE = ('matrix: random nonnegative integer matrices, every cell of the growth diagram compared with the RSK shape of its corner; '
        'shifted: every word of a length and random longer words, the tableaux read off the shifted growth diagram compared with '
        'orthogonal Hecke insertion. Non-trivial = at least two letters.')
REQUIRED = {'cell': 3000, 'shifted': 1500, 'corner': 1500}
ROUNDS = (16, 40)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 41)
    steps = [('matrix', rng.randrange(10 ** 8)) for _ in range(300 if deep else 60)]
    for k, m in [(2, 5), (3, 5), (4, 4), (3, 6)] + ([(3, 7), (4, 6), (5, 5)] if deep else []):
        steps.append(('shifted_all', k, m))
    steps += [('shifted_random', rng.randrange(10 ** 8)) for _ in range(200 if deep else 50)]
    rng.shuffle(steps)
    return F.split(steps, 24)


def rsk(seq):
    rows = []
    for x in seq:
        for row in rows:
            spot = next((t for t, y in enumerate(row) if y > x), None)
            if spot is None:
                row.append(x)
                x = None
                break
            row[spot], x = x, row[spot]
        if x is not None:
            rows.append([x])
    return tuple(len(r) for r in rows)


def matrix(ctx, seed):
    from partitions import Partition
    rng = random.Random(seed)
    n, m = (rng.randrange(1, 7), rng.randrange(1, 7)) if rng.random() < .85 else (rng.randrange(7, 11), rng.randrange(7, 11))
    style = rng.randrange(3)
    d = {(i, j): (rng.choice([0, 1]) if style == 0 else rng.choice([0, 0, 0, 1, 2, 4]))
         for i in range(1, n + 1) for j in range(1, m + 1)}
    if style == 2:
        n = m = max(n, m)
        d = {(i, j): rng.choice([0, 0, 1, 2]) for i in range(1, n + 1) for j in range(1, i + 1)}
        d.update({(j, i): v for (i, j), v in list(d.items())})
    support = {b: v for b, v in d.items() if v}
    if all(v == 1 for v in support.values()) and rng.random() < 0.5:
        g = Partition.growth_diagram(set(support), m, n)
    else:
        g = Partition.growth_diagram(dict(support), m, n)
    if rng.random() < 0.4:
        h = Partition.growth_diagram(dict(support))
        top, right = max([i for i, _ in support], default=0), max([j for _, j in support], default=0)
        ctx.equal(h, [row[:right + 1] for row in g[:top + 1]], 'growth diagram without given dimensions', matrix=sorted(support.items()))
    a, b = rng.randrange(0, n + 1) * rng.randrange(2), rng.randrange(0, m + 1) * rng.randrange(2)
    ctx.equal(Partition.growth_diagram(dict(support), b, a), [row[:b + 1] for row in g[:a + 1]], 'a growth diagram depends on its size',
              matrix=sorted(support.items()), size=(a, b))
    told = io.StringIO()
    with contextlib.redirect_stdout(told):
        Partition.print_growth_diagram(g)
    ctx.equal([[ast.literal_eval(c) for c in re.findall(r'\([^)]*\)', row)] for row in told.getvalue().split('\n') if row.strip()],
              [list(map(tuple, row)) for row in reversed(g)], 'printed growth diagram', matrix=sorted(support.items()))
    ctx.check(len({tuple(k for k, x in enumerate(row) if x == '(') for row in told.getvalue().split('\n') if row.strip()}) < 2,
              'the columns of a printed growth diagram are not aligned', matrix=sorted(support.items()))
    ctx.equal((len(g), {len(r) for r in g}), (n + 1, {m + 1}), 'dimensions of a growth diagram', matrix=sorted(support.items()))
    for i in range(n + 1):
        for j in range(m + 1):
            seq = [b for a in range(1, i + 1) for b in range(1, j + 1) for _ in range(d.get((a, b), 0))]
            ctx.equal(tuple(g[i][j]), rsk(seq), 'cell (%d, %d) of a growth diagram' % (i, j), matrix=sorted(support.items()))
            ctx.ev('cell', (tuple(seq),), trivial=len(seq) < 2)
    if style == 2:
        for i in range(n + 1):
            odd = sum(1 for v in ref.conjugate(tuple(g[i][i])) if v % 2)
            ctx.equal(odd, sum(d.get((j, j), 0) for j in range(1, i + 1)), 'odd columns of a symmetric growth diagram',
                      matrix=sorted(support.items()))
            ctx.ev('symmetric', (i, tuple(sorted(support.items()))))


def shifted(ctx, w):
    from partitions import Partition
    from tableaux import Tableau
    from insertion import InsertionAlgorithm
    g, edges, corners, _ = Partition.shifted_growth_diagram(w)
    n, m = max(w), len(w)
    ctx.equal((len(g), {len(r) for r in g}), (n + 1, {m + 1}), 'dimensions of a shifted growth diagram', word=w)
    boxes = {(a, k + 1) for k, a in enumerate(w)}
    same = [(g, edges, corners)] + [Partition.shifted_growth_diagram(x)[:3] for x in (list(w), boxes, {b: 1 for b in boxes})]
    ctx.check(all(x == same[0] for x in same), 'a shifted growth diagram depends on how the word is given', word=w)
    wide = Partition.shifted_growth_diagram(w, m + 1, n + 2)
    for x, y in zip(wide, same[0]):
        ctx.equal([row[:m + 1] for row in x[:n + 1]], y, 'a shifted growth diagram depends on its size', word=w)
    few = random.Random(len(w)).choice(((0, n), (m, 0), (0, 0), (m - 1, n - 1)))
    for x, y in zip(Partition.shifted_growth_diagram(w, *few), same[0]):
        ctx.equal(x, [row[:few[0] + 1] for row in y[:few[1] + 1]], 'a shifted growth diagram depends on its size', word=w, size=few)
    p, q = Tableau.from_shifted_growth_diagram(g, edges, corners)
    pp, qq = InsertionAlgorithm.orthogonal_hecke(w)
    ctx.check(p == pp, 'insertion tableau read off a growth diagram', word=w, got=view.pairs(view.tab(p)), want=view.pairs(view.tab(pp)))
    ctx.check(q == qq, 'recording tableau read off a growth diagram', word=w, got=view.pairs(view.tab(q)), want=view.pairs(view.tab(qq)))
    ctx.ev('shifted', w, trivial=m < 2)
    # every inner corner: the word restricted to its first j letters and to letters at most i
    rng = random.Random(hash(w))
    i, j = rng.randrange(0, n + 1), rng.randrange(0, m + 1)
    sub = tuple(a for a in w[:j] if a <= i)
    want = [0] * i
    for a, _, v in InsertionAlgorithm.orthogonal_hecke(sub)[0]:
        want[a - 1] += 1
    ctx.equal(tuple(g[i][j]), tuple(x for x in want if x), 'corner (%d, %d) of a shifted growth diagram' % (i, j), word=w)
    ctx.ev('corner', (i, j, w), trivial=len(sub) < 2)


def shifted_all(ctx, k, m):
    for w in itertools.product(range(1, k + 1), repeat=m):
        shifted(ctx, w)


def shifted_random(ctx, seed):
    rng = random.Random(seed)
    if rng.random() < .3:     # words whose tableaux have many rows
        k, a = rng.randrange(3, 8), rng.randrange(0, 3)
        rows = [[a + 1 + i + j + (i + j) // k * rng.randrange(0, 2) for j in range(i, k + rng.randrange(0, 2))] for i in range(k)]
        w = [x for r in reversed(rows) for x in r]
        if rng.random() < .4:
            w += [rng.randrange(1, max(w) + 1) for _ in range(rng.randrange(1, 20))]
        for _ in range(rng.randrange(0, 4)):
            t = rng.randrange(len(w) + 1)
            w.insert(t, rng.randrange(1, max(w) + 1) if rng.random() < .5 else w[t - 1])
        shifted(ctx, tuple(w))
    if rng.random() < .3:
        k = rng.randrange(11, 16)
        shifted(ctx, tuple(rng.randrange(1, k + 1) for _ in range(rng.randrange(30, 45))))
    for _ in range(6):
        k, m = (rng.randrange(2, 9), rng.randrange(1, 15)) if rng.random() < .85 else rng.choice(((rng.randrange(9, 13), rng.randrange(15, 22)), (rng.randrange(5, 9), rng.randrange(22, 40))))
        shifted(ctx, tuple(rng.randrange(1, k + 1) for _ in range(m)))


KINDS = {'matrix': matrix, 'shifted_all': shifted_all, 'shifted_random': shifted_random}
