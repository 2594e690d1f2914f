import random
from collections import Counter
from vmon import ref, view, ins, families as F

TITLE = 'Unpriming the diagonal gives semistandard tableaux with legal diagonals'
RULE = ('every semistandard set-valued marked shifted tableau of several shapes (diagonal primes allowed), in shuffled order, and random larger ones, among them random walks through dense fillings; the map '
        'is watched for lost letters, images that are not semistandard, shrinking or ragged shapes, mixed diagonal boxes and changes to tableaux with pure diagonals. '
        'Non-trivial = the diagonal mixes primed and unprimed letters.')
REQUIRED = {'image': 3000, 'mixed': 1000, 'fibre': 15, 'wild': 1500, 'walk': 3000}
ROUNDS = (3, 4)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 43)
    steps = []
    for n, mu in [(1, (1,)), (1, (3,)), (2, (1,)), (2, (2,)), (2, (2, 1)), (2, (3, 1)), (2, (3, 2)), (2, (5,)), (2, (4, 2)), (3, (1,)),
                  (3, (2,)), (3, (3,)), (3, (2, 1)), (3, (3, 1)), (3, (3, 2)), (3, (4,)), (3, (3, 2, 1)), (3, (4, 2, 1)), (4, (1,))] + (
                      [(3, (4, 1)), (3, (4, 2)), (3, (4, 3, 1)), (4, (2,)), (4, (3, 2, 1))] if deep else [(4, (2,))]):
        steps.append(('fibre', n, mu, rng.randrange(10 ** 8)))
    steps += [('wild', rng.randrange(10 ** 8)) for _ in range(100 if deep else 20)]
    steps += [('walk', rng.randrange(10 ** 8)) for _ in range(200 if deep else 60)]
    rng.shuffle(steps)
    return F.split(steps, 16)


def letters(cells):
    return Counter(x for v in cells.values() for x in v)


def order(x):
    return 2 * abs(x) - (x < 0)


def semistandard(cells):
    """Rows repeat unprimed letters only, columns primed letters only."""
    for (i, j), v in cells.items():
        top = max(map(order, v))
        for box, odd in (((i, j + 1), 1), ((i + 1, j), 0)):
            if box in cells:
                low = min(map(order, cells[box]))
                if low < top or (low == top and low % 2 == odd):
                    return False
    return True


def fibre(ctx, n, mu, seed):
    todo = sorted(ref.fillings(ref.cells(mu, (), True), n, marked=True, setvalued=True), key=sorted)
    random.Random(seed).shuffle(todo)
    for fill in todo:
        examine(ctx, n, mu, dict(fill))
    ctx.ev('fibre', (n, mu))


def wild(ctx, seed):
    """Random semistandard set-valued fillings of larger shapes, built upwards and to the right."""
    rng = random.Random(seed)
    for _ in range(150):
        top, rows = (rng.randrange(4, 8), rng.randrange(1, 4)) if rng.random() < .6 else (rng.randrange(7, 10), rng.randrange(3, 7))
        mu = tuple(sorted(rng.sample(range(1, top), rows), reverse=True))
        dots = rng.random() < .5
        cells, dense = {}, rng.choice((0.3, 0.5, 0.7))
        for i, j in sorted(ref.cells(mu, (), True), key=lambda b: (b[1], b[0])):
            low = 1
            if (i, j - 1) in cells:
                m = max(map(order, cells[i, j - 1]))
                low = max(low, m + m % 2)
            if (i - 1, j) in cells:
                m = max(map(order, cells[i - 1, j]))
                low = max(low, m + 1 - m % 2)
            if rng.random() > 0.7:
                low += rng.randrange(3)
            pick = [low] + [k for k in range(low + 1, low + 5) if rng.random() < dense / (1 + (i != j) * (4 if dots else 1))]
            cells[i, j] = tuple(sorted((k + 1) // 2 * (-1 if k % 2 else 1) for k in pick))
        assert semistandard(cells), cells
        examine(ctx, max(abs(x) for v in cells.values() for x in v), mu, cells)
        ctx.ev('wild', sorted(cells.items()))


def fits(cells, b):
    """One box of a semistandard filling after a change."""
    i, j = b
    near = {x: cells[x] for x in (b, (i, j + 1), (i + 1, j), (i, j - 1), (i - 1, j)) if x in cells}
    return cells[b] and semistandard(near)


def walk(ctx, seed):
    """Letters are added and removed at random in one large tableau: dense fillings with many ties."""
    rng = random.Random(seed)
    rows, top = rng.choice(((2, 3), (3, 1), (3, 2), (4, 0), (4, 1), (4, 2), (4, 3), (5, 1), (5, 2)))
    mu = tuple(a + top for a in range(rows, 0, -1))
    n = rows + rng.randrange(1, 4)
    cells = {(i, j): (i,) for i, j in ref.cells(mu, (), True)}
    boxes = sorted(cells)
    grow = rng.choice((.7, .9, 1))
    for turn in range(160):
        for _ in range(12 if turn else 60):
            b = rng.choice(boxes)
            if rng.random() < .3:
                b = (b[0], b[0])
            a = rng.choice((1, -1)) * rng.randint(1, n)
            old = cells[b]
            if a not in old and rng.random() > grow:
                continue
            cells[b] = tuple(x for x in old if x != a) if a in old else tuple(sorted(old + (a,)))
            if not fits(cells, b):
                cells[b] = old
        examine(ctx, n, mu, dict(cells))
        ctx.ev('walk', sorted(cells.items()))


def examine(ctx, n, mu, cells):
    from tableaux import Tableau
    from insertion import InsertionAlgorithm
    t = Tableau(F.shuffled(cells))
    u = InsertionAlgorithm.unprime_diagonal(t)
    got = view.tab(u)
    diag = [v for (i, j), v in sorted(cells.items()) if i == j]
    mixed = any(min(v) < 0 < max(v) for v in diag)
    several = any(len(v) > 1 and min(v) < 0 for v in diag)
    ctx.equal(view.tab(t), cells, 'the argument was modified')
    legal = all(len(v) == 1 or not neg or (len(neg) == 1 and neg[0] > max(v)) for v in diag for neg in [[-x for x in v if x < 0]])
    if legal:
        ctx.equal(got, cells, 'a tableau with a legal diagonal was changed', tableau=sorted(cells.items()))
    rows = Counter(i for i, j in got)
    ctx.equal(set(got), {(i, j) for i in rows for j in range(i, i + rows[i])}, 'the image is not left-justified', tableau=sorted(cells.items()))
    nu = tuple(rows[i] for i in range(1, len(rows) + 1))
    ctx.check(len(nu) == len(mu) and all(a <= b for a, b in zip(mu, nu)), 'a row of the image appeared, vanished or shrank',
              tableau=sorted(cells.items()), shape=nu)
    ctx.check(semistandard(got), 'the image is not semistandard', tableau=sorted(cells.items()), image=sorted(got.items()))
    ctx.equal(Counter(abs(x) for x in letters(got).elements()), Counter(abs(x) for x in letters(cells).elements()),
              'content of the image', tableau=sorted(cells.items()), image=sorted(got.items()))
    for (i, j), v in got.items():
        if i == j and len(v) > 1:
            neg = [-x for x in v if x < 0]
            ctx.check(not neg or (len(neg) == 1 and neg[0] > max(v)), 'diagonal box of the image', tableau=sorted(cells.items()),
                      image=sorted(got.items()))
    ctx.ev('image', (n, sorted(cells.items())), trivial=not several)
    if mixed:
        ctx.ev('mixed', (n, sorted(cells.items())))


KINDS = {'fibre': fibre, 'wild': wild, 'walk': walk}
