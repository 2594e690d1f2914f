import itertools
import random
from vmon import families as F
from vmon.shifted import boxes, shape

TITLE = 'Corners, strips, ribbons and rims of strict partitions are complete'
RULE = ('corners, strips, rims, ribbons, decrement: every strict partition in range against a search over sets of boxes, in random orders '
        'and interleavings, warm and cold. Non-trivial = a non-empty shape.')
REQUIRED = {'corner': 300, 'strip': 200, 'rim': 100, 'ribbon': 3, 'decrement': 200, 'terminal': 100}
ROUNDS = (45, 80)


def strict(top):
    return [tuple(sorted(c, reverse=True)) for k in range(top + 1) for c in itertools.combinations(range(1, top + 1), k)]


def plan(tier, seed):
    rng = random.Random(seed + 602)
    every = strict(7 if tier == 'quick' else 9)
    steps = []
    for kind in ('corner', 'strip', 'rim', 'decrement'):
        steps += [(kind, mu, rng.randrange(10 ** 9)) for mu in rng.sample(every, min(len(every), 70)) if kind != 'rim' or len(mu) < 6]
    steps += [('rim', mu, rng.randrange(10 ** 9)) for mu in strict(4)]
    tall = [tuple(a for a in range(6, 0, -1) if rng.random() < .7) for _ in range(12)] + [(6, 5, 4, 3, 2, 1), (5, 4, 3, 2, 1)]
    steps += [(kind, mu, rng.randrange(10 ** 9)) for mu in tall for kind in ('corner', 'strip', 'decrement')]
    steps += [('corner', tuple(a for a in range(14, 0, -1) if rng.random() < .5), rng.randrange(10 ** 9)) for _ in range(20)]
    wide = [tuple(sorted(rng.sample(range(1, 20), rng.randrange(1, 4)), reverse=True)) for _ in range(16)]
    steps += [(kind, mu, rng.randrange(10 ** 9)) for mu in wide for kind in ('strip', 'decrement')]
    steps += [('ribbon', n) for n in range(7 if tier == 'quick' else 9)]
    steps += [('plain', rng.randrange(10 ** 9)) for _ in range(40)]
    rng.shuffle(steps)
    return F.split(steps, 8)


def inside(mu):
    return [k for k in itertools.product(*[range(a + 1) for a in mu]) if all(a > b or a == b == 0 for a, b in zip(k, k[1:]))]


def trimmed(k):
    return tuple(a for a in k if a)


def corner(ctx, mu, salt):
    from partitions import Partition as Q
    s = boxes(mu)
    top = (mu + (0,))[0]
    for d in random.Random(salt).sample(range(top + 3), top + 3):
        out = [b[0] for b in ((i, i + d) for i in range(1, len(mu) + 2)) if b not in s and shape(s | {b})]
        inn = [b[0] for b in s if b[1] - b[0] == d and shape(s - {b}) is not None]
        ctx.equal(Q.find_shifted_outer_corner(mu, d), out[0] if out else None, 'addable box on a diagonal', mu=mu, diagonal=d)
        ctx.equal(Q.find_shifted_inner_corner(mu, d), inn[0] if inn else None, 'removable box on a diagonal', mu=mu, diagonal=d)
        ctx.ev('corner', (mu, d), trivial=not mu)
    gone = {b[0]: shape(s - {b}) for b in s if shape(s - {b}) is not None}
    for r in range(1, len(mu) + 1):
        ctx.equal(Q.remove_shifted_inner_corner(mu, r), gone.get(r), 'removed corner of a row', mu=mu, row=r)
    want = []
    for k in range(len(gone) + 1):
        for rows in itertools.combinations(gone, k):
            want.append(shape(s - {(r, r + mu[r - 1] - 1) for r in rows}))
    ctx.equal(sorted(Q.remove_shifted_inner_corners(mu)), sorted(want), 'shapes without some corners', mu=mu)


def plain(ctx, salt):
    """The same corners for partitions that need not be strict."""
    from partitions import Partition as Q
    rng = random.Random(salt)
    mu = tuple(sorted((rng.randrange(1, 6) for _ in range(rng.randrange(0, 6))), reverse=True)) if rng.random() < .8 else tuple(
        sorted((rng.randrange(1, 15) for _ in range(rng.randrange(5, 10))), reverse=True))
    gone = [i for i, a in enumerate(mu) if i + 1 == len(mu) or a > mu[i + 1]]
    for i in range(len(mu)):
        try:
            got = Q.remove_inner_corner(mu, i + 1)
        except Exception:
            got = None
        ctx.equal(got, trimmed(a - (i == j) for j, a in enumerate(mu)) if i in gone else None, 'removed corner of a row', mu=mu, row=i + 1)
    want = [trimmed(a - (j in c) for j, a in enumerate(mu)) for k in range(len(gone) + 1) for c in itertools.combinations(gone, k)]
    ctx.equal(sorted(Q.remove_inner_corners(mu)), sorted(want), 'shapes without some corners', mu=mu)
    ctx.ev('corner', ('plain', mu), trivial=not mu)
    s = rng.sample([(i, j) for i in range(1, 5) for j in range(1, 6)], rng.randrange(0, 7))
    order = sorted(s, key=lambda b: (-b[0], b[1]))
    want = []
    while order and len(want) < 3 and (not want or want[0][0] == order[-1][0] or want[0][1] == order[-1][1]):
        want.insert(0, order.pop())
    ctx.equal(tuple(Q.rim_terminal_part(rng.choice((list, tuple, set))(s))), tuple(want), 'last boxes of a rim', boxes=s)
    ctx.ev('terminal', tuple(sorted(s)), trivial=not s)


def strip(ctx, mu, salt):
    from partitions import Partition as Q
    rng = random.Random(salt)
    kept = inside(mu)
    vertical = sorted(trimmed(k) for k in kept if all(a - b <= 1 for a, b in zip(mu, k)))
    ribbon = sorted(trimmed(k) for k in kept if all(b >= a for a, b in zip(mu[1:], k)))
    arg = mu + (0,) * rng.choice((0, 0, 1))
    todo = [('vertical strips', Q.decompose_shifted_shape_by_vertical_strips, vertical), ('rims', Q.decompose_shifted_shape_by_rims, ribbon),
            ('ribbon complements', Q.shifted_ribbon_complements, ribbon)]
    for name, f, want in rng.sample(todo, 3) + rng.sample(todo, 3):
        ctx.equal(sorted(f(arg if 'compl' not in name else mu)), want, 'shapes left by removing ' + name, mu=mu)
        ctx.ev('strip', (name, mu), trivial=not mu)


def rim(ctx, mu, salt):
    from partitions import Partition as Q
    rng = random.Random(salt)
    s = boxes(mu)
    runs = []
    for _ in range(2):
        bound = rng.randrange(0, 4)
        above = itertools.product(*([range(mu[0], mu[0] + bound + 1)] + [range(mu[i], mu[i - 1] + 1) for i in range(1, len(mu))]
                                    + [range(0, mu[-1] + 1)] if mu else [range(0, bound + 1)]))
        want = sorted(tuple(sorted(boxes(trimmed(k)) - s)) for k in above if all(a > b or a == b == 0 for a, b in zip(k, k[1:])))
        runs.append((bound, want, [], Q.rims(mu, bound) if bound != 1 or rng.random() < .5 else Q.rims(mu)))
    live = list(runs)
    while live:
        r = rng.choice(live)
        try:
            r[2].append(tuple(next(r[3])))
        except StopIteration:
            live.remove(r)
            ctx.equal(sorted(r[2]), r[1], 'rims that can be added to a strict partition', mu=mu, bound=r[0])
            ctx.ev('rim', (mu, r[0]), trivial=not mu)


def ribbon(ctx, n):
    from partitions import Partition as Q
    want = []
    for lam in (m for m in strict(n) if (m + (0,))[0] == n):
        want += [(lam, trimmed(k)) for k in inside(lam) if all(b >= a for a, b in zip(lam[1:], k))]
    ctx.equal(sorted(Q.shifted_ribbons(n)), sorted(want), 'shifted ribbons', n=n)
    for alpha in Q.compositions(n):
        nu, lam = Q.shifted_ribbon(alpha)
        rows = [(boxes(nu) - boxes(lam)) & {(i, j) for j in range(1, n + len(alpha) + 2)} for i in range(1, len(alpha) + 1)]
        ctx.equal(tuple(map(len, rows)), tuple(alpha), 'rows of a ribbon', alpha=alpha)
        ctx.check(boxes(lam) <= boxes(nu) and shape(boxes(nu)) == tuple(nu) and len(boxes(nu) - boxes(lam)) == n
                  and lam == nu[1:], 'consecutive rows of a ribbon meet in one diagonal', alpha=alpha, nu=nu, lam=lam)
    ctx.ev('ribbon', n, trivial=not n)


def decrement(ctx, mu, salt):
    from partitions import Partition as Q
    rng = random.Random(salt)
    if mu:
        rows = sorted(b[0] for b in boxes(mu) if shape(boxes(mu) - {b}) is not None)
        ctx.equal(Q.decrement_one(mu), trimmed(a - (i + 1 == rows[0]) for i, a in enumerate(mu)), 'first removable box', mu=mu)
    best = [k for k in inside(mu) if not mu or k[0] == mu[0] - 1]
    want = trimmed(max(k[i] for k in best) for i in range(len(mu)))
    ctx.equal(Q.decrement_strict(mu), want, 'largest strict partition with a shorter first row', mu=mu)
    n = (mu + (0,))[0] + rng.randrange(0, 3)
    ctx.equal(Q.complement(n, mu), tuple(a for a in range(n, 0, -1) if a not in mu), 'complement in the staircase', n=n, mu=mu)
    ctx.ev('decrement', (mu, n), trivial=not mu)


KINDS = {'corner': corner, 'plain': plain, 'strip': strip, 'rim': rim, 'ribbon': ribbon, 'decrement': decrement}
