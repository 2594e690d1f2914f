import random
from collections import Counter
from vmon import ref, view, families as F
from vmon.props.T01 import compare

TITLE = 'Reverse plane partitions are all listed, with the right weights'
RULE = ('enumerators of (marked, shifted) reverse plane partitions on all small shapes against an independent search; the '
        'weight of each listed filling against columns/rows counted directly. Non-trivial = at least one filling.')
REQUIRED = {'rpp': 50, 'marked': 100, 'weight': 800}
ROUNDS = (60, 150)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 22)
    steps = []
    for lam in ref.partitions_upto(6 if deep else 5):
        for mu in sorted(ref.subpartitions(lam)) + [(lam[0] + 1,) if lam else (1,)]:
            if deep or not mu or rng.random() < 0.5:
                steps.append(('rpp', rng.choice((1, 2, 3)) if mu else 3, lam, mu))
    for lam in ref.strict_upto(7 if deep else 6):
        for mu in sorted(ref.subpartitions(lam, True)):
            for nonprimes in (True, False):
                if sum(lam) - sum(mu) <= 6 and (deep or not mu or rng.random() < 0.6):
                    steps.append(('marked', rng.choice((1, 2, 2, 3)) if sum(lam) - sum(mu) < 6 else 2, lam, mu, nonprimes))
    for _ in range(40 if deep else 16):    # many letters, or long rows and columns
        n = rng.randint(4, 7)
        steps.append(('rpp', n, rng.choice([(1,), (2,), (1, 1)] + ([(2, 1), (3,), (1, 1, 1)] if n < 6 else [])), ()))
        k = rng.randint(6, 10)
        steps.append(('rpp', rng.choice((1, 2)), rng.choice([(k,), (1,) * k, (k - 3, 1, 1), (3,) + (1,) * (k - 4)]), ()))
        for nonprimes in (True, False):
            steps.append(('marked', rng.randint(4, 5), rng.choice([(1,), (2,)]), (), nonprimes))
            k = rng.randint(6, 9)
            steps.append(('marked', 1, rng.choice([(k,), (k, 1), (k, 2), (6, 5, 4), (4, 3, 2, 1), (5, 4, 3, 2, 1)]), (), nonprimes))
            steps.append(('marked', 2, (k - 1,), rng.choice([(), (1,), (2,)]), nonprimes))
    for _ in range(60 if deep else 20):
        steps.append(('rpp', rng.choice((1, 2))) + F.thin(rng, False, 5, 4, 6))
        for nonprimes in (True, False):
            steps.append(('marked', rng.choice((1, 2))) + F.thin(rng, True, 4, rng.choice((3, 5)), 6) + (nonprimes,))
    rng.shuffle(steps)
    return F.split(steps, 64 if deep else 40)


def weigh(ctx, tabs, n, marked):
    for t in list(tabs)[:60]:
        want = [0] * n
        cells = view.tab(t)
        for k in range(1, n + 1):
            want[k - 1] += len({b[1] for b, v in cells.items() if k in v})
            want[k - 1] += len({b[0] for b, v in cells.items() if -k in v})
        ctx.equal(t.weight(n), tuple(want), 'weight of a reverse plane partition', tableau=sorted(cells.items()))
        if not marked:
            ctx.equal(t.rpp_excess(), len(cells) - sum(want), 'boxes of a reverse plane partition beyond its weight', tableau=sorted(cells.items()))
        ctx.ev('weight', tuple(sorted(cells.items())), trivial=not cells)


def rpp(ctx, n, lam, mu):
    from tableaux import Tableau
    got = Tableau.semistandard_rpp(n, lam, mu)
    want = ref.fillings(ref.cells(lam, mu), n, rpp=True) if ref.contains(lam, mu) else []
    compare(ctx, got, want, 'reverse plane partitions of %r/%r with entries up to %d' % (lam, mu, n))
    weigh(ctx, got, n, False)
    ctx.ev('rpp', (n, lam, mu), trivial=not want)


def marked(ctx, n, lam, mu, nonprimes):
    from tableaux import Tableau
    if nonprimes:
        got = Tableau.semistandard_shifted_rpp(n, lam, mu)
    else:
        got = Tableau.semistandard_marked_rpp(n, lam, mu, False)
    want = ref.fillings(ref.cells(lam, mu, True), n, rpp=True, marked=True, diagonal_nonprimes=nonprimes)
    compare(ctx, got, want, 'marked reverse plane partitions of %r/%r with entries up to %d (unprimed diagonal: %r)' % (
        lam, mu, n, nonprimes))
    weigh(ctx, got, n, True)
    ctx.ev('marked', (n, lam, mu, nonprimes), trivial=not want)


KINDS = {'rpp': rpp, 'marked': marked}
