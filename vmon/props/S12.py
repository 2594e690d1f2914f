import itertools
import random
from vmon import ref, view, families as F

TITLE = 'KOG and KLG tableaux are exactly the defining labelings'
RULE = ('every rim of every small strict shape and every content: the enumerated tableaux compared, as sets, with an '
        'independent backtracking search over labelings; counts compared with both. Non-trivial = at least one labeling.')
REQUIRED = {'KOG': 60, 'KLG': 60, 'rims': 30, 'long': 100}
ROUNDS = (12, 24)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 12)
    steps = []
    for mu in ref.strict_upto(8 if deep else 6):
        for p in range(0, 5 if deep else 4):
            steps.append(('kog', mu, p))
            steps.append(('klg', mu, p))
        for p in range(1, 4):
            steps.append(('rims', mu, p))
    for mu in ref.strict_upto(3):
        for p in range(4, 9 if deep else 8):
            steps += [('kog', mu, p)] + [('klg', mu, p)] * (p < 7 if sum(mu) else 1)
    wide = [mu for mu in ref.strict_upto(12) if sum(mu) > 6]
    for mu in [(4, 3, 2, 1)] + rng.sample(wide, 20 if deep else 8):
        for p in (1, 2, 3):
            steps += [(kind, mu, p) for kind in ('kog', 'klg', 'rims')]
    steps += [('long', rng.randrange(10 ** 9)) for _ in range(1500 if deep else 240)]
    rng.shuffle(steps)
    return F.split(steps, 64 if deep else 40)


def rims(mu, first_row):
    """Sets of boxes nu/mu (shifted) with no 2x2 square, nu strict, at most first_row boxes added to row 1."""
    k = len(mu)
    base = tuple(mu) + (0,)
    ans = set()

    def rec(i, nu):
        if i > k:
            t = tuple(a for a in nu if a)
            boxes = ref.cells(t, mu, True)
            s = set(boxes)
            if not any((a + 1, b + 1) in s for a, b in s):
                ans.add((t, tuple(sorted(boxes))))
            return
        top = base[i] + first_row if i == 0 else min(nu[i - 1] - 1, base[i - 1])
        for a in range(base[i], max(top, base[i] - 1) + 1):
            rec(i + 1, nu + (a,))
    rec(0, ())
    # rows may not skip: a part can be zero only at the end
    return {(t, b) for t, b in ans if all(x > y for x, y in zip(t, t[1:])) and ref.contains(t, mu)}


def labelings(boxes, p, klg):
    """All labelings with content exactly 1..p (priming allowed for klg), encoded k -> 2k, k' -> 2k-1."""
    boxes = sorted(boxes, key=lambda b: (b[0], b[1]))
    letters = range(1, 2 * p + 1) if klg else range(2, 2 * p + 1, 2)
    out = []

    def ok(lab, box, a):
        i, j = box
        for (k, l), c in lab.items():
            if k == i and l < j and not c < a:
                return False
            if l == j and k < i and not c < a:
                return False
            if klg:
                for (x, v), (y, w) in (((box, a), ((k, l), c)), (((k, l), c), (box, a))):
                    if x[0] <= y[0] and y[1] <= x[1]:       # y is south-west of x
                        if v % 2 == 0 and not v >= w:
                            return False
                        if v % 2 == 1 and not v <= w:
                            return False
        return not (klg and i == j and a % 2 == 1)

    def rec(t, lab):
        if t == len(boxes):
            if {(a + 1) // 2 for a in lab.values()} == set(range(1, p + 1)):
                if klg or all(
                        all(lab[x] <= lab[y] for y in boxes if x[0] <= y[0] and y[1] <= x[1]) or
                        all(lab[x] >= lab[y] for y in boxes if x[0] <= y[0] and y[1] <= x[1]) for x in boxes):
                    out.append(frozenset(lab.items()))
            return
        if p - len({(a + 1) // 2 for a in lab.values()}) > len(boxes) - t:
            return
        for a in letters:
            if ok(lab, boxes[t], a):
                lab[boxes[t]] = a
                rec(t + 1, lab)
                del lab[boxes[t]]
    rec(0, {})
    return out


def observe(ctx, name, mu, p, klg):
    from tableaux import Tableau
    want = {}
    for nu, boxes in rims(mu, p + 1 if klg else p):
        labs = labelings(boxes, p, klg)
        if labs:
            want[nu] = set(labs)
    by = (Tableau.KLG_by_shape if klg else Tableau.KOG_by_shape)(p, mu)
    got = {}
    for nu, tabs in by.items():
        labs = []
        for t in tabs:
            cells = view.tab(t)
            ctx.check(all(len(v) == 1 for v in cells.values()), '%s tableau with several entries in a box' % name)
            labs.append(frozenset((b, 2 * v[0] if v[0] > 0 else -2 * v[0] - 1) for b, v in cells.items()))
        ctx.check(len(set(labs)) == len(labs), '%s tableau listed twice for %r/%r content %d' % (name, nu, mu, p))
        if labs:
            got[nu] = set(labs)
    for nu in sorted(set(got) | set(want)):
        ctx.equal(got.get(nu, set()), want.get(nu, set()), '%s tableaux of %r/%r with content %d' % (name, nu, mu, p))
        c = (Tableau.KLG_counts if klg else Tableau.KOG_counts)(nu, mu, p)
        ctx.equal(c, len(want.get(nu, ())), 'number of %s tableaux of %r/%r with content %d' % (name, nu, mu, p))
        ctx.ev(name, (nu, mu, p))
    counts = (Tableau.KLG_counts_by_shape if klg else Tableau.KOG_counts_by_shape)(p, mu)
    ctx.equal({k: v for k, v in counts.items() if v}, {k: len(v) for k, v in want.items()},
              'numbers of %s tableaux by shape on %r with content %d' % (name, mu, p))
    total = list((Tableau.KLG if klg else Tableau.KOG)(p, mu))
    ctx.equal(len(total), sum(map(len, want.values())), 'number of %s tableaux on %r with content %d' % (name, mu, p))


def count(boxes, p, klg, limit):
    """Number of labelings by a search that gives up after a number of steps."""
    boxes = sorted(boxes)
    letters = range(1, 2 * p + 1) if klg else range(2, 2 * p + 1, 2)
    # south-west of each other: (row at least, column at most)
    later = [[(k, boxes[k][0] >= b[0] and boxes[k][1] <= b[1], boxes[k][0] <= b[0] and boxes[k][1] >= b[1],
               boxes[k][0] == b[0] or boxes[k][1] == b[1]) for k in range(t)] for t, b in enumerate(boxes)]
    lab, sides, found, steps = [], [], 0, 0

    def rec(t, used):
        nonlocal found, steps
        steps += 1
        if steps > limit:
            raise OverflowError
        if t == len(boxes):
            found += 1
            return
        for a in letters:
            new = used | {(a + 1) // 2}
            if p - len(new) > len(boxes) - t - 1 or (klg and a % 2 and boxes[t][0] == boxes[t][1]):
                continue
            # for each box the signs of (letter of a box south-west of it) - (its letter)
            mine, others, good = set(), [], True
            for k, below, above, line in later[t]:
                c = lab[k]
                if line and not c < a:
                    good = False
                    break
                if below:
                    mine.add((c > a) - (c < a))
                if above:
                    others.append((k, (a > c) - (a < c)))
            if not good:
                continue
            pairs = [(a, s) for s in mine] + [(lab[k], s) for k, s in others]
            if klg:
                if any(s == (1 if x % 2 == 0 else -1) for x, s in pairs):
                    continue
            else:
                if len(mine - {0}) > 1 or any(s and -s in sides[k] for k, s in others):
                    continue
            added = [k for k, s in others if s not in sides[k]]
            marks = [s for k, s in others if s not in sides[k]]
            for k, s in zip(added, marks):
                sides[k].add(s)
            lab.append(a)
            sides.append(mine)
            rec(t + 1, new)
            lab.pop()
            sides.pop()
            for k, s in zip(added, marks):
                sides[k].discard(s)
    rec(0, frozenset())
    return found


def long(ctx, salt):
    """Counts for long rims with many parts, rows and letters."""
    from tableaux import Tableau
    rng = random.Random(salt)
    rows = rng.choice((1, 2, 3, 4, 5, 6, 7))
    mu = ()
    while len(mu) < rows:
        mu = ((mu[0] if mu else 0) + rng.choice((1, 1, 2, 2, 3)),) + mu
    base, nu = mu + (0,), []
    full = rng.random()
    for i in range(len(base)):
        top = base[0] + rng.randrange(0, 4) if i == 0 else min(nu[i - 1] - 1, base[i - 1])
        nu.append(top if rng.random() < full else rng.randrange(base[i], max(top, base[i]) + 1))
    if rng.random() < .15:    # single boxes in many rows
        mu = tuple(range(2 * rows + 1, 1, -2))[:rows]
        nu = [a + (rng.random() < .9) for a in mu] + [rng.random() < .7]
    nu = tuple(int(a) for a in nu if a)
    if not all(x > y for x, y in zip(nu, nu[1:])):
        return
    boxes = tuple(sorted(ref.cells(nu, mu, True)))
    if not boxes or any((a + 1, b + 1) in boxes for a, b in boxes):
        return
    for name, klg in (('KOG', False), ('KLG', True)):
        for p in {1, 2, 3, rng.randrange(1, len(boxes) + 2)}:
            try:
                want = count(boxes, p, klg, 6000)
            except OverflowError:
                continue
            got = (Tableau.KLG_counts if klg else Tableau.KOG_counts)(nu, mu, p)
            ctx.equal(got, want, 'number of %s tableaux of %r/%r with content %d' % (name, nu, mu, p))
            ctx.ev('long', (name, nu, mu, p), trivial=not want)
            if len(boxes) < 6 and want < 200 and rng.random() < .2:
                ctx.equal(len(labelings(boxes, p, klg)), want, 'the two searches for labelings differ')


def kog(ctx, mu, p):
    observe(ctx, 'KOG', mu, p, False)


def klg(ctx, mu, p):
    observe(ctx, 'KLG', mu, p, True)


def rims_step(ctx, mu, p):
    from partitions import Partition
    got = list(Partition.rims(mu, p))
    want = {b for _, b in rims(mu, p)}
    ctx.check(len(set(got)) == len(got), 'a rim of %r is listed twice' % (mu,))
    ctx.equal(set(got), want, 'rims of %r with at most %d boxes in the first row' % (mu, p))
    ctx.ev('rims', (mu, p))


KINDS = {'long': long, 'kog': kog, 'klg': klg, 'rims': rims_step}
