import random
from vmon import ref, ins, families as F

TITLE = 'Groups, weights and drawings of valued-set tableaux are read off correctly'
RULE = ('read: random valued-set tableaux (legal and illegal fillings of large and small, straight and skew shifted shapes, letters up to 5): every '
        'query compared with a direct reading of boxes and groups, and the drawing taken apart again. Non-trivial = two boxes share a group.')
REQUIRED = {'read': 1200, 'group': 8000, 'drawing': 1200, 'hinge': 500}
ROUNDS = (24, 60)


def plan(tier, seed):
    rng = random.Random(seed + 402)
    return F.split([('read', rng.randrange(10 ** 9)) for _ in range(160 if tier == 'quick' else 800)], 16)


def random_tableau(rng):
    top = rng.choice((2, 2, 2, 3, 5))
    if rng.random() < .5:
        mu = rng.choice(list(ref.strict_upto(7)))
        nu = rng.choice(sorted(ref.subpartitions(mu, strict=True)))
    else:
        mu, nu = F.thin(rng, True, 7, 4, 8)
    if rng.random() < .12:  # tall shapes
        mu = [rng.randrange(5, 10)]
        while mu[-1] > 1 and len(mu) < 8:
            mu.append(mu[-1] - rng.choice((1, 1, 1, 2) if mu[-1] > 2 else (1,)))
        nu = tuple(sorted(rng.sample(range(1, mu[0]), rng.randrange(0, 4)), reverse=True))
        nu = nu if ref.contains(tuple(mu), nu) else ()
        mu = tuple(mu)
    cells = ref.cells(mu, nu, True)
    letters = [a * s for a in range(1, top + 1) for s in (1, -1)]
    kind = rng.random()
    if kind < .5 and len(cells) <= 6:
        fills = ref.fillings(cells, 2, marked=True)
        d = {b: v[0] for b, v in rng.choice(fills)} if fills else {}
        shift = rng.randrange(top - 1)
        if rng.random() < .3:
            shift = rng.choice((8, 9, 97, 98, 253, 254))
            top = shift + 2
        d = {b: a + shift if a > 0 else a - shift for b, a in d.items()}
    elif kind < .75:
        d = {}
        for b in cells:  # long runs of one letter
            near = [d[p] for p in ((b[0], b[1] - 1), (b[0] - 1, b[1])) if p in d]
            d[b] = rng.choice(near) if near and rng.random() < .75 else rng.choice(letters)
    else:
        d = {b: rng.choice(letters) for b in cells}
    can = [b for b, a in d.items() if d.get((b[0], b[1] + 1) if a > 0 else (b[0] - 1, b[1])) == a]
    share = rng.choice((.2, .5, .9))
    return d, {b for b in can if rng.random() < share}, top


def partner(d, b):
    return (b[0], b[1] + 1) if d[b] > 0 else (b[0] - 1, b[1])


def read(ctx, salt):
    from vst import ValuedSetTableau as V, combine_str
    rng = random.Random(salt)
    for _ in range(10):
        d, joined, top = random_tableau(rng)
        v = V(F.shuffled(d), {b: int(b in joined) for b in d})
        where = dict(d=d, joined=sorted(joined))
        queries(ctx, v, d, joined, top, where, rng)
        ctx.ev('read', (tuple(sorted(d.items())), tuple(sorted(joined))), trivial=not joined)
        draw(ctx, v, d, joined, where)
        row = [v] + [u for u in (v.unprime(), v.unprime_diagonal()) if rng.random() < .5]
        want = ['  ->  '.join(t) if ''.join(t).strip() else '' for t in zip(*(str(u).split('\n') for u in row))]
        ctx.equal([x.rstrip() for x in combine_str(*row).split('\n')], [x.rstrip() for x in want] if len(row) > 1 else [x.rstrip() for x in str(v).split('\n')],
                  'drawings side by side', **where)
        ctx.equal(({(i, j): x for i, j, x in v.tableau}, {(i, j) for i, j, x in v.grouping if x[0]}), ({b: (a,) for b, a in d.items()}, joined),
                  'a query changes the tableau', **where)


def queries(ctx, v, d, joined, top, where, rng):
    ctx.equal(v.is_semistandard(), ins.semistandard({b: (a,) for b, a in d.items()}, False) is None, 'semistandard predicate', **where)
    entered = {partner(d, b) for b in joined}
    singles = {b for b in d if b not in joined and b not in entered}
    for b in d:
        ctx.equal((v.is_group_end(*b), v.is_group_start(*b), v.is_singleton(*b)), (b not in joined, b not in entered, b in singles),
                  'ends of the group of a box', box=b, **where)
        for c in ((b[0], b[1] + 1), (b[0] + 1, b[1]), (b[0] + 1, b[1] + 1)):
            together = c in d and ((b in joined and partner(d, b) == c) or (c in joined and partner(d, c) == b))
            ctx.equal((bool(v.in_same_group(*b, *c)), bool(v.in_same_group(*c, *b))), (together,) * 2, 'neighbours in one group', boxes=(b, c), **where)
        ctx.ev('group', (b, d[b], tuple(sorted(joined))), trivial=b in singles)
    ctx.check(not v.is_group_end(99, 99) and not v.is_group_start(99, 99), 'a box outside the tableau ends a group', **where)
    ctx.equal(set(v.singletons()), singles, 'singletons', **where)
    ctx.equal(v.diagonal_singletons(), sorted(i for i, j in singles if i == j), 'diagonal singletons', **where)
    ctx.equal(v.primed_groups(), sum(1 for b, a in d.items() if a < 0 and b not in joined), 'primed groups', **where)
    ctx.equal(v.diagonal_primes(), sum(1 for (i, j), a in d.items() if a < 0 and i == j), 'number of primes on the diagonal', **where)
    ctx.equal(v.weight(top), tuple(sum(1 for b, a in d.items() if abs(a) == k and b not in joined) for k in range(1, top + 1)), 'weight', **where)
    ctx.equal(v.is_highest_weight(), not joined, 'highest weight predicate', **where)
    ctx.equal({(i, j): x[0] for i, j, x in v.unprime().tableau}, {b: abs(a) if b in singles else a for b, a in d.items()}, 'unpriming', **where)
    ctx.equal({(i, j): x[0] for i, j, x in v.unprime_diagonal().tableau},
              {b: abs(a) if b in singles and b[0] == b[1] else a for b, a in d.items()}, 'unpriming the diagonal', **where)
    for _ in range(3):
        ask = [rng.choice((1, -1)) * max(1, rng.choice((top, top - 1, rng.randrange(1, top + 1)))) for _ in range(rng.randrange(1, 4))]
        held = {abs(a) for a in ask}
        got = (set(v.singletons(*ask)), v.diagonal_singletons(*ask), v.primed_diagonal_cells(*ask), v.primed_groups(*ask))
        want = ({b for b in singles if abs(d[b]) in held}, sorted(i for i, j in singles if i == j and abs(d[i, j]) in held),
                sorted(i for (i, j), a in d.items() if i == j and a < 0 and -a in held),
                sum(1 for b, a in d.items() if a < 0 and -a in held and b not in joined))
        ctx.equal(got, want, 'queries for several letters', letters=ask, **where)
    for k in sorted({abs(a) for a in d.values()} | {1, top}):
        ctx.equal(set(v.singletons(k)), {b for b in singles if abs(d[b]) == k}, 'singletons with a given letter', letter=k, **where)
        ctx.equal(v.diagonal_singletons(k), sorted(i for i, j in singles if i == j and abs(d[i, j]) == k), 'diagonal singletons with a given letter', letter=k, **where)
        ctx.equal(v.primed_diagonal_cells(k), sorted(i for (i, j), a in d.items() if i == j and a == -k), 'primed diagonal cells', letter=k, **where)
        ctx.equal(v.primed_groups(k), sum(1 for b, a in d.items() if a == -k and b not in joined), 'primed groups of a letter', letter=k, **where)
        runs = []
        for i, j in [b for b in d if d[b] == -k and b not in joined]:
            x = i
            while (x + 1, j) in joined and d[x + 1, j] == -k:
                x += 1
            runs.append(((i, j), (x, j)))
        ctx.equal(sorted(zip(*v.get_verticals(-k))), sorted(runs), 'vertical groups', letter=-k, **where)
        runs = []
        for i, j in [b for b in d if d[b] == k and b not in joined]:
            y = j
            while (i, y - 1) in joined and d[i, y - 1] == k:
                y -= 1
            runs.append(((i, y), (i, j)))
        ctx.equal(sorted(zip(*v.get_horizontals(k))), sorted(runs), 'horizontal groups', letter=k, **where)
    for k in sorted({abs(a) for a in d.values()} | {1}):
        bend = sorted(i for i, j in d if i == j and all(abs(d.get(b, 0)) in (k, k + 1) for b in ((i, i), (i, i + 1), (i + 1, i + 1))))
        if len(bend) < 2:
            ctx.equal(v.hinge(k), bend[0] if bend else None, 'bend of a band of two letters', letter=k, **where)
            ctx.ev('hinge', (k, tuple(sorted(d.items()))), trivial=not bend)


JOINTS = ' ..\u2502.\u2518\u2510\u2524.\u2514\u250c\u251c\u2500\u2534\u252c\u253c'  # by arms: 1 up, 2 down, 4 left, 8 right


def draw(ctx, v, d, joined, where):
    import tableaux
    text = str(v)
    ctx.equal(text, repr(v), 'printed twice')
    lines = text.strip('\n').split('\n')
    if not d:
        return
    rows, cols = max(i for i, j in d), max(j for i, j in d)
    width = (len(lines[0]) - cols - 1) // cols
    ctx.check(len(lines) == 2 * rows + 1 and all(len(x) == (width + 1) * cols + 1 for x in lines), 'size of a drawing', text=text, **where)
    at = lambda r, c: lines[r][(width + 1) * (c // 2) + c % 2]
    if getattr(tableaux, "FRENCH", True):
        for r in range(0, len(lines), 2):
            for c in range(0, 2 * cols + 1, 2):
                arms = (r > 0 and at(r - 1, c) == '\u2502') + 2 * (r + 1 < len(lines) and at(r + 1, c) == '\u2502') + 4 * (
                    c > 0 and at(r, c - 1) == '\u2500') + 8 * (c < 2 * cols and at(r, c + 1) == '\u2500')
                ctx.equal(JOINTS.find(at(r, c)), arms, 'a joint of walls in a drawing', row=r, column=c, text=text, **where)
        lines.reverse()
    apart = lambda b, c: not ((b in joined and partner(d, b) == c) or (c in joined and partner(d, c) == b))
    for i in range(1, rows + 1):
        line = lines[2 * i - 1]
        for j in range(0, cols + 1):
            if j:
                entry = line[(width + 1) * (j - 1) + 1:(width + 1) * j]
                a = d.get((i, j))
                ctx.equal(entry.strip(' .'), '' if a is None else str(abs(a)) + ("'" if a < 0 else ''), 'entry in a drawing', box=(i, j), text=text, **where)
                for k in (i - 1, i):  # the walls below and above
                    wall = lines[2 * k][(width + 1) * (j - 1) + 1:(width + 1) * j]
                    solid = ((k, j) in d or (k + 1, j) in d) and apart((k, j), (k + 1, j))
                    ctx.equal(wall, ('\u2500' if solid else ' ') * width, 'horizontal wall in a drawing', box=(i, j), text=text, **where)
            wall = line[(width + 1) * j]
            solid = ((i, j) in d or (i, j + 1) in d) and apart((i, j), (i, j + 1))
            ctx.equal(wall, '\u2502' if solid else ' ', 'vertical wall in a drawing', box=(i, j), text=text, **where)
    ctx.ev('drawing', (tuple(sorted(d.items())), tuple(sorted(joined))), trivial=not joined)


KINDS = {'read': read}
