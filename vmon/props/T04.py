import random
from vmon import ref, view, families as F

TITLE = 'Tableaux are immutable values that print and parse faithfully'
RULE = ('random edit programs (add, remove, set, replace, clear, pop, row and column cuts, transpose, apply...) next to a '
        'dictionary model, every earlier tableau re-read at the end; equality, hash and order against the model and against nearly equal fillings; the printed '
        'form parsed back. Non-trivial = non-empty tableau.')
REQUIRED = {'edit': 2500, 'query': 2500, 'text': 800, 'kept': 1000, 'order': 200, 'twin': 2000}
ROUNDS = (24, 40)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 24)
    steps = [('program', rng.randrange(10 ** 8)) for _ in range(2000 if deep else 400)]
    return F.split(steps, 40)


def snapshot(t):
    return view.tab(t)


def letters(rng, signed, big):
    top = 60 if big else 5
    v = rng.randrange(1, top)
    return -v if signed and rng.random() < 0.4 else v


def norm(v):
    return tuple(sorted(v)) if isinstance(v, tuple) else (v,)


def program(ctx, salt):
    from tableaux import Tableau
    rng = random.Random(salt)
    signed, big = rng.random() < 0.7, rng.random() < 0.3
    model = {}
    down, across = (5, 6) if rng.random() < .8 else rng.choice(((15, 15), (15, 4), (4, 15)))
    for _ in range(rng.randrange(0, 7)):
        k = rng.choice((1, 1, 1, 2, 3))
        model[(rng.randrange(1, down), rng.randrange(1, across))] = tuple(
            sorted({letters(rng, signed, big) for _ in range(k)}))
    t = Tableau(F.shuffled({b: (v if rng.random() < 0.5 or len(v) > 1 else v[0]) for b, v in model.items()}))
    ctx.equal(snapshot(t), model, 'a tableau does not hold the boxes it was built from')
    seen = []
    for step in range(7):
        seen.append((t, dict(model), hash(t), repr(t)))
        op = rng.choice(('add', 'add', 'remove', 'removev', 'set', 'replace', 'clear', 'pop', 'row', 'col', 'transpose',
                         'double', 'negate', 'apply'))
        box = rng.choice(sorted(model)) if model and rng.random() < 0.7 else (rng.randrange(1, down), rng.randrange(1, across))
        v = letters(rng, signed, big)
        m = dict(model)
        if op == 'add':
            u = t.add(box[0], box[1], v)
            m[box] = tuple(sorted(m.get(box, ()) + (v,)))
        elif op == 'remove' and box in m:
            u = t.remove(*box)
            del m[box]
        elif op == 'removev' and box in m:
            x = rng.choice(m[box])
            u = t.remove(box[0], box[1], x)
            rest = list(m[box])
            rest.remove(x)
            if rest:
                m[box] = tuple(rest)
            else:
                del m[box]
        elif op == 'set':
            u = t.set(box[0], box[1], v)
            m[box] = (v,)
        elif op == 'replace' and box in m:
            w = tuple(sorted({v, letters(rng, signed, big)}))
            u = t.replace(box[0], box[1], w)
            m[box] = w
        elif op == 'clear' and box in m:
            u = t.clear(*box)
            del m[box]
        elif op == 'pop' and m:
            top = max(abs(x) for w in m.values() for x in w)
            holders = [b for b in m if top in m[b] or -top in m[b]]
            if len(holders) != 1 or (top in m[holders[0]] and -top in m[holders[0]]) or m[holders[0]].count(top) > 1 \
                    or m[holders[0]].count(-top) > 1:
                continue
            b = holders[0]
            x = top if top in m[b] else -top
            ctx.equal(t.last(), x, 'last entry')
            ctx.equal(t.find(x), [b], 'box of the last entry')
            u, rec = t.pop()
            ctx.equal(rec, (b[0], b[1], x if len(m[b]) == 1 else m[b]), 'record of the popped entry')
            rest = tuple(y for y in m[b] if y != x)
            if len(set(rest)) < len(rest):
                continue
            if rest:
                m[b] = rest
            else:
                del m[b]
        elif op in ('row', 'col'):
            k = rng.randrange(1, 6)
            lo, hi = rng.choice(((None, None), (None, 2), (4, None), (5, 1), (0, None), (None, 0), (1, 0), (9, 3)))
            which = 0 if op == 'row' else 1
            u = (t.get_row if op == 'row' else t.get_column)(k, lo, hi)
            m = {b: w for b, w in m.items() if b[which] == k and (lo is None or b[1 - which] < lo)
                 and (hi is None or b[1 - which] > hi)}
            ctx.equal(snapshot(u), m, 'cut %s %r' % (op, (k, lo, hi)), tableau=sorted(model.items()))
            ctx.ev('edit', (op, salt, step))
            continue
        elif op == 'transpose':
            u = t.transpose()
            m = {(j, i): w for (i, j), w in m.items()}
        elif op == 'double':
            u = t.double()
            ctx.equal(snapshot(u.halve()), m, 'doubling then halving')
            m = {b: tuple(2 * x for x in w) for b, w in m.items()}
        elif op == 'negate':
            skip = rng.random() < 0.5
            u = t.negate(skip)
            m = {b: w if skip and b[0] == b[1] else tuple(sorted(-x for x in w)) for b, w in m.items()}
        elif op == 'apply':
            u = t.apply(lambda x: x + 1 if x > 0 else x - 1)
            m = {b: tuple(sorted(x + 1 if x > 0 else x - 1 for x in w)) for b, w in m.items()}
        else:
            continue
        ctx.equal(snapshot(u), m, 'tableau operation %s at %r' % (op, box), before=sorted(model.items()))
        ctx.ev('edit', (op, salt, step), trivial=not m)
        t, model = u, m
        query(ctx, t, model, rng, (salt, step))
    seen.append((t, dict(model), hash(t), repr(t)))
    for u, m, h, text in seen:
        ctx.equal(snapshot(u), m, 'a tableau changed after later operations')
        ctx.check(hash(u) == h and repr(u) == text, 'hash or printed form of a tableau changed', tableau=sorted(m.items()))
        ctx.ev('kept', tuple(sorted(m.items())), trivial=not m)
    for a in range(len(seen)):
        for b in range(len(seen)):
            same = seen[a][1] == seen[b][1]
            ctx.check((seen[a][0] == seen[b][0]) == same, 'equality of tableaux disagrees with their boxes')
            if same:
                ctx.check(seen[a][2] == seen[b][2], 'equal tableaux hash differently')
            ctx.check(not (seen[a][0] < seen[b][0] and seen[b][0] < seen[a][0]), 'order on tableaux is not antisymmetric')
    ctx.ev('order', salt)
    twins(ctx, t, model, rng, salt)


def twins(ctx, t, m, rng, salt):
    """Fillings that differ from m as little as possible must give different tableaux."""
    from tableaux import Tableau
    boxes = sorted(m)
    near = []
    for a, b in zip(boxes, boxes[1:]):
        if len(m[a]) > 1:
            near.append({**m, a: m[a][:-1], b: norm(m[a][-1:] + m[b])})
        if len(m[b]) > 1:
            near.append({**m, b: m[b][1:], a: norm(m[a] + m[b][:1])})
        near.append({**m, a: m[b], b: m[a]})
    for a in boxes:
        near.append({**m, a: norm(tuple(-x if k == 0 else x for k, x in enumerate(m[a])))})
        near.append({**m, a: norm(m[a] + m[a][:1])})
        near.append({b: w for b, w in m.items() if b != a})
        near.append({(a[0], a[1] + 1) if b == a and (a[0], a[1] + 1) not in m else b: w for b, w in m.items()})
    near.append({(j, i): w for (i, j), w in m.items()})
    near.append({(i + 1, j): w for (i, j), w in m.items()})
    rng.shuffle(near)
    for other in near[:12] + [dict(reversed(list(m.items())))]:
        u = Tableau(other)
        same = other == m
        ctx.check((t == u) == same and (u == t) == same, 'equality of two nearly equal tableaux', first=sorted(m.items()), second=sorted(other.items()))
        ctx.check((repr(t) == repr(u)) == same, 'printed forms of two nearly equal tableaux', first=sorted(m.items()), second=sorted(other.items()))
        ctx.check(hash(t) == hash(u) or not same, 'equal tableaux hash differently', first=sorted(m.items()))
        ctx.check(not (t < u and u < t) and not (same and (t < u or u < t)), 'order on tableaux is not antisymmetric',
                  first=sorted(m.items()), second=sorted(other.items()))
        again = Tableau(F.shuffled(m))
        ctx.check((again < u, u < again) == (t < u, u < t), 'order of two tableaux depends on how they were built',
                  first=sorted(m.items()), second=sorted(other.items()))
        ctx.ev('twin', (sorted(m.items()), sorted(other.items())), trivial=same)


def query(ctx, t, m, rng, key):
    from tableaux import Tableau
    entries = [x for w in m.values() for x in w]
    ctx.equal(t.size(), len(m), 'number of boxes')
    ctx.equal(len(t), len(entries), 'number of entries')
    ctx.equal(bool(t), bool(m), 'truth value')
    ctx.equal(t.abs_sum(), sum(map(abs, entries)), 'sum of absolute values')
    ctx.equal(t.values(), set(entries), 'set of values')
    ctx.equal(t.counter(), {x: entries.count(x) for x in set(entries)}, 'entry counter')
    ctx.equal(t.rpp_excess(), sum(1 for (i, j), w in m.items() if m.get((i + 1, j)) == w), 'boxes equal to the box above them')
    ctx.equal(t.setvalued_excess(), len(entries) - len(m), 'set-valued excess')
    n = max([abs(x) for x in entries] or [0])
    ctx.equal(t.weight(n + 1), tuple(sum(1 for x in entries if abs(x) == k) for k in range(1, n + 2)), 'weight')
    ctx.equal(t.weight(), tuple(sum(1 for x in entries if abs(x) == k) for k in range(1, n + 1)), 'weight')
    i, j = rng.choice(sorted(m)) if m and rng.random() < .4 else (rng.randrange(1, 6), rng.randrange(1, 7))
    ctx.equal((i, j) in t, (i, j) in m, 'membership of a box')
    ctx.equal(t.contains_box(i, j), (i, j) in m, 'membership of a box')
    ctx.equal(t.get(i, j, unpack=False), m.get((i, j)), 'packed entry at %r' % ((i, j),))
    w = m.get((i, j), 'none')
    ctx.equal(t.get(i, j, 'none'), w[0] if len(w) == 1 else w, 'entry at %r' % ((i, j),))
    ctx.equal(t.max_row(), max([0] + [b[0] for b in m]), 'largest row')
    ctx.equal(t.max_column(), max([0] + [b[1] for b in m]), 'largest column')
    ctx.equal(t.max_row(j), max([0] + [b[0] for b in m if b[1] == j]), 'largest row in a column')
    ctx.equal(t.max_column(i), max([0] + [b[1] for b in m if b[0] == i]), 'largest column in a row')
    ctx.equal(t.last_box_in_row(i), max([b[1] for b in m if b[0] == i] or [0]) or None, 'last box in row %d' % i)
    ctx.equal(t.last_box_in_column(j), max([b[0] for b in m if b[1] == j] or [0]) or None, 'last box in column %d' % j)
    ctx.equal(t.shape(), tuple(sum(1 for b in m if b[0] == r) for r in range(1, t.max_row() + 1)), 'shape')
    if entries:
        x = rng.choice(entries)
        ctx.equal(t.find(x), sorted(b for b, v in m.items() if x in v), 'boxes holding %d' % x)
    ctx.ev('query', key)
    text = '\n'.join(reversed(repr(t).strip('\n').split('\n')))
    back = Tableau(text)
    ctx.equal(snapshot(back), m, 'the printed form, read back from its bottom row up', printed=repr(t))
    ctx.check(back == t and hash(back) == hash(t), 'a tableau read back from text is not equal to the original', printed=repr(t))
    lines = text.split('\n') if m else []
    starts = {tuple(k for k, x in enumerate(' ' + line) if x != ' ' and (' ' + line)[k - 1] == ' ') for line in lines}
    ctx.check(len(starts) < 2, 'the columns of a printed tableau are not aligned', printed=repr(t))
    cells = {(r + 1, c + 1): w for r, line in enumerate(lines) for c, w in enumerate(line.split()) if w != '.'}
    ctx.equal(cells, {b: ','.join("%d'" % -x if x < 0 else str(x) for x in sorted(w, key=lambda x: (abs(x), x))) for b, w in m.items()},
              'printed entries')
    typeset = [[c.strip() for c in line.split('&')] for line in t.tex().replace('\\begin{ytableau}', '').replace('\\end{ytableau}', '').split('\\\\')]
    ctx.equal([[sorted(map(int, c.split(','))) for c in row] for row in typeset if row != ['']],
              [[sorted(m[b]) for b in sorted(m) if b[0] == r] for r in sorted({b[0] for b in m}, reverse=True)],
              'typeset entries', typeset=t.tex())
    one = Tableau(text.replace('\n', ' ; '))
    ctx.equal(snapshot(one), m, 'the same text on one line')
    ctx.ev('text', text, trivial=not m)


KINDS = {'program': program}
