import random
from vmon import ref, view, families as F
from vmon.ref import PRIME

TITLE = 'Standardisation, descents, reading words and shape tests are correct'
RULE = ('standardize: order-preserving relabelling observed on every filling of many shapes; descents: fundamental expansions of '
        's, P and Q summed over standard fillings, evaluated modulo 2^61-1; predicates: is_semistandard/is_standard against the '
        'definition on random fillings; words: reading words rebuild their tableaux. Non-trivial = at least two boxes.')
REQUIRED = {'signed word': 80, 'superstandard': 300, 'standardize': 1500, 'descents': 60, 'predicate': 1500, 'word': 600, 'crystal word': 600, 'fibre': 60, 'large': 1500}
ROUNDS = (36, 60)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 25)
    steps = []
    for lam in ref.partitions_upto(6 if deep else 5):
        steps.append(('descents', 's', lam))
        for mu in sorted(ref.subpartitions(lam)):
            if sum(lam) - sum(mu) <= 5 and (deep or rng.random() < 0.4):
                steps.append(('standardize', 'marked', lam, mu, 2))
                steps.append(('standardize', 'plain', lam, mu, 3))
        if sum(lam) <= 4:
            steps.append(('standardize', 'marked_setvalued', lam, (), 2 if sum(lam) < 4 else 1))
            steps.append(('words', lam, 3, True))
        steps.append(('words', lam, 3, False))
    for lam in ref.strict_upto(7 if deep else 6):
        steps.append(('descents', 'P', lam))
        if sum(lam) <= 6:
            steps.append(('descents', 'Q', lam))
        if sum(lam) <= 5:
            steps.append(('standardize', 'shifted', lam, (), 3))
    for i in range(800 if deep else 120):
        steps.append(('predicates', rng.randrange(10 ** 8)))
    steps += [('large', rng.randrange(10 ** 9)) for _ in range(600 if deep else 100)]
    steps += [('signed_words', rng.randrange(10 ** 9)) for _ in range(500 if deep else 100)]
    rng.shuffle(steps)
    return F.split(steps, 40)


OPTS = {'plain': (False, {}), 'marked': (False, dict(marked=True)), 'shifted': (True, dict(marked=True)),
        'marked_setvalued': (False, dict(marked=True, setvalued=True))}


def standardize(ctx, kind, lam, mu, n):
    from tableaux import Tableau
    shifted, opts = OPTS[kind]
    fibres = {}
    for fill in ref.fillings(ref.cells(lam, mu, shifted), n, **opts):
        cells = dict(fill)
        t = Tableau(F.shuffled(cells))
        got = view.tab(t.standardize())
        entries = []
        for b, v in cells.items():
            for x in v:
                entries.append((x, b))
        order = sorted(entries, key=lambda e: (2 * e[0], e[1][1], -e[1][0]) if e[0] > 0 else (-2 * e[0] - 1, e[1][0], -e[1][1]))
        want = {}
        for k, (x, b) in enumerate(order):
            want.setdefault(b, []).append(k + 1 if x > 0 else -k - 1)
        ctx.equal(got, {b: tuple(sorted(v)) for b, v in want.items()}, 'standardisation', tableau=sorted(cells.items()))
        if kind in ('plain', 'marked', 'shifted'):
            again = view.tab(Tableau(got).standardize())
            ctx.equal(again, got, 'standardising twice', tableau=sorted(cells.items()))
            w = t.weight(n)
            key = (w, tuple(sorted(got.items())))
            ctx.check(key not in fibres, 'two fillings of equal weight have the same standardisation',
                      first=fibres.get(key), second=sorted(cells.items()))
            fibres[key] = sorted(cells.items())
        ctx.ev('standardize', (kind, tuple(sorted(cells.items()))), trivial=len(cells) < 2)
    ctx.ev('fibre', (kind, lam, mu, n))


def relabelled(cells):
    entries = [(x, b) for b, v in cells.items() for x in v]
    order = sorted(entries, key=lambda e: (2 * e[0], e[1][1], -e[1][0]) if e[0] > 0 else (-2 * e[0] - 1, e[1][0], -e[1][1]))
    want = {}
    for k, (x, b) in enumerate(order):
        want.setdefault(b, []).append(k + 1 if x > 0 else -k - 1)
    return {b: tuple(sorted(v)) for b, v in want.items()}


def grown(rng, shifted, letters, boxes):
    """A random marked filling, grown strip by strip (letters 1' < 1 < 2' < ...), and possibly with repeated or further letters in its boxes."""
    rows, cells = [], {}
    for k in range(1, letters + 1):
        for prime in (True, False):
            for _ in range(rng.choice((0, 1, 1, 2, 3, 5))):
                if len(cells) >= boxes:
                    return cells
                spots = []
                for i in range(len(rows) + 1):
                    j = (rows[i] if i < len(rows) else i if shifted else 0) + 1
                    if i and j > rows[i - 1]:
                        continue
                    b = (i + 1, j)
                    side = (i + 1, j - 1) if prime else (i, j)
                    if cells.get(side, (0,))[-1] != (-k if prime else k) and not (shifted and prime and i + 1 == j and rng.random() < .7):
                        spots.append(b)
                if not spots:
                    break
                b = rng.choice(spots)
                cells[b] = (-k if prime else k,)
                if b[0] > len(rows):
                    rows.append(b[1])
                else:
                    rows[b[0] - 1] = b[1]
    return cells


def large(ctx, salt):
    from tableaux import Tableau
    rng = random.Random(salt)
    shifted = rng.random() < .6
    cells = grown(rng, shifted, rng.randrange(2, 12), rng.choice((6, 12, 20, 30)))
    key = tuple(sorted(cells.items()))
    t = Tableau(F.shuffled(cells))
    ctx.check(t.is_semistandard(True), 'a semistandard filling is not recognised', tableau=key)
    std = relabelled(cells)
    s = t.standardize()
    ctx.equal(view.tab(s), std, 'standardisation', tableau=key)
    where = {abs(v[0]): (v[0], b) for b, v in std.items()}
    want = set()
    for i in range(1, len(where)):
        (v, (a, b)), (w, (c, d)) = where[i], where[i + 1]
        # no semistandard filling gives i and i + 1 the same letter
        if (v > 0 and w < 0) or (v > 0 and w > 0 and not (b < d and c <= a)) or (v < 0 and w < 0 and not (a < c and d <= b)):
            want.add(i)
    got = s.descent_set()
    ctx.equal(set(got), want, 'descents', tableau=sorted(std.items()))
    size = 0
    for k in range(1, 1 + max(map(abs, (v[0] for v in cells.values())), default=0)):
        n = sum(1 for v in cells.values() if abs(v[0]) == k)
        ctx.check(not (set(range(size + 1, size + n)) & set(got)), 'a descent inside the run of one letter', tableau=key)
        size += n
    # the coarsest filling with this standardisation: equal letters between two descents
    merged = {b: ((1 + sum(1 for d in got if d < abs(v[0]))) * (1 if v[0] > 0 else -1),) for b, v in std.items()}
    u = Tableau(F.shuffled(merged))
    ctx.check(u.is_semistandard(True), 'letters merged between descents are not semistandard', tableau=sorted(std.items()), merged=sorted(merged.items()))
    ctx.equal(view.tab(u.standardize()), std, 'standardisation of the letters merged between descents', merged=sorted(merged.items()))
    multi = {b: tuple(sorted(v * rng.choice((1, 1, 2, 3)))) for b, v in cells.items()}
    ctx.equal(view.tab(Tableau(multi).standardize()), relabelled(multi), 'standardisation with repeated letters in a box', tableau=sorted(multi.items()))
    ctx.ev('large', key, trivial=len(cells) < 2)


def descents(ctx, fam, lam):
    from tableaux import Tableau
    m = sum(lam)
    n = 4
    xs = F.POINTS[0][:n]
    total = 0
    tabs = Tableau.standard(lam) if fam == 's' else Tableau.standard_shifted_marked(lam, (), fam == 'Q')
    for t in tabs:
        total += ref.fundamental_value(t.descent_set(), m, xs)
    ctx.equal(total % PRIME, F.value(fam, lam, (), xs, 0),
              'sum of fundamental polynomials over the descent sets of standard fillings of %r (%s)' % (lam, fam))
    ctx.ev('descents', (fam, lam), trivial=m < 2)


def predicates(ctx, salt):
    from tableaux import Tableau
    rng = random.Random(salt)
    shifted = rng.random() < 0.6
    lam = rng.choice([s for s in (ref.strict_upto(6) if shifted else ref.partitions_upto(6)) if s])
    boxes = ref.cells(lam, (), shifted)
    if rng.random() < 0.5:
        base = rng.choice(ref.standard_fillings(boxes, True, True))
        cells = dict(base)
        for _ in range(rng.randrange(0, 3)):
            b = rng.choice(boxes)
            cells[b] = (rng.choice((1, -1)) * rng.randrange(1, len(boxes) + 1),)
    else:
        cells, far = {}, 0
        if rng.random() < .4:
            rows = sorted((rng.randrange(1, 9) for _ in range(rng.randrange(1, 6))), reverse=True)
            lam, far = tuple(sorted(set(rows), reverse=True) if shifted else rows), rng.choice((0, 7))
            boxes = ref.cells(lam, (), shifted)
        for b in boxes:
            lo = far + 1 + (b[0] - 1) + (b[1] - b[0]) // 2
            cells[b] = tuple(sorted({rng.choice((1, -1)) * (lo + rng.randrange(0, 2)) for _ in range(rng.choice((1, 1, 2)))}))

    def dbl(v):
        return 2 * v if v > 0 else -1 - 2 * v

    def ok(diag):
        for (i, j), v in cells.items():
            if i == j and not diag and min(v) < 0:
                return False
            for (k, l) in ((i, j + 1), (i + 1, j)):
                if (k, l) in cells:
                    a, b = max(map(dbl, v)), min(map(dbl, cells[(k, l)]))
                    if a > b or (a == b and a % 2 == (0 if k > i else 1)):
                        return False
        return True
    t = Tableau(F.shuffled(cells))
    for diag in (False, True):
        ctx.equal(bool(t.is_semistandard(diag)), ok(diag), 'is_semistandard(%r)' % diag, tableau=sorted(cells.items()))
        ctx.ev('predicate', (diag, tuple(sorted(cells.items()))), trivial=len(cells) < 2)
    vals = sorted(abs(x) for v in cells.values() for x in v)
    ctx.equal(bool(t.is_standard()), ok(False) and vals == list(range(1, len(vals) + 1)), 'is_standard',
              tableau=sorted(cells.items()))
    ctx.ev('predicate', ('standard', tuple(sorted(cells.items()))), trivial=len(cells) < 2)
    for s in list(ref.standard_fillings(boxes, True, False))[:20] if len(boxes) < 8 else ():
        u = Tableau(dict(s))
        ctx.check(u.is_standard() and u.is_semistandard() and u.is_semistandard(True), 'a standard filling is not recognised',
                  tableau=sorted(s))
        ctx.ev('predicate', ('known', tuple(sorted(s))), trivial=len(s) < 2)


def words(ctx, lam, n, setvalued):
    from tableaux import Tableau
    for fill in ref.fillings(ref.cells(lam), n if not setvalued else 2 if sum(lam) > 3 else 3, setvalued=setvalued):
        cells = dict(fill)
        t = Tableau(F.shuffled(cells))
        rows, cols = {}, {}
        for (i, j), v in sorted(cells.items()):
            rows.setdefault(i, []).append(v)
            cols.setdefault(j, []).append(v)
        ctx.equal(t.row_reading_word(), tuple(x for i in sorted(rows, reverse=True) for v in rows[i] for x in v),
                  'row reading word', tableau=sorted(cells.items()))
        ctx.equal(t.column_reading_word(), tuple(x for j in sorted(cols) for v in reversed(cols[j]) for x in v),
                  'column reading word', tableau=sorted(cells.items()))
        if not setvalued:
            ctx.equal(view.tab(Tableau.from_row_reading_word(t.row_reading_word())), cells, 'tableau rebuilt from its row word')
        ctx.ev('word', tuple(sorted(cells.items())), trivial=len(cells) < 2)
        cw = t.crystal_reading_word()
        ctx.equal(view.tab(Tableau.from_crystal_reading_word(cw)), cells, 'tableau rebuilt from its crystal reading word',
                  word=cw)
        ctx.equal(sorted(x for c in cw for x in c), sorted(x for v in cells.values() for x in v), 'letters of the crystal word')
        ctx.ev('crystal word', tuple(sorted(cells.items())), trivial=len(cells) < 2)


def signed_words(ctx, salt):
    """Words of shifted tableaux with primes, and the column superstandard predicate."""
    from tableaux import Tableau
    rng = random.Random(salt)
    lam = rng.choice([s for s in ref.strict_upto(7) if s])
    boxes = ref.cells(lam, (), True)
    cells = {b: tuple(sorted({rng.choice((1, -1)) * rng.randrange(1, 6) for _ in range(rng.choice((1, 1, 1, 2)))})) for b in boxes}
    t = Tableau(F.shuffled(cells))
    held = {(i, j): v for i, j, v in t}
    primed = [-a for b in sorted(boxes, key=lambda b: (b[1], -b[0])) for a in held[b] if a < 0]
    plain = [a for b in sorted(boxes, key=lambda b: (-b[0], b[1])) for a in held[b] if a > 0]
    ctx.equal(t.shifted_reading_word(), tuple(primed[::-1] + plain), 'shifted reading word', tableau=sorted(cells.items()))
    ctx.ev('signed word', tuple(sorted(cells.items())), trivial=len(cells) < 2)
    rows, lo = [], 0                      # a tableau with long rows, rebuilt from its row word
    n = sorted((rng.randrange(1, 15) for _ in range(rng.randrange(1, 5))), reverse=True)
    for k, a in enumerate(n):
        rows.append(sorted(rng.randrange(1, 6) + 5 * k for _ in range(a)))
    full = {(i + 1, j + 1): (x,) for i, r in enumerate(rows) for j, x in enumerate(r)}
    word = tuple(x for r in reversed(rows) for x in r)
    ctx.equal(Tableau(full).row_reading_word(), word, 'row reading word', rows=rows)
    ctx.equal(view.tab(Tableau.from_row_reading_word(word)), full, 'tableau rebuilt from its row word', word=word)
    order = sorted(boxes, key=lambda b: (b[1], b[0]))
    best = {b: k + 1 for k, b in enumerate(order)}
    for turn in range(4):
        d = dict(best)
        if turn == 1:
            x, y = rng.choice(boxes), rng.choice(boxes)
            d[x], d[y] = d[y], d[x]
        elif turn == 2:
            b = rng.choice(boxes)
            d[b] += rng.choice((0, 1))
        elif turn == 3:
            d = {b: k + 1 for k, b in enumerate(sorted(boxes))}
        ctx.equal(bool(Tableau(d).is_shifted_column_superstandard()), d == best, 'is_shifted_column_superstandard', tableau=sorted(d.items()))
        ctx.ev('superstandard', tuple(sorted(d.items())), trivial=len(d) < 2)


KINDS = {'large': large, 'signed_words': signed_words, 'standardize': standardize, 'descents': descents, 'predicates': predicates, 'words': words}
