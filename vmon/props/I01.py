import itertools
import random
from vmon import ref, view, ins, families as F

TITLE = 'Hecke insertion is a bijection onto pairs of tableaux'
RULE = ('words: every word of a length over an alphabet, in shuffled order against a shared cache; pairs: every (increasing, standard '
        'set-valued) pair of a size, inserted backwards; records: random words with random admissible records in both conventions, and inadmissible ones, which must be refused. '
        'Non-trivial = at least two letters.')
REQUIRED = {'forward': 3000, 'backward': 1000, 'record': 600, 'census': 8, 'refused': 600}
ROUNDS = (12, 40)
KIND = 'hecke'


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 31)
    steps = []
    for k, m in [(1, 3), (2, 5), (3, 5), (4, 4), (3, 6)] + ([(2, 8), (5, 5), (4, 6)] if deep else []):
        steps.append(('words', k, m, rng.randrange(10 ** 8)))
    for k, m in [(2, 4), (3, 4), (4, 4), (2, 6)] + ([(3, 6), (5, 4)] if deep else []):
        steps.append(('pairs', k, m, rng.randrange(10 ** 8)))
    for i in range(300 if deep else 60):
        steps.append(('records', rng.randrange(10 ** 8)))
    rng.shuffle(steps)
    return F.split(steps, 24)


# ------------------------------------------------- the three insertion algorithms

def setup(kind):
    from insertion import InsertionAlgorithm as A
    return {'hecke': (A.hecke, A.inverse_hecke, ins.hecke_product, False),
            'symplectic': (A.symplectic_hecke, A.inverse_symplectic_hecke, ins.fpf_product, True),
            'orthogonal': (A.orthogonal_hecke, A.inverse_orthogonal_hecke, ins.inv_product, True)}[kind]


def rank(kind, k):
    n = k + 1
    return n + 1 if kind == 'symplectic' and n % 2 else n


def single(t):
    cells = view.tab(t)
    assert all(len(v) == 1 for v in cells.values())
    return {b: v[0] for b, v in cells.items()}


def is_shape(boxes, shifted):
    rows = {}
    for i, j in boxes:
        rows.setdefault(i, []).append(j)
    prev = None
    for t in range(1, len(rows) + 1):
        r = sorted(rows.get(t, []))
        start = t if shifted else 1
        if not r or r != list(range(start, start + len(r))):
            return False
        if prev is not None and len(r) > prev - (1 if shifted else 0):
            return False
        prev = len(r)
    return True


def check_p(ctx, kind, word, p, k, transposed=False):
    fwd, back, product, shifted = setup(kind)
    pc = single(p)
    if transposed:
        pc = {(j, i): a for (i, j), a in pc.items()}
    ctx.check(is_shape(pc, shifted), 'the insertion tableau does not have a partition shape', word=word, boxes=sorted(pc))
    ctx.check(ins.is_increasing(pc), 'the insertion tableau is not increasing', word=word, tableau=sorted(pc.items()))
    ctx.equal(product(ins.row_word(pc), rank(kind, k)), product(word, rank(kind, k)),
              'the reading word of the insertion tableau has another product', word=word, tableau=sorted(pc.items()))
    return pc


def words(ctx, k, m, seed, kind='hecke'):
    fwd, back, product, shifted = setup(kind)
    allw = [w for w in itertools.product(range(1, k + 1), repeat=m) if product(w, rank(kind, k)) is not None]
    random.Random(seed).shuffle(allw)
    seen = {}
    for w in allw:
        p, q = fwd(w)
        pc = check_p(ctx, kind, w, p, k)
        qc = view.tab(q)
        ctx.equal(set(qc), set(pc), 'the two tableaux have different shapes', word=w)
        ctx.equal(sorted(abs(x) for v in qc.values() for x in v), list(range(1, m + 1)), 'letters of the recording tableau', word=w)
        bad = ins.semistandard(qc, False)
        ctx.check(bad is None, 'the recording tableau is not standard', word=w, where=bad, tableau=sorted(qc.items()))
        ctx.check(not shifted or all(x > 0 for (i, j), v in qc.items() if i == j for x in v),
                  'primed letter on the diagonal of a recording tableau', word=w, tableau=sorted(qc.items()))
        key = (tuple(sorted(pc.items())), tuple(sorted(qc.items())))
        ctx.check(key not in seen, 'two words insert to the same pair', word=w, other=seen.get(key))
        seen[key] = w
        ctx.equal(back(p, q), (w, tuple(range(1, m + 1))), 'inverse insertion', word=w)
        if kind == 'hecke' and m:
            where = {x: b for b, v in qc.items() for x in v}
            got = [t for t in range(1, m) if where[t + 1][0] > where[t][0]]
            ctx.equal(got, [t for t in range(1, m) if w[t - 1] > w[t]], 'descents of the recording tableau', word=w,
                      tableau=sorted(qc.items()))
        ctx.ev('forward', (kind, w), trivial=m < 2)
    # census: the image is everything
    total = 0
    for shape, qs in ins.standard_setvalued(m, shifted).items():
        ps = [f for f in ins.increasing_fillings(ref.cells(shape, (), shifted), k) if product(ins.row_word(f), rank(kind, k)) is not None]
        total += len(ps) * len(qs)
    ctx.equal(len(seen), total, 'number of pairs of tableaux hit by the insertion of words', alphabet=k, length=m)
    ctx.ev('census', (kind, k, m))


def pairs(ctx, k, m, seed, kind='hecke', cap=1500):
    from tableaux import Tableau
    fwd, back, product, shifted = setup(kind)
    rng = random.Random(seed)
    todo = []
    for shape, qs in ins.standard_setvalued(m, shifted).items():
        for f in ins.increasing_fillings(ref.cells(shape, (), shifted), k):
            if product(ins.row_word(f), rank(kind, k)) is not None:
                todo += [(f, q) for q in qs]
    rng.shuffle(todo)
    seen = set()
    for f, q in todo[:cap]:
        p, q = Tableau(F.shuffled(f)), Tableau(F.shuffled(q))
        w, rec = back(p, q)
        ctx.equal(rec, tuple(range(1, m + 1)), 'record of a standard recording tableau', tableau=sorted(f.items()))
        ctx.check(w not in seen, 'two pairs give the same word', word=w)
        seen.add(w)
        ctx.equal(product(w, rank(kind, k)), product(ins.row_word(f), rank(kind, k)), 'product of the recovered word', word=w,
                  tableau=sorted(f.items()))
        again = fwd(w)
        ctx.check(again[0] == p and again[1] == q, 'inserting the recovered word does not give the pair back', word=w,
                  p=sorted(f.items()), q=view.pairs(view.tab(q)))
        ctx.ev('backward', (kind, tuple(sorted(f.items())), view.pairs(view.tab(q))), trivial=m < 2)


def random_word(rng, kind, k, m):
    product = setup(kind)[2]
    if kind != 'symplectic':
        return tuple(rng.randrange(1, k + 1) for _ in range(m))
    word = ()
    while len(word) < m:
        opts = [a for a in range(1, k + 1) if product(word + (a,), rank(kind, k)) is not None]
        word += (rng.choice(opts),)
    return word


def hostile_word(rng, kind):
    """Words whose tableaux are tall rectangles or staircases, followed by a few letters that may add nothing, moved up the alphabet."""
    product = setup(kind)[2]
    style = rng.randrange(3)
    if kind == 'hecke' or (kind == 'orthogonal' and style == 0):
        h, width = rng.choice(((rng.randrange(4, 10), rng.randrange(1, 3)), (rng.randrange(1, 3), rng.randrange(4, 10)), (rng.randrange(3, 5),) * 2))
        word = tuple(c + h - t for c in range(width) for t in range(h))
        extra = 1
    else:
        r = rng.randrange(2, 6)
        rows = range(r, 0, -1)
        if style == 1:   # a staircase, or one with the last columns cut
            cut = rng.randrange(0, 2)
            word = tuple(i + j - 1 for i in rows for j in range(i, r + 1 - (cut if i < r else 0)))
        else:            # every diagonal box two above the one before
            word = tuple(2 * i + t - 1 for i in rows for t in range(r + 1 - i))
        extra = 2 if kind == 'symplectic' else 1
        word = tuple(extra * a for a in word)
    if rng.random() < .3 and len(word) > 3:
        t = rng.randrange(len(word))
        word = word[:t] + word[t + 1:]
    k = max(word)
    if kind == 'symplectic':
        while product(word, rank(kind, k)) is None:
            word = word[:-1]
        k = max(word)
    for _ in range(rng.randrange(1, 6)):
        opts = [a for a in range(1, k + 2) if kind != 'symplectic' or product(word + (a,), rank(kind, k + 1)) is not None]
        opts += [a for a in opts if a < 4] * 3
        word += (rng.choice(opts),)
    up = rng.choice((0, 0, 1, 5, 30, 140)) * (2 if kind == 'symplectic' else 1)
    return tuple(a + up for a in word)


def records(ctx, seed, kind='hecke'):
    fwd, back, product, shifted = setup(kind)
    rng = random.Random(seed)
    big = rng.random() < 0.3
    for _ in range(12):
        k = rng.randrange(2, 9) if rng.random() < .85 else rng.randrange(9, 14)
        m = rng.randrange(0, 19 if big else 9) if rng.random() < .93 else rng.randrange(20, 32)
        word = random_word(rng, kind, k, m)
        if rng.random() < .25:
            word = hostile_word(rng, kind)
            k, m = max(word), len(word)
        for multi in (True, False):
            rec = ins.random_record(rng, word, multi)
            p, q = fwd(word, rec, multisetvalued=multi)
            pc = check_p(ctx, kind, word, p, k, transposed=(kind == 'hecke' and not multi))
            if kind == 'hecke' and not multi:
                pc = {(j, i): a for (i, j), a in pc.items()}
            qc = view.tab(q)
            ctx.equal(set(qc), set(pc), 'the two tableaux have different shapes', word=word, record=rec)
            ctx.equal(sorted(abs(x) for v in qc.values() for x in v), sorted(rec), 'letters of the recording tableau', word=word, record=rec)
            bad = ins.semistandard(qc, multi)
            ctx.check(bad is None, 'the recording tableau is not semistandard', word=word, record=rec, multi=multi, where=bad,
                      tableau=sorted(qc.items()))
            ctx.check(not shifted or all(x > 0 for (i, j), v in qc.items() if i == j for x in v),
                      'primed letter on the diagonal of a recording tableau', word=word, record=rec, tableau=sorted(qc.items()))
            ctx.equal(back(p, q, multisetvalued=multi), (word, rec), 'inverse insertion', record=rec, multi=multi)
            ctx.ev('record', (kind, word, rec, multi), trivial=m < 2)
            refuse(ctx, rng, kind, word, rec, multi)


def refuse(ctx, rng, kind, word, rec, multi):
    """A record that stays the same where the convention needs it to grow, or is not weakly increasing or too short, is not accepted."""
    places = [t for t in range(len(word) - 1) if (word[t] > word[t + 1] if multi else word[t] <= word[t + 1])]
    bad = []
    if places:
        t = rng.choice(places)
        bad.append(('flat', tuple(a if x <= t else a - (rec[t + 1] - rec[t]) for x, a in enumerate(rec))))
    if len(set(rec)) > 1:
        bad.append(('decreasing', tuple(reversed(rec))))
    if rec:
        bad.append(('short', rec[:-1]))
    for name, wrong in bad:
        try:
            setup(kind)[0](word, wrong, multisetvalued=multi)
        except Exception:
            ctx.ev('refused', (kind, name, word, wrong, multi))
            continue
        ctx.check(False, 'an inadmissible record was accepted', kind=name, word=word, record=wrong, multi=multi)


KINDS = {'words': words, 'pairs': pairs, 'records': records}
