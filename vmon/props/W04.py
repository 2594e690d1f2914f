import itertools
import random
from vmon import view, families as F

TITLE = 'Characters of words and the quasisymmetric functions they induce are right'
RULE = ('word: random words: every character against its definition by comparing neighbours, its (and that of two made-up characters) quasisymmetric function against a sum '
        'over all compositions, descents, ascents and peaks against cutting into pieces. Non-trivial = at least two letters.')
REQUIRED = {'word': 600, 'quasi': 3000}
ROUNDS = (24, 60)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 304)
    steps = [('word', rng.randrange(10 ** 9), rng.randrange(8)) for _ in range(240 if not deep else 800)]
    steps += [('word', rng.randrange(10 ** 9), l) for l in (8, 9, 10, 11)]
    steps += [('short', l, n) for l, n in ((0, 1), (1, 1), (2, 2), (3, 3), (4, 2))]
    return F.split(steps, 8)


def inc(w):
    return all(a < b for a, b in zip(w, w[1:]))


def dec(w):
    return all(a > b for a, b in zip(w, w[1:]))


def winc(w):
    return all(a <= b for a, b in zip(w, w[1:]))


def wdec(w):
    return all(a >= b for a, b in zip(w, w[1:]))


def cut(f, g):
    return lambda w: sum(1 for i in range(len(w) + 1) if f(w[:i]) and g(w[i:]))


ZETAS = {
    'increasing_zeta': lambda w: int(inc(w)), 'decreasing_zeta': lambda w: int(dec(w)),
    'weakly_increasing_zeta': lambda w: int(winc(w)), 'weakly_decreasing_zeta': lambda w: int(wdec(w)),
    'unimodal_zeta': cut(dec, inc), 'right_weakly_unimodal_zeta': cut(dec, winc),
    'left_weakly_unimodal_zeta': cut(wdec, inc), 'weakly_unimodal_zeta': cut(wdec, winc),
}


def compositions(n):
    for k in range(n):
        for cuts in itertools.combinations(range(1, n), k):
            yield tuple(zip((0,) + cuts, cuts + (n,)))
    if n == 0:
        yield ()


def fewest(w, ok):
    best = [0]
    for j in range(1, len(w) + 1):
        best.append(min(best[i] + 1 for i in range(j) if ok(w[i:j])))
    return best[-1]


def made_up(a, b):
    """A character supplied by the caller, unlike the library's own."""
    return lambda v: (sum(v) * a + len(v) * b) % 5 - 2


def examine(ctx, w):
    from words import Word
    before = tuple(w)
    rules = dict(ZETAS)
    rules.update({'made_up%d' % k: made_up(1 + k, 2 * k + 1) for k in range(2)})
    for name, rule in rules.items():
        z = getattr(Word, name, rule)
        ctx.equal(z(w), rule(w), name, word=w)
        want = {}
        for parts in compositions(len(w)):
            c = 1
            for a, b in parts:
                c *= rule(w[a:b])
                if not c:
                    break
            if c:
                want[tuple(b - a for a, b in parts)] = c
        got = Word.quasisymmetrize(w, z)
        ctx.equal({k: c for k, c in got.items()}, want, 'quasisymmetric function for %s' % name, word=w)
        ctx.ev('quasi', (name, w), trivial=len(w) < 2)
    ctx.equal(set(Word.descent_set(w)), {i for i in range(1, len(w)) if w[i - 1] > w[i]}, 'descent set', word=w)
    ctx.equal(Word.ascents(w), fewest(w, dec) - 1 if w else 0, 'ascents of a word', word=w)
    ctx.equal(Word.peaks(w), fewest(w, ZETAS['unimodal_zeta']), 'peaks of a word', word=w)
    ctx.equal(tuple(w), before, 'the word changed')
    ctx.ev('word', w, trivial=len(w) < 2)


def word(ctx, salt, l):
    rng = random.Random(salt)
    examine(ctx, tuple(rng.randrange(1, rng.choice((3, 6, 10))) for _ in range(l)))


def short(ctx, l, n):
    for w in itertools.product(range(1, n + 1), repeat=l):
        examine(ctx, w)


KINDS = {'word': word, 'short': short}
