import itertools
import random
from vmon import ref, perm, ins, families as F

TITLE = 'Reduced words and Hecke words of permutations are exactly enumerated'
RULE = ('reduced: the reduced words of signed and unsigned permutations against braid-free search, with the shared cache filled in '
        'random order and by half-consumed generators; many: larger ranks, each word walked down to the identity and the number computed by recursion; hecke: the Hecke words of a permutation under length and ascent bounds against '
        'direct filtering of all words. Non-trivial = length at least 2.')
ROUNDS = (24, 60)
REQUIRED = {'many': 60, 'reduced': 500, 'hecke': 80, 'partial': 40, 'one word': 300}


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 57)
    steps = []
    for n in (1, 2, 3, 4) + ((5,) if deep else ()):
        steps += [('reduced', w) for w in perm.everything(n)]
    for n in (1, 2) + ((3,) if deep else ()):
        steps += [('reduced', w) for w in perm.everything(n, True)]
    steps += [('reduced', perm.random_perm(rng, 5, False)) for _ in range(120 if deep else 40)]
    sig = [perm.random_perm(rng, rng.choice([3, 3, 4]), True) for _ in range(80)]
    steps += [('reduced', w) for w in sig if perm.length(w) <= 9]
    steps += [('partial', perm.random_perm(rng, 4, False), rng.randrange(1, 5)) for _ in range(20)]
    for w in perm.everything(3):
        for lb, ab in [(4, None), (5, 2), (5, 3), (3, 1), (0, None), (6, 3), (2, 2), (4, 0)]:
            steps.append(('hecke', w, lb, ab))
    for w in rng.sample(list(perm.everything(4)), 24 if deep else 10):
        steps.append(('hecke', w, rng.randrange(2, 7), rng.choice([None, 2, 3, 4])))
    for _ in range(8):
        steps.append(('hecke', perm.sparse(rng, rng.randint(5, 7), rng.randint(1, 3)), rng.choice((2, 3, 3)), rng.choice((None, 1, 2, 3))))
    steps += [('single', perm.random_perm(rng, rng.randrange(2, 13), rng.random() < .5)) for _ in range(150)]
    many = [perm.random_perm(rng, rng.choice([5, 6, 6, 7, 8]), False) for _ in range(600 if deep else 150)]
    many += [perm.random_perm(rng, rng.choice([3, 4, 4, 5]), True) for _ in range(300 if deep else 80)]
    steps += [('many', w) for w in many if perm.number_of_words(w, 'plain') <= (20000 if deep else 1500)]
    rng.shuffle(steps)
    return F.split(steps, 20)


def ordinary(w):
    from permutations import Permutation
    return Permutation(*w)


def reduced(ctx, w):
    p = ordinary(w)
    for turn in range(2):
        got = list(p.get_reduced_words() if turn else p.reduced_words)
        ctx.equal(len(got), len(set(got)), 'repeated reduced word', w=w)
        ctx.equal(set(got), perm.reduced_words(ref.strip(w)), 'reduced words', w=w, turn=turn)
    ctx.check(p.reduced_word in set(got), 'the reduced word is not among the reduced words', w=w)
    ctx.ev('reduced', w, trivial=perm.length(w) < 2)


def many(ctx, w):
    p = ordinary(w)
    got = list(p.get_reduced_words())
    ctx.equal(len(got), perm.number_of_words(w, 'plain'), 'number of reduced words', w=w)
    ctx.equal(len(set(got)), len(got), 'repeated reduced word', w=w)
    for v in got:
        ctx.check(perm.word_ends_at(v, w, 'plain'), 'not a reduced word', w=w, word=v)
    ctx.equal(len(list(p.reduced_words)), len(got), 'reduced words listed again', w=w)
    ctx.ev('many', w, trivial=len(got) < 2)


def partial(ctx, w, k):
    p = ordinary(w)
    gens = [p.get_reduced_words() for _ in range(3)]
    heads = [[next(g, None) for _ in range(k)] for g in gens]
    ctx.check(all(h is None or h in perm.reduced_words(ref.strip(w)) for hs in heads for h in hs), 'not a reduced word', w=w)
    for g, hs in zip(gens, heads):
        rest = list(g)
        all_words = [h for h in hs if h is not None] + rest
        ctx.equal(sorted(all_words), sorted(perm.reduced_words(ref.strip(w))), 'reduced words from a resumed generator', w=w, taken=k)
        ctx.ev('partial', (w, k), trivial=perm.length(w) < 2)
    reduced(ctx, w)


def hecke(ctx, w, lb, ab):
    from permutations import Permutation
    n = len(ref.strip(w))
    got = list(ordinary(w).get_hecke_words(length_bound=lb, ascent_bound=ab))
    ctx.equal(len(got), len(set(got)), 'repeated Hecke word', w=w)
    want = set()
    for m in range(lb + 1):
        for word in itertools.product(range(1, n), repeat=m):
            if ab is not None and m and 1 + sum(a <= b for a, b in zip(word, word[1:])) > ab:
                continue
            if ins.hecke_product(word, n) == ref.strip(w):
                want.add(word)
    ctx.equal(set(got) - want, set(), 'words listed that are not Hecke words within the bounds', w=w, bounds=(lb, ab))
    ctx.equal(want - set(got), set(), 'Hecke words missing', w=w, bounds=(lb, ab))
    ctx.ev('hecke', (w, lb, ab), trivial=lb < 2)


def single(ctx, w):
    word = ordinary(w).reduced_word
    ctx.equal((perm.product(word, len(w)), len(word)), (w, perm.length(w)), 'reduced word', word=word)
    ctx.ev('one word', w, trivial=perm.length(w) < 2)


KINDS = {'many': many, 'reduced': reduced, 'partial': partial, 'hecke': hecke, 'single': single}
