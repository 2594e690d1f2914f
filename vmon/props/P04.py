import random
from vmon import ref, perm, ins, families as F

TITLE = 'Fixed-point-free involution words and atoms are exactly enumerated'
RULE = ('the words and atoms of every fixed-point-free involution of small even rank against breadth-first search, in random order, '
        'also through presentations with extra two-cycles at the end; many: larger ones, each word walked down to the bottom and the number computed by recursion; single: single words. Non-trivial = word length at '
        'least 2.')
ROUNDS = (24, 36)
REQUIRED = {'many': 40, 'words': 60, 'atoms': 200, 'single': 100, 'built': 150}


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 67)
    pool = perm.fpf(2) + perm.fpf(4) + perm.fpf(6)
    steps = []
    for z in pool:
        steps += [('words', z), ('atoms', z)]
    steps += [('words', z + (len(z) + 2, len(z) + 1)) for z in rng.sample(perm.fpf(6), 4)]
    steps += [('single', perm.random_involution(rng, rng.choice([2, 4, 6, 8, 10, 12, 14]), False, False)) for _ in range(60)]
    for z in perm.fpf(8):
        if perm.number_of_words(z, 'fpf') <= (40000 if deep else 700):
            steps.append(('many', z))
        steps.append(('atoms', z))
    for z in [perm.random_involution(rng, 10, False, False) for _ in range(120 if deep else 15)]:
        steps.append(('atoms', z))
        if perm.number_of_words(z, 'fpf') <= (40000 if deep else 1500):
            steps.append(('many', z))
    steps += [('built', rng.randrange(10 ** 9)) for _ in range(20)]
    rng.shuffle(steps)
    return F.split(steps, 12)


def words(ctx, z):
    from permutations import Permutation
    m = len(z)
    while m and z[m - 2:m] == (m, m - 1):
        m -= 2
    want = perm.fpf_word_sets(m)[z[:m]] if m else {()}
    p = Permutation(*z)
    for turn in range(2):
        got = list(p.get_fpf_involution_words() if turn else p.fpf_involution_words)
        ctx.equal(len(got), len(set(got)), 'repeated word', z=z)
        ctx.equal(set(got), want, 'fixed-point-free involution words', z=z, turn=turn)
    ctx.equal({len(w) for w in want}, {p.fpf_involution_length}, 'length', z=z)
    ctx.check(p.fpf_involution_word in want, 'the word of a fixed-point-free involution', z=z, word=p.fpf_involution_word)
    for w in sorted(want)[:4]:
        y = Permutation.from_fpf_involution_word(w)
        ctx.check(y is not None, 'a word was refused', word=w)
        n = max(len(z), y.rank)
        pad = lambda v: v + tuple(i + 1 if i % 2 else i - 1 for i in range(len(v) + 1, n + 1))
        ctx.equal(pad(tuple(y.oneline)), pad(z), 'involution of a word', word=w)
    ctx.ev('words', z, trivial=p.fpf_involution_length < 2)


def many(ctx, z):
    from permutations import Permutation
    p = Permutation(*z)
    got = list(p.get_fpf_involution_words())
    ctx.equal(len(got), perm.number_of_words(z, 'fpf'), 'number of words', z=z)
    ctx.equal(len(set(got)), len(got), 'repeated word', z=z)
    for v in got:
        ctx.check(perm.word_ends_at(v, z, 'fpf'), 'not a word of the involution', z=z, word=v)
    ctx.equal(len(list(p.fpf_involution_words)), len(got), 'words listed again', z=z)
    ctx.ev('many', z, trivial=len(got) < 2)


def atoms(ctx, z):
    from permutations import Permutation
    n = len(z)
    want = perm.atoms_of(z, 'fpf')
    p = Permutation(*z)
    for turn in range(2):
        got = [perm.of(a, n) for a in p.get_fpf_atoms()]
        ctx.equal(len(got), len(set(got)), 'repeated atom', z=z)
        ctx.equal(set(got), want, 'atoms', z=z, turn=turn)
    ctx.ev('atoms', z, trivial=p.fpf_involution_length < 2)


def single(ctx, z):
    from permutations import Permutation
    p = Permutation(*z)
    word = p.fpf_involution_word
    ctx.equal(ins.fpf_product(word, len(z)), z, 'involution of the word', word=word)
    want = (perm.length(z) - len(z) // 2) // 2
    ctx.equal((len(word), p.fpf_involution_length), (want, want), 'length of the word', z=z, word=word)
    ctx.ev('single', z, trivial=len(word) < 2)


def built(ctx, seed):
    """Involutions of random words, reduced or not."""
    from permutations import Permutation
    rng = random.Random(seed)
    for _ in range(12):
        n = rng.choice((2, 4, 6, 6, 8))
        start = tuple(i + 1 if i % 2 else i - 1 for i in range(1, n + 1))
        z, word, falls = start, [], False
        for _ in range(rng.randint(0, 12)):
            i = rng.randrange(1, n)
            climbs = z[i - 1] < z[i]
            s = ref.simple(i, n)
            y = perm.mul(s, perm.mul(z, s))
            if not (climbs and y != z) and rng.random() < .85:
                continue
            falls = falls or not (climbs and y != z)
            z, word = y, word + [i]
        word = tuple(word)
        m = max(word, default=0) + 1
        pad = lambda v: v + tuple(i + 1 if i % 2 else i - 1 for i in range(len(v) + 1, n + 1))
        loose = Permutation.from_fpf_involution_word(word, strict=False)
        ctx.equal(pad(tuple(loose.oneline)), z, 'involution reached by the letters of a word', word=word)
        strict = Permutation.from_fpf_involution_word(word)
        ctx.equal(strict is None, falls, 'a word is refused exactly when a letter does not climb', word=word)
        if strict is not None:
            ctx.equal(pad(tuple(strict.oneline)), z, 'involution of a word', word=word)
        ctx.ev('built', (word, n), trivial=len(word) < 2)


KINDS = {'built': built, 'many': many, 'words': words, 'atoms': atoms, 'single': single}
