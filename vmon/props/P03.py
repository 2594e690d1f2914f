import random
from vmon import ref, perm, families as F

TITLE = 'Involution words and atoms of (signed) involutions are exactly enumerated'
RULE = ('words: the involution words of every small (signed) involution against breadth-first search in the weak order, in random '
        'order with half-consumed generators; many: larger ranks, each word walked down to the identity and the number computed by recursion; atoms: elements whose Demazure conjugation of the identity gives the involution in the '
        'least length, types A, B and D. Non-trivial = involution length at least 2.')
REQUIRED = {'many': 60, 'words': 150, 'atoms': 150, 'atoms d': 40, 'single': 150, 'built': 150}
ROUNDS = (16, 40)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 61)
    steps = []
    pool = [(z, False) for n in (1, 2, 3, 4, 5) for z in perm.involutions(n)]
    pool += [(z, True) for n in (1, 2, 3) for z in perm.involutions(n, True)]
    if deep:
        pool += [(z, True) for z in rng.sample(perm.involutions(4, True), 30) if perm.length(z) <= 12]
        pool += [(z, False) for z in rng.sample(perm.involutions(6), 30)]
    for z, signed in pool:
        steps.append(('words', z, signed, rng.randrange(6)))
        steps.append(('atoms', z, signed))
    for n in (2, 3, 4) + ((5,) if deep else ()):
        steps += [('atoms_d', z) for z in perm.involutions(n, True) if sum(a < 0 for a in z) % 2 == 0]
    steps += [('atoms_d', z) for z in rng.sample(perm.involutions(5, True), 40) if sum(a < 0 for a in z) % 2 == 0]
    steps += [('single', perm.random_involution(rng, rng.randrange(2, 8), rng.random() < .5)) for _ in range(80)]
    large = rng.sample(perm.involutions(6), 40) + rng.sample(perm.involutions(4, True), 40)
    large += [perm.random_involution(rng, rng.choice([5, 6]), True) for _ in range(60 if deep else 10)]
    large += [perm.random_involution(rng, rng.choice([7, 8, 9] if deep else [7, 7, 8])) for _ in range(200 if deep else 30)]
    large += [tuple(range(n, 0, -1)) for n in ((7, 8, 9, 10) if deep else (7, 8, 9))] + [tuple(range(-1, -1 - n, -1)) for n in (4, 5, 6)]
    large += [perm.random_involution(rng, rng.choice([5, 5, 6]), True) for _ in range(20)]
    wide = [perm.random_involution(rng, rng.choice([6, 7, 8]), True) for _ in range(90 if deep else 16)]
    wide += [perm.random_involution(rng, rng.choice([9, 10])) for _ in range(60 if deep else 12)]
    for _ in range(60 if deep else 12):      # few letters, far up
        n = rng.choice([9, 10, 11])
        z, low = perm.identity(n), rng.choice((0, 0, 4))
        for _ in range(rng.randrange(8, 20)):
            i = rng.randrange(low, n)
            z = perm.conj(z, i) if perm.length(perm.conj(z, i)) < 36 else z
        wide.append(z)
    for z in wide:
        if len(perm.atoms_of(z, 'inv')) <= 1500:
            steps.append(('atoms', z, any(a < 0 for a in z)))
    steps += [('built', rng.randrange(10 ** 9)) for _ in range(20)]
    for z in large:
        if perm.number_of_words(z, 'inv') <= (20000 if deep else 1500):
            steps.append(('many', z))
        if len(perm.atoms_of(z, 'inv')) <= (2000 if deep else 500):
            steps.append(('atoms', z, any(a < 0 for a in z)))
    rng.shuffle(steps)
    return F.split(steps, 20)


def words(ctx, z, signed, take):
    from permutations import Permutation
    n = len(z)
    want = perm.involution_word_sets(n, signed)[z]
    p = Permutation(*z)
    g = p.get_involution_words()
    head = [next(g) for _ in range(min(take, len(want)))]
    other = list(p.involution_words)
    ctx.equal(len(other), len(set(other)), 'repeated involution word', z=z)
    ctx.equal(set(other), want, 'involution words', z=z)
    ctx.equal(sorted(head + list(g)), sorted(want), 'involution words from a resumed generator', z=z, taken=take)
    ctx.equal(sorted(p.get_involution_words()), sorted(want), 'involution words listed again', z=z)
    ctx.equal({len(w) for w in want}, {p.involution_length}, 'involution length', z=z)
    for w in sorted(want)[:3]:
        ctx.equal(perm.of(Permutation.from_involution_word(w), n), z, 'involution of a word', word=w)
    ctx.check(p.get_involution_word() in want, 'the involution word', z=z, word=p.get_involution_word())
    ctx.ev('words', (z, signed, take), trivial=p.involution_length < 2)


def many(ctx, z):
    from permutations import Permutation
    p = Permutation(*z)
    got = list(p.get_involution_words())
    ctx.equal(len(got), perm.number_of_words(z, 'inv'), 'number of involution words', z=z)
    ctx.equal(len(set(got)), len(got), 'repeated involution word', z=z)
    for v in got:
        ctx.check(perm.word_ends_at(v, z, 'inv'), 'not an involution word', z=z, word=v)
    ctx.equal(len(list(p.involution_words)), len(got), 'involution words listed again', z=z)
    ctx.ev('many', z, trivial=len(got) < 2)


def atoms(ctx, z, signed):
    from permutations import Permutation
    n = len(z)
    want = perm.atoms_of(z, 'inv')
    p = Permutation(*z)
    for turn in range(2):
        got = [perm.of(a, n) for a in p.get_atoms()]
        ctx.equal(len(got), len(set(got)), 'repeated atom', z=z)
        ctx.equal(set(got), want, 'atoms', z=z, turn=turn)
    ctx.check(perm.of(p.get_min_atom(), n) in want, 'the minimal atom is not an atom', z=z)
    ctx.equal(perm.of(p.get_min_atom(), n), perm.of(p.get_atoms()[0], n), 'the first atom is the minimal one', z=z)
    for a in p.get_atoms():
        ctx.check((a.inverse() % a) == p, 'an atom does not conjugate to its involution', z=z, atom=a.oneline)
    ctx.ev('atoms', (z, signed), trivial=p.involution_length < 2)


def d_simple(i, n):
    if i:
        return ref.simple(i, n)
    return (-2, -1) + tuple(range(3, n + 1))


def d_length(w):
    n = len(w)
    return sum((w[i] > w[j]) + (-w[i] > w[j]) for i in range(n) for j in range(i + 1, n))


def d_atoms(n, memo={}):
    if n not in memo:
        e = perm.identity(n)
        found = {e: {e}}
        level = dict(found)
        while level:
            new = {}
            for z, ats in level.items():
                for i in range(n):
                    s = d_simple(i, n)
                    if d_length(perm.mul(z, s)) < d_length(z):
                        continue
                    y = perm.mul(s, perm.mul(z, s))
                    if y == z:
                        y = perm.mul(z, s)
                    new.setdefault(y, set()).update(perm.mul(a, s) for a in ats)
            found.update(new)
            level = new
        memo[n] = found
    return memo[n]


def atoms_d(ctx, z):
    from permutations import Permutation
    n = len(z)
    if len(ref.strip(z)) == 1 and z[0] < 0:
        return
    got = {perm.of(a, n) for a in Permutation(*z).get_atoms_d()}
    ctx.equal(got, d_atoms(n)[z], 'type D atoms', z=z)
    again = {perm.of(a, n) for a in Permutation(*z).get_atoms_d()}
    ctx.equal(again, got, 'type D atoms listed again', z=z)
    ctx.ev('atoms d', z, trivial=z == perm.identity(n))


def single(ctx, z):
    from permutations import Permutation
    n = len(z)
    p = Permutation(*z)
    word = p.involution_word
    y = perm.identity(n)
    for i in word:
        x = perm.conj(y, i)
        ctx.check(x != y, 'an involution word that does not climb', z=z, word=word)
        y = x
    ctx.equal(y, z, 'involution of the involution word', word=word)
    ctx.equal(len(word), p.involution_length, 'length of the involution word', z=z, word=word)
    at = perm.of(p.get_min_atom(), n)
    ctx.equal(perm.length(at), p.involution_length, 'length of the minimal atom', z=z, atom=at)
    ctx.equal(perm.demazure(ref.invert(at), at), z, 'conjugation by the minimal atom', z=z, atom=at)
    ctx.ev('single', z, trivial=len(word) < 2)


def built(ctx, seed):
    """Involutions of random words, reduced or not."""
    from permutations import Permutation
    rng = random.Random(seed)
    for _ in range(12):
        n = rng.randint(2, 7)
        low = rng.choice((0, 1, 1))
        word = [rng.randrange(low, n) for _ in range(rng.randint(0, 9))]
        if rng.random() < .5:  # mostly climbing
            z, climbing = perm.identity(n), []
            for i in [rng.randrange(low, n) for _ in range(14)]:
                if perm.conj(z, i) != z:
                    z, climbing = perm.conj(z, i), climbing + [i]
            word = climbing[:rng.randint(0, len(climbing))] + ([rng.randrange(low, n)] if rng.random() < .5 else [])
        z, falls = perm.identity(n), False
        for i in word:
            falls = falls or perm.conj(z, i) == z
            s = ref.simple(i, n)
            y = perm.mul(s, perm.mul(z, s))
            z = perm.mul(z, s) if y == z else y
        word = tuple(word)
        loose = Permutation.from_involution_word(word, strict=False)
        ctx.equal(perm.of(loose, n), z, 'involution reached by the letters of a word', word=word)
        strict = Permutation.from_involution_word(word)
        ctx.equal(strict is None, falls, 'a word is refused exactly when a letter does not climb', word=word)
        if strict is not None:
            ctx.equal(perm.of(strict, n), z, 'involution of an involution word', word=word)
        ctx.ev('built', (word, n), trivial=len(word) < 2)


KINDS = {'built': built, 'many': many, 'words': words, 'atoms': atoms, 'atoms_d': atoms_d, 'single': single}
