import random
from vmon import ref, perm, ins, families as F

TITLE = 'Little bumps are descent-preserving bijections between words of covers'
RULE = ('fibre: for a (fixed-point-free) involution or permutation y and a position, every word of every cover on one side is bumped; '
        'the images must be exactly the words of the covers on the other side, with the same descents and recording tableau. pair: the '
        'form with two positions; long: random words of elements on up to nine points; back: the mirrored bump undoes it; unrelated: an element that is not below leaves the word alone. Non-trivial = a word of length at least 2.')
REQUIRED = {'bump': 500, 'fibre': 60, 'pair': 150, 'long': 700, 'back': 700, 'unrelated': 60}


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 73)
    steps = []
    for n in (2, 3, 4):
        steps += [('fibre', 'ordinary', y, r) for y in perm.everything(n) for r in range(2, n + 1)]
        steps += [('fibre', 'involution', y, r) for y in perm.involutions(n) for r in range(2, n + 1) if y[r - 1] >= r]
    steps += [('fibre', 'ordinary', perm.random_perm(rng, 5, False), rng.randrange(2, 6)) for _ in range(20 if deep else 4)]
    z5 = [(y, r) for y in perm.involutions(5) for r in range(2, 6) if y[r - 1] >= r]
    steps += [('fibre', 'involution', y, r) for y, r in (z5 if deep else rng.sample(z5, 12))]
    for n in (4, 6):
        z = [(y, r) for y in perm.fpf(n) for r in range(2, n + 1) if y[r - 1] > r]
        steps += [('fibre', 'fpf', y, r) for y, r in (z if deep or n == 4 else rng.sample(z, 10))]
    steps += [('pairs', rng.choice(['ordinary', 'involution', 'fpf']), rng.randrange(10 ** 8)) for _ in range(40)]
    steps += [('long', kind, rng.randrange(10 ** 8)) for kind in CODE for _ in range(60)]
    rng.shuffle(steps)
    return F.split(steps, 20)


def descents(w):
    return [i for i in range(1, len(w)) if w[i - 1] > w[i]]


_TAU = {}


def inv_atoms(n):
    if n not in _TAU:
        if n < 7:
            atoms = {z: {perm.product(w, n) for w in ws} for z, ws in perm.involution_word_sets(n).items()}
        else:
            atoms = {z: perm.atoms_of(z, 'inv') for z in perm.involutions(n)}
        _TAU[n] = atoms, {a: z for z, s in atoms.items() for a in s}
    return _TAU[n]


def covers(kind, y, i, j):
    """Elements above y through the transposition (i, j)."""
    n = len(y)
    t = perm.transposition(i, j, n)
    if kind == 'ordinary':
        z = perm.mul(y, t)
        return {z} if perm.length(z) == perm.length(y) + 1 else set()
    if kind == 'fpf':
        z = perm.mul(t, perm.mul(y, t))
        return {z} if perm.length(z) == perm.length(y) + 2 else set()
    if n > 7:
        out = set()
        for a in perm.atoms_of(y, 'inv'):
            b = perm.mul(a, t)
            if perm.length(b) == perm.length(a) + 1:
                z = perm.demazure(ref.invert(b), b)
                pairs = sum(c > p for p, c in enumerate(z, 1))
                if perm.length(z) + pairs == 2 * perm.length(b):   # b is an atom of z
                    out.add(z)
        return out
    atoms, owner = inv_atoms(n)
    out = set()
    for a in atoms[y]:
        b = perm.mul(a, t)
        if perm.length(b) == perm.length(a) + 1 and b in owner:
            out.add(owner[b])
    return out


def tools(kind):
    from permutations import Permutation as P
    from insertion import InsertionAlgorithm as A
    return {'ordinary': (P.little_bump, A.hecke, lambda n: None),
            'involution': (P.involution_little_bump, A.orthogonal_hecke, perm.involution_word_sets),
            'fpf': (P.fpf_involution_little_bump, A.symplectic_hecke, perm.fpf_word_sets)}[kind]


def words_of(kind, z):
    return perm.reduced_words(z) if kind == 'ordinary' else tools(kind)[2](len(z))[z]


def fibre(ctx, kind, y, r):
    from permutations import Permutation as P
    bump, insert, _ = tools(kind)
    n = len(y)
    big = y + (n + 2, n + 1) if kind == 'fpf' else y + (n + 1,)
    top = r if kind == 'ordinary' else y[r - 1]
    below = set().union(*[covers(kind, big, i, r) for i in range(1, r)])
    above = set().union(*[covers(kind, big, top, j) for j in range(top + 1, len(big) + 1)])
    source = sorted(w for z in below for w in words_of(kind, z))
    target = {w for z in above for w in words_of(kind, z)}
    images = {}
    sample = set(random.Random(len(source)).sample(range(len(source)), min(40, len(source))))
    for k, w in enumerate(source):
        v = bump(w, P(*y))
        ctx.check(v in target, 'a bumped word does not belong to a cover on the other side', kind=kind, y=y, r=r, word=w, image=v)
        ctx.equal(descents(v), descents(w), 'a bump changed the descents', kind=kind, word=w, image=v, y=y)
        ctx.check(all(b - a in ((0, 1, 2) if kind == 'fpf' else (0, 1)) for a, b in zip(w, v)), 'a bump changed a letter too much', word=w, image=v)
        ctx.check(v not in images, 'two words bump to the same word', one=w, other=images.get(v), image=v, y=y, kind=kind)
        images[v] = w
        if k in sample:
            ctx.check(insert(v)[1] == insert(w)[1], 'a bump changed the recording tableau', kind=kind, word=w, image=v)
            m = len(big)
            flip = tuple(m + 1 - a for a in reversed(big))
            back = tuple(m - a for a in bump(tuple(m - a for a in v), P(*flip)))
            ctx.equal(back, w, 'the bump in the other direction does not undo it', kind=kind, y=y, r=r, word=w, image=v)
            ctx.ev('back', (kind, y, w), trivial=len(w) < 2)
        ctx.ev('bump', (kind, y, w), trivial=len(w) < 2)
    if below:
        ctx.equal(set(images), target, 'images of a bump', kind=kind, y=y, r=r)
        ctx.ev('fibre', (kind, y, r))


def pairs(ctx, kind, seed):
    from permutations import Permutation as P
    rng = random.Random(seed)
    bump = tools(kind)[0]
    for _ in range(6):
        if kind == 'ordinary':
            z = perm.random_perm(rng, rng.randrange(2, 7), False)
            word = P(*z).reduced_word
        elif kind == 'involution':
            z = perm.random_involution(rng, rng.randrange(2, 6))
            word = P(*z).involution_word
        else:
            z = perm.random_involution(rng, rng.choice([2, 4, 6]), False, False)
            word = P(*z).fpf_involution_word
        n = len(z)
        j = rng.randrange(1, n)
        k = rng.randrange(j + 1, n + 1)
        got = bump(word, j, k)
        if kind == 'ordinary':
            lower = [y for y in [perm.mul(z, perm.transposition(j, k, n))] if perm.length(y) == perm.length(z) - 1]
        elif kind == 'fpf':
            atoms = {perm.product(w, n): y for y, ws in perm.fpf_word_sets(n).items() for w in ws}
            mine = {perm.product(w, n) for w in perm.fpf_word_sets(n)[z]}
            lower = {atoms[perm.mul(a, perm.transposition(j, k, n))] for a in mine if perm.mul(a, perm.transposition(j, k, n)) in atoms
                     and perm.length(perm.mul(a, perm.transposition(j, k, n))) == perm.length(a) - 1}
        else:
            atoms, owner = inv_atoms(n)
            lower = {owner[perm.mul(a, perm.transposition(j, k, n))] for a in atoms[z] if perm.mul(a, perm.transposition(j, k, n)) in owner
                     and perm.length(perm.mul(a, perm.transposition(j, k, n))) == perm.length(a) - 1}
        if not lower:
            ctx.equal(got, word, 'a bump at a pair that is not a cover changed the word', kind=kind, z=z, pair=(j, k))
        else:
            ctx.check(any(got == bump(word, P(*y)) for y in lower), 'a bump at a pair of positions', kind=kind, z=z, pair=(j, k), got=got)
            ctx.check(got != word, 'a bump at a cover left the word alone', kind=kind, z=z, word=word, pair=(j, k))
        ctx.equal(descents(got), descents(word), 'a bump changed the descents', kind=kind, word=word, image=got)
        ctx.ev('pair', (kind, z, j, k), trivial=not lower)


CODE = {'ordinary': 'plain', 'involution': 'inv', 'fpf': 'fpf'}


def random_word(rng, z, kind):
    word, steps = (), perm.below(z, CODE[kind])
    while steps:
        i, z = rng.choice(steps)
        word = (i,) + word
        steps = perm.below(z, CODE[kind])
    return word


def element(word, n, kind):
    """The element with this word, or None if the word is not reduced."""
    z = perm.identity(n) if kind != 'fpf' else tuple(i + 2 if i % 2 == 0 else i for i in range(n))
    for i in word:
        if z[i - 1] > z[i]:
            return None
        if kind == 'ordinary':
            z = perm.mul(z, ref.simple(i, n))
            continue
        s = ref.simple(i, n)
        y = perm.mul(s, perm.mul(z, s))
        if y == z and kind == 'fpf':
            return None
        z = perm.mul(z, s) if y == z else y
    return z


def long(ctx, kind, seed):
    """Random words of larger elements, pushed up and back again."""
    from permutations import Permutation as P
    rng = random.Random(seed)
    bump, insert, _ = tools(kind)
    if kind == 'ordinary':
        z = perm.random_perm(rng, rng.randrange(5, 10), False)
    elif kind == 'involution':
        z = perm.random_involution(rng, rng.randrange(5, 9))
    else:
        z = perm.random_involution(rng, rng.choice([6, 8]), False, False)
    if kind == 'fpf' and perm.number_of_words(z, 'fpf') > 2000:
        return
    n = len(z)
    top = n + 2
    word = random_word(rng, z, kind)
    ctx.equal(element(word, n, kind), z, 'harness')
    lower = {element(word[:i] + word[i + 1:], n, kind) for i in range(len(word))}
    other = random_word(rng, perm.random_perm(rng, n, False) if kind == 'ordinary' else perm.random_involution(rng, n, False, kind != 'fpf'), kind)
    for y in (z, element(other[:len(word) - 1], n, kind) if len(word) - 1 <= len(other) and word else z):
        if y not in lower and (kind != 'fpf' or perm.number_of_words(y, 'fpf') <= 2000):
            ctx.equal(bump(word, P(*y)), word, 'a bump relative to an element that is not below changed the word', kind=kind, y=y)
            ctx.ev('unrelated', (kind, y, word), trivial=y == z)
    for i in rng.sample(range(len(word)), min(5, len(word))):
        y = element(word[:i] + word[i + 1:], n, kind)
        if y is None:
            continue
        big = y + ((n + 2, n + 1) if kind == 'fpf' else (n + 1, n + 2))
        got = bump(word, P(*y))
        x = element(got, top, kind)
        ctx.check(x is not None and len(got) == len(word), 'a bumped word is not reduced', kind=kind, word=word, y=y, image=got)
        ctx.check(got != word and any(element(got[:j] + got[j + 1:], top, kind) == big for j in range(len(got))),
                  'a bumped word is not a word of a cover', kind=kind, word=word, y=y, image=got)
        ctx.equal(descents(got), descents(word), 'a bump changed the descents', kind=kind, word=word, image=got, y=y)
        ctx.check(insert(got)[1] == insert(word)[1], 'a bump changed the recording tableau', kind=kind, word=word, image=got)
        flip = tuple(top + 1 - a for a in reversed(big))
        back = tuple(top - a for a in bump(tuple(top - a for a in got), P(*flip)))
        ctx.equal(back, word, 'the bump in the other direction does not undo it', kind=kind, y=y, word=word, image=got)
        ctx.ev('long', (kind, y, word), trivial=len(word) < 4)


KINDS = {'fibre': fibre, 'pairs': pairs, 'long': long}
