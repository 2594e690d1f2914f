import itertools
import random
from vmon import crys, families as F

TITLE = 'Crystal operators on words follow the bracketing rule'
RULE = ('word: random words cut into random pieces (some empty), every index: the operators against bracketing with a stack, inverses, '
        'pieces keep their lengths; all: every word of a length and alphabet: edges keep the recording tableau, components are the '
        'classes of words with equal recording tableau and have Schur characters. Non-trivial = an operator that does not vanish.')
REQUIRED = {'word': 1500, 'applied': 1200, 'all': 4}
ROUNDS = (90, 200)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 301)
    steps = [('word', rng.randrange(10 ** 9)) for _ in range(300 if not deep else 1500)]
    steps += [('all', n, l) for n, l in ((1, 3), (2, 5), (3, 4), (4, 3), (3, 5), (2, 7)) + (((4, 4), (3, 6), (5, 4), (2, 9)) if deep else ())]
    rng.shuffle(steps)
    return F.split(steps, 8)


def word(ctx, salt):
    from words import Word
    rng = random.Random(salt)
    n = rng.choice((1, 2, 2, 3, 4, 9, 14))
    w = tuple(rng.randrange(1, n + 2) for _ in range(rng.choice((0, 1, 2, 4, 6, 9, 14, 30))))
    cuts = sorted(rng.randrange(len(w) + 1) for _ in range(rng.choice((0, 0, 1, 2, 4))))
    parts = tuple(w[a:b] for a, b in zip([0] + cuts, cuts + [len(w)]))
    for i in range(0, n + 2):
        for name, rule in (('f', crys.f_word), ('e', crys.e_word)):
            op, back = ((Word.f_crystal_operator, Word.e_crystal_operator) if name == 'f' else
                        (Word.e_crystal_operator, Word.f_crystal_operator))
            want = rule(w, i)
            got = op(i, w)
            ctx.equal(got, want, '%s_%d of a word' % (name, i), word=w)
            if got is not None:
                ctx.equal(back(i, got), w, 'undoing %s_%d of a word' % (name, i), word=w)
                ctx.ev('applied', (name, i, w))
            for unpack in (True, False):
                got = op(i, *parts, unpack=unpack)
                if want is None or (len(parts) == 1 and unpack):
                    ctx.equal(got, want, '%s_%d of a word in %d pieces' % (name, i, len(parts)), parts=parts)
                else:
                    ctx.equal(tuple(len(p) for p in got), tuple(len(p) for p in parts), 'lengths of the pieces after %s_%d' % (name, i), parts=parts)
                    ctx.equal(sum(got, ()), want, '%s_%d of a word in %d pieces' % (name, i, len(parts)), parts=parts)
            ctx.ev('word', (name, i, parts), trivial=want is None)


def every(ctx, n, l):
    from words import Word
    words = list(itertools.product(range(1, n + 1), repeat=l))
    index = {w: k for k, w in enumerate(words)}
    edges = []
    for w in words:
        for i in range(1, n):
            v = Word.f_crystal_operator(i, w)
            if v is not None:
                ctx.check(v in index, 'f_%d leaves the alphabet' % i, word=w, image=v)
                ctx.equal(Word.e_crystal_operator(i, v), w, 'undoing f_%d' % i, word=w)
                edges.append((index[w], index[v], i))
            ctx.check(Word.e_crystal_operator(i, w) is None or index[Word.e_crystal_operator(i, w)] >= 0, 'e_%d' % i)
    weights = [tuple(w.count(i) for i in range(1, n + 1)) for w in words]
    comps = crys.check_normal(ctx, len(words), n, weights, edges, 'words of length %d in %d letters' % (l, n))
    classes = {}
    for k, w in enumerate(words):
        classes.setdefault(crys.schensted(w)[1], set()).add(k)
    ctx.equal(set(comps), {frozenset(c) for c in classes.values()}, 'components against recording tableaux', n=n, l=l)
    ctx.ev('all', (n, l), trivial=n < 2)


KINDS = {'word': word, 'all': every}
