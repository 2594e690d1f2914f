import itertools
import random
from functools import lru_cache
from vmon import ref, perm, ins, families as F

TITLE = 'Levels of Hecke words are right under every bound and every interleaving'
RULE = ('history: several enumerations of ordinary, symplectic and signed orthogonal Hecke words, with random bounds, advanced in a '
        'random interleaving, some abandoned; every yielded level is compared with a direct enumeration. Non-trivial = a level past the '
        'first of an enumeration that shares its process with another one.')
REQUIRED = {'level': 1500, 'word list': 60, 'switch': 500}
ROUNDS = (60, 120)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 71)
    return [[('history', rng.randrange(10 ** 9), 26 if deep else 18) for _ in range(2)] + [('lists', rng.randrange(10 ** 9))]
            for _ in range(12)]


def pieces(word, ok):
    """Least number of consecutive pieces satisfying ok."""
    best = [0] + [None] * len(word)
    for j in range(1, len(word) + 1):
        best[j] = min(best[i] + 1 for i in range(j) if best[i] is not None and ok(word[i:j]))
    return best[-1]


def decreasing(p):
    return all(a > b for a, b in zip(p, p[1:]))


def valley(p):
    return any(decreasing(p[:k]) and all(a < b for a, b in zip(p[k:], p[k + 1:])) for k in range(len(p) + 1))


@lru_cache(None)
def level(kind, n, bound, hecke, m):
    """The set of (one-line form, word) pairs of length m."""
    if m == 0:
        return frozenset([(ins.minfpf(n) if kind == 'symplectic' else perm.identity(n), ())])
    out = set()
    for z, w in level(kind, n, None, hecke, m - 1):
        for i in range(0 if kind == 'involution' else 1, n):
            if kind == 'ordinary':
                y = ref.demazure_right(z, i)
            elif kind == 'involution':
                y = perm.conj(z, i)
            else:
                if z[i - 1] == i + 1:
                    continue
                s = ref.simple(i, n)
                y = perm.mul(s, perm.mul(z, s)) if z[i - 1] < z[i] else z
            if hecke or y != z:
                out.add((y, w + (i,)))
    if bound is not None:
        out = {(y, w) for y, w in out if pieces(w, valley if kind == 'involution' else decreasing) <= bound}
    return frozenset(out)


def make(kind, n, lb, bound, hecke):
    from permutations import Permutation as P
    if kind == 'ordinary':
        return P.hecke_levels(n, lb, bound)
    if kind == 'symplectic':
        return P.symplectic_hecke_levels(n, lb, bound, hecke)
    return P.involution_hecke_levels(n, lb, bound, hecke)


def random_request(rng):
    kind = rng.choice(['ordinary', 'symplectic', 'involution'])
    n = {'ordinary': [2, 3, 4], 'symplectic': [2, 4, 4], 'involution': [1, 2, 3]}[kind][rng.randrange(3)]
    cap = {'ordinary': {2: 6, 3: 6, 4: 5}, 'symplectic': {2: 5, 4: 5}, 'involution': {1: 6, 2: 6, 3: 5}}[kind][n]
    if rng.random() < .25:  # large ranks, short words
        n = {'ordinary': [5, 6, 7], 'symplectic': [6, 8, 10], 'involution': [4, 5, 6]}[kind][rng.randrange(3)]
        cap = 3
    elif rng.random() < .15:  # small ranks, long words
        n, cap = {'ordinary': ((2, 13), (3, 9)), 'symplectic': ((2, 10), (4, 7)), 'involution': ((1, 12), (2, 9))}[kind][rng.randrange(2)]
    hecke = kind == 'ordinary' or rng.random() < 0.6
    return kind, n, rng.choice([None, None, 0, 1, 2, 3, rng.randint(4, 9)]), hecke, cap


def history(ctx, seed, turns):
    rng = random.Random(seed)
    pool = [random_request(rng) for _ in range(3)]
    live = []
    last = None
    for _ in range(turns):
        if not live or rng.random() < 0.35:
            kind, n, bound, hecke, cap = rng.choice(pool) if rng.random() < 0.85 else random_request(rng)
            lb = rng.choice([None, None, 0, 1, 2, 3, cap])
            live.append([(kind, n, bound, hecke, cap), lb, make(kind, n, lb, bound, hecke), 0])
        which = rng.randrange(len(live))
        req, lb, gen, m = live[which]
        kind, n, bound, hecke, cap = req
        for _ in range(rng.randrange(1, 4)):
            if m > cap:
                break
            got = next(gen, None)
            want = level(kind, n, bound, hecke, m) if lb is None or m <= lb else frozenset()
            if got is None:
                ctx.check(not want, 'the enumeration of %s Hecke words stopped early' % kind, request=req, length_bound=lb, level=m)
                live.pop(which)
                break
            items = [(perm.of(p, n), w) for p, w in got]
            ctx.equal(len(items), len(set(items)), 'repeated word in a level', request=req, level=m)
            ctx.equal(set(items) - want, set(), 'level %d of the %s Hecke words has extra words' % (m, kind), request=req, length_bound=lb)
            ctx.equal(want - set(items), set(), 'level %d of the %s Hecke words misses words' % (m, kind), request=req, length_bound=lb)
            ctx.ev('level', (req, lb, m), trivial=m == 0)
            if last is not None and last != (id(gen), req):
                ctx.ev('switch', (last[1], req, m))
            last = (id(gen), req)
            m += 1
            live[which][3] = m
        else:
            if rng.random() < 0.1:
                live.pop(which)


def lists(ctx, seed):
    from permutations import Permutation as P
    rng = random.Random(seed)
    for _ in range(3):
        kind, n, bound, hecke, cap = random_request(rng)
        lb = rng.randrange(0, cap + 1)
        if kind == 'ordinary':
            got = list(P.hecke_words(n, lb, bound))
        elif kind == 'symplectic':
            got = list(P.symplectic_hecke_words(n, lb, bound, hecke))
        else:
            hecke = True
            got = list(P.involution_hecke_words(n, lb, bound))
        want = [w for m in range(lb + 1) for _, w in level(kind, n, bound, hecke, m)]
        ctx.equal(sorted(got), sorted(want), '%s Hecke words' % kind, n=n, bound=bound, length_bound=lb)
        ctx.ev('word list', (kind, n, bound, hecke, lb), trivial=lb < 2)
        z = rng.choice([y for m in range(lb + 1) for y, _ in level(kind, n, bound, hecke, m)])
        p = P(*z)
        # the library works in the smallest rank of z
        r = p.rank
        f = {'ordinary': p.get_hecke_words, 'symplectic': p.get_symplectic_hecke_words, 'involution': p.get_involution_hecke_words}[kind]
        got = list(f(lb, bound))
        want = [w for m in range(lb + 1) for y, w in level(kind, r, bound, True, m) if y == z[:r]]
        ctx.equal(sorted(got), sorted(want), '%s Hecke words of one element' % kind, z=z, bound=bound, length_bound=lb)
        ctx.ev('word list', (kind, z, bound, lb), trivial=lb < 2)


KINDS = {'history': history, 'lists': lists}
