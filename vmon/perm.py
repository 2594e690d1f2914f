"""Oracles for (signed) permutations given as one-line tuples of fixed rank n."""
import itertools
from . import ref, ins


def of(p, n):
    """The one-line tuple of a library permutation, padded to rank n."""
    w = tuple(p.oneline)
    assert len(w) <= n, 'rank %d exceeds %d' % (len(w), n)
    return ref.extend(w, n)


def identity(n):
    return tuple(range(1, n + 1))


def everything(n, signed=False):
    for w in itertools.permutations(range(1, n + 1)):
        if not signed:
            yield w
        else:
            for s in itertools.product((1, -1), repeat=n):
                yield tuple(a * b for a, b in zip(w, s))


def mul(u, v):
    return ref.compose(u, v)


def length(w):
    return ref.signed_length(w)


def is_involution(w):
    return ref.invert(w) == w


def involutions(n, signed=False):
    return [w for w in everything(n, signed) if is_involution(w)]


def fpf(n):
    return [w for w in involutions(n) if all(w[i] != i + 1 for i in range(n))]


def rdes(w):
    d = [0] if w and w[0] < 0 else []
    return d + [i for i in range(1, len(w)) if w[i - 1] > w[i]]


def reduced_words(w, memo={}):
    """Set of reduced words (s_0 negates the value 1)."""
    if w not in memo:
        d = rdes(w)
        memo[w] = {()} if not d else {e + (i,) for i in d for e in reduced_words(mul(w, ref.simple(i, len(w))))}
    return memo[w]


def demazure(u, v):
    word = []
    while rdes(v):
        i = rdes(v)[-1]
        word.append(i)
        v = mul(v, ref.simple(i, len(v)))
    for i in reversed(word):
        u = ref.demazure_right(u, i)
    return u


def conj(z, i):
    """s_i o z o s_i"""
    return ref.demazure_left(ref.demazure_right(z, i), i)


def involution_word_sets(n, signed=False, memo={}):
    """{involution: set of its shortest words} by breadth-first search."""
    key = (n, signed)
    if key not in memo:
        found = {identity(n): {()}}
        level = dict(found)
        while level:
            new = {}
            for z, words in level.items():
                for i in range(0 if signed else 1, n):
                    y = conj(z, i)
                    if y != z and y not in found:
                        new.setdefault(y, set()).update(w + (i,) for w in words)
            found.update(new)
            level = new
        memo[key] = found
    return memo[key]


def fpf_word_sets(n, memo={}):
    if n not in memo:
        start = ins.minfpf(n)
        found = {start: {()}}
        level = dict(found)
        while level:
            new = {}
            for z, words in level.items():
                for i in range(1, n):
                    if z[i - 1] < z[i]:
                        s = ref.simple(i, n)
                        y = mul(s, mul(z, s))
                        new.setdefault(y, set()).update(w + (i,) for w in words)
            found.update(new)
            level = new
        memo[n] = found
    return memo[n]


def product(word, n):
    w = identity(n)
    for i in word:
        w = mul(w, ref.simple(i, n))
    return w


def transposition(i, j, n):
    w = list(range(1, n + 1))
    w[i - 1], w[j - 1] = j, i
    return tuple(w)


def bruhat_below(w):
    """All permutations below w, by chains of transpositions; among signed ones if w is signed."""
    n = len(w)
    if any(a < 0 for a in w):
        refl = [transposition(i, j, n) for i in range(1, n + 1) for j in range(i + 1, n + 1)]
        for i in range(1, n + 1):
            for j in range(i, n + 1):
                r = list(range(1, n + 1))
                r[i - 1], r[j - 1] = -j, -i
                refl.append(tuple(r))
        seen, level = {w}, [w]
        while level:
            level = list({v for u in level for v in (mul(u, t) for t in refl) if length(v) < length(u)} - seen)
            seen.update(level)
        return seen
    seen = {w}
    level = [w]
    while level:
        new = []
        for u in level:
            for i in range(n):
                for j in range(i + 1, n):
                    if u[i] > u[j]:
                        v = list(u)
                        v[i], v[j] = v[j], v[i]
                        v = tuple(v)
                        if v not in seen:
                            seen.add(v)
                            new.append(v)
        level = new
    return seen


def random_perm(rng, n, signed):
    w = list(range(1, n + 1))
    rng.shuffle(w)
    if signed:
        w = [a if rng.random() < 0.6 else -a for a in w]
    return tuple(w)


def random_involution(rng, n, signed=False, fixed=True):
    todo = list(range(1, n + 1))
    rng.shuffle(todo)
    w = [0] * n
    while todo:
        a = todo.pop()
        if fixed and (not todo or rng.random() < 0.3):
            w[a - 1] = -a if signed and rng.random() < 0.5 else a
        else:
            b = todo.pop()
            s = -1 if signed and rng.random() < 0.4 else 1
            w[a - 1], w[b - 1] = s * b, s * a
    return tuple(w)


def sparse(rng, n, k):
    """A permutation of 1..n with few inversions, with the last point moved when possible."""
    w = identity(n)
    for i in [n - 1] + [rng.randrange(1, n) for _ in range(k - 1)]:
        w = mul(w, transposition(i, i + 1, n)) if w[i - 1] < w[i] else w
    return w


def sparse_involution(rng, n, k):
    w = identity(n)
    for i in [n - 1] + [rng.randrange(1, n) for _ in range(k - 1)]:
        w = conj(w, i)
    return w


def sparse_fpf(rng, n, k):
    w = tuple(i + 1 if i % 2 else i - 1 for i in range(1, n + 1))
    for i in [n - 2] + [2 * rng.randrange(1, n // 2) for _ in range(k - 1)]:
        s = transposition(i, i + 1, n)
        if w[i - 1] < w[i]:
            w = mul(s, mul(w, s))
    return w


def below(z, kind):
    """{(i, y)}: the elements one step below z in the weak order of its kind ('plain', 'inv', 'fpf'), by the last letter."""
    n = len(z)
    ans = []
    for i in range(0 if kind != 'fpf' and any(a < 0 for a in z) else 1, n):
        drop = z[0] < 0 if i == 0 else z[i - 1] > z[i]
        if not drop:
            continue
        s = ref.simple(i, n)
        if kind == 'plain':
            ans.append((i, mul(z, s)))
        elif kind == 'fpf':
            if z[i - 1] != i + 1:
                ans.append((i, mul(s, mul(z, s))))
        else:
            y = mul(s, mul(z, s))
            ans.append((i, mul(z, s) if y == z else y))
    return ans


def number_of_words(z, kind, memo={}):
    key = (z, kind)
    if key not in memo:
        steps = below(z, kind)
        memo[key] = sum(number_of_words(y, kind) for _, y in steps) if steps else 1
    return memo[key]


def atoms_of(z, kind, memo={}):
    key = (z, kind)
    if key not in memo:
        steps = below(z, kind)
        memo[key] = frozenset(mul(a, ref.simple(i, len(z))) for i, y in steps for a in atoms_of(y, kind)) if steps else frozenset([identity(len(z))])
    return memo[key]


def word_ends_at(word, z, kind):
    """Whether the word walks down from z to the bottom, read from its last letter."""
    for i in reversed(word):
        y = dict(below(z, kind)).get(i)
        if y is None:
            return False
        z = y
    return not below(z, kind)
