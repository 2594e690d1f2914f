"""Independent reference models.  Nothing here imports the code under test."""
import itertools
from collections import Counter, defaultdict
from functools import lru_cache
from math import comb

PRIME = (1 << 61) - 1


# ---------------------------------------------------------------- partitions

def partitions(n, max_part=None, max_len=None):
    if n == 0:
        yield ()
        return
    if max_len == 0:
        return
    for a in range(min(n, max_part or n), 0, -1):
        for rest in partitions(n - a, a, None if max_len is None else max_len - 1):
            yield (a,) + rest


def partitions_upto(n, **kw):
    for k in range(n + 1):
        yield from partitions(k, **kw)


def strict_partitions(n, max_part=None):
    for mu in partitions(n, max_part):
        if all(a > b for a, b in zip(mu, mu[1:])):
            yield mu


def strict_upto(n):
    for k in range(n + 1):
        yield from strict_partitions(k)


def contains(mu, nu):
    return len(nu) <= len(mu) and all(a <= b for a, b in zip(nu, mu))


def subpartitions(mu, strict=False):
    def rec(i, prev):
        if i == len(mu):
            yield ()
            return
        hi = mu[i] if prev is None else min(mu[i], prev - 1 if strict else prev)
        for a in range(0, hi + 1):
            if a == 0:
                yield ()
            else:
                for rest in rec(i + 1, a):
                    yield (a,) + rest
    return set(rec(0, None))


def cells(mu, nu=(), shifted=False):
    ans = []
    for i, a in enumerate(mu):
        b = nu[i] if i < len(nu) else 0
        off = i if shifted else 0
        ans += [(i + 1, j + off) for j in range(b + 1, a + 1)]
    return ans


def conjugate(mu):
    return tuple(len([a for a in mu if a >= j]) for j in range(1, (mu[0] if mu else 0) + 1))


def sortdown(alpha):
    return tuple(sorted([a for a in alpha if a], reverse=True))


# ------------------------------------------------- polynomials as plain dicts
# A polynomial is {exponent tuple: integer}.

def padd(f, g, c=1):
    ans = dict(f)
    for k, v in g.items():
        ans[k] = ans.get(k, 0) + c * v
        if ans[k] == 0:
            del ans[k]
    return ans


def pmul(f, g):
    ans = {}
    for a, x in f.items():
        for b, y in g.items():
            k = tuple(map(sum, zip(a, b)))
            ans[k] = ans.get(k, 0) + x * y
    return {k: v for k, v in ans.items() if v}


# -------------------------------------------------------- tableau generating functions

def tableau_gf(boxes, n, marked=False, setvalued=False, rpp=False, bar=False,
               diagonal_primes=True, diagonal_nonprimes=True, beta_shift=0):
    """{(weight_1, ..., weight_n): count}: the generating function over fillings of a set of boxes.

    Entries are encoded i -> 2i and i' -> 2i - 1, so the order is 1' < 1 < 2' < 2 < ...
    Rows and columns weakly increase; in tableaux an unprimed letter does not repeat in a column and
    a primed letter does not repeat in a row; in reverse plane partitions letters repeat freely but
    an unprimed (primed) letter only counts once per column (row).
    With bar=True every letter whose left neighbour (unprimed; upper neighbour if primed) is the same
    letter contributes x_i + 1 instead of x_i.
    """
    boxes = sorted(boxes)
    boxset = set(boxes)
    letters = list(range(1, 2 * n + 1)) if marked else list(range(2, 2 * n + 1, 2))

    # entry choices: (min, max, weights)
    def choices(diag):
        allowed = letters
        if marked and diag and not diagonal_primes:
            allowed = [a for a in allowed if a % 2 == 0]
        if marked and diag and not diagonal_nonprimes:
            allowed = [a for a in allowed if a % 2 == 1]
        if not setvalued:
            return [(a, a, (a,)) for a in allowed]
        out = []
        for r in range(1, len(allowed) + 1):
            for sub in itertools.combinations(allowed, r):
                out.append((sub[0], sub[-1], sub))
        # merge by (min, max) and weight
        return out

    def weight_of(sub):
        w = [0] * n
        for a in sub:
            w[(a + 1) // 2 - 1] += 1
        return tuple(w)

    merged = {}
    for diag in (True, False):
        c = defaultdict(Counter)
        for lo, hi, sub in choices(diag):
            c[(lo, hi)][weight_of(sub)] += 1
        merged[diag] = {k: dict(v) for k, v in c.items()}

    def left_ok(a, lo):
        if rpp:
            return a <= lo
        return a < lo or (a == lo and a % 2 == 0)

    def up_ok(a, lo):
        if rpp:
            return a <= lo
        return a < lo or (a == lo and a % 2 == 1)

    zero = (0,) * n
    states = {(): {zero: 1}}   # frontier: tuple of ((col, max), ...) then last in row
    states = {(frozenset(), None): {zero: 1}}
    for (i, j) in boxes:
        new = {}
        has_left = (i, j - 1) in boxset
        has_up = (i - 1, j) in boxset
        keep_col = (i + 1, j) in boxset
        keep_row = (i, j + 1) in boxset
        for (front, last), poly in states.items():
            fd = dict(front)
            upv = fd.pop(j, None) if has_up else None
            leftv = last if has_left else None
            for (lo, hi), ws in merged[i == j].items():
                if leftv is not None and not left_ok(leftv, lo):
                    continue
                if upv is not None and not up_ok(upv, lo):
                    continue
                if rpp:
                    same = (upv == lo) if lo % 2 == 0 else (leftv == lo)
                    use = {zero: 1} if same else ws
                elif bar:
                    same = (leftv == lo) if lo % 2 == 0 else (upv == lo)
                    use = padd(ws, {zero: 1}) if same else ws
                else:
                    use = ws
                g = dict(fd)
                if keep_col:
                    g[j] = hi
                key = (frozenset(g.items()), hi if keep_row else None)
                tgt = new.setdefault(key, {})
                for a, x in poly.items():
                    for b, y in use.items():
                        k = tuple(map(sum, zip(a, b))) if n else ()
                        tgt[k] = tgt.get(k, 0) + x * y
        states = new
    ans = {}
    for poly in states.values():
        for k, v in poly.items():
            ans[k] = ans.get(k, 0) + v
    return {k: v for k, v in ans.items() if v}


def is_symmetric(poly):
    return all(poly.get(tuple(sorted(k, reverse=True)), 0) == v for k, v in poly.items())


def monomial_coefficients(poly):
    """{partition: coefficient} of a symmetric polynomial given by its exponent dictionary."""
    return {sortdown(k): v for k, v in poly.items() if all(a >= b for a, b in zip(k, k[1:]))}


# ------------------------------------------------------------ modular arithmetic

def inv(a):
    return pow(a % PRIME, PRIME - 2, PRIME)


def det(m):
    m = [list(r) for r in m]
    n = len(m)
    ans = 1
    for c in range(n):
        p = next((r for r in range(c, n) if m[r][c] % PRIME), None)
        if p is None:
            return 0
        if p != c:
            m[c], m[p] = m[p], m[c]
            ans = -ans
        ans = ans * m[c][c] % PRIME
        iv = inv(m[c][c])
        for r in range(c + 1, n):
            if m[r][c]:
                f = m[r][c] * iv % PRIME
                for k in range(c, n):
                    m[r][k] = (m[r][k] - f * m[c][k]) % PRIME
    return ans % PRIME


@lru_cache(maxsize=None)
def distinct_perms(alpha):
    def rec(c):
        if not c:
            yield ()
            return
        for k in list(c):
            d = dict(c)
            d[k] -= 1
            if d[k] == 0:
                del d[k]
            for rest in rec(d):
                yield (k,) + rest
    return tuple(rec(dict(Counter(alpha))))


def eval_monomial(mu, xs):
    n = len(xs)
    if len(mu) > n:
        return 0
    ans = 0
    top = max(mu) if mu else 0
    pows = [[1] for _ in xs]
    for i, x in enumerate(xs):
        for _ in range(top):
            pows[i].append(pows[i][-1] * x % PRIME)
    # symmetric-function evaluation by dynamic programming over variables
    counts = Counter(mu)
    keys = sorted(counts)
    state = {tuple(counts[k] for k in keys): 1}
    for i in range(n):
        new = {}
        for s, v in state.items():
            new[s] = (new.get(s, 0) + v) % PRIME
            for t, k in enumerate(keys):
                if s[t]:
                    s2 = s[:t] + (s[t] - 1,) + s[t + 1:]
                    new[s2] = (new.get(s2, 0) + v * pows[i][k]) % PRIME
        state = new
    return state.get((0,) * len(keys), 0) % PRIME


def bialternant_G(lam, xs, beta):
    """Stable Grothendieck polynomial as a ratio of determinants."""
    n = len(xs)
    if len(lam) > n:
        return 0
    lam = tuple(lam) + (0,) * (n - len(lam))
    num = det([[pow(x, lam[j] + n - 1 - j, PRIME) * pow(1 + beta * x, j, PRIME) % PRIME for j in range(n)] for x in xs])
    den = det([[pow(x, n - 1 - j, PRIME) for j in range(n)] for x in xs])
    return num * inv(den) % PRIME


def bialternant_g(lam, xs, beta):
    """Dual stable Grothendieck polynomial as a ratio of determinants."""
    n = len(xs)
    if len(lam) > n:
        raise ValueError
    lam = tuple(lam) + (0,) * (n - len(lam))

    def entry(x, j):
        e = lam[j] + n - 1 - j
        if j == 0:
            return pow(x, e, PRIME)
        return sum(comb(j - 1 + m, m) * pow(beta, m, PRIME) * pow(x, e - m, PRIME) for m in range(e + 1)) % PRIME
    num = det([[entry(x, j) for j in range(n)] for x in xs])
    den = det([[pow(x, n - 1 - j, PRIME) for j in range(n)] for x in xs])
    return num * inv(den) % PRIME


def symmetrized_GPQ(lam, xs, beta, q):
    """K-theoretic Schur P- and Q-polynomials by Ikeda and Naruse's symmetrisation formula."""
    n, r = len(xs), len(lam)
    if r > n:
        return 0
    ans = 0
    for chosen in itertools.permutations(range(n), r):
        rest = [i for i in range(n) if i not in chosen]
        order = list(chosen) + rest
        num, den = 1, 1
        for a in range(r):
            x = xs[order[a]]
            num = num * pow(x, lam[a], PRIME) % PRIME
            if q:
                num = num * (2 + beta * x) % PRIME
            for b in range(a + 1, n):
                y = xs[order[b]]
                num = num * (x + y + beta * x * y) % PRIME * (1 + beta * y) % PRIME
                den = den * (x - y) % PRIME
        ans = (ans + num * inv(den)) % PRIME
    return ans


# -------------------------------------------------------------- permutations

def compose(u, v):
    """(u * v)(i) = u(v(i)) for one-line tuples of equal rank."""
    def at(w, i):
        return w[i - 1] if i > 0 else -w[-i - 1]
    return tuple(at(u, b) for b in v)


def extend(w, n):
    return tuple(w) + tuple(range(len(w) + 1, n + 1))


def strip(w):
    w = tuple(w)
    while w and w[-1] == len(w):
        w = w[:-1]
    return w


def inversions(w):
    n = len(w)
    return sum(1 for i in range(n) for j in range(i + 1, n) if w[i] > w[j])


def signed_length(w):
    """Coxeter length in type B for the convention s_0 negating the value 1."""
    n = len(w)
    ans = inversions(w)
    ans += sum(1 for i in range(n) for j in range(i, n) if w[i] + w[j] < 0)
    return ans


def simple(i, n):
    w = list(range(1, n + 1))
    if i == 0:
        w[0] = -1
    else:
        w[i - 1], w[i] = w[i], w[i - 1]
    return tuple(w)


def demazure_right(w, i):
    """w o s_i in the 0-Hecke monoid for a one-line tuple of large enough rank."""
    if i == 0:
        return w if w[0] < 0 else (-w[0],) + w[1:]
    if w[i - 1] > w[i]:
        return w
    w = list(w)
    w[i - 1], w[i] = w[i], w[i - 1]
    return tuple(w)


def invert(w):
    ans = [0] * len(w)
    for i, a in enumerate(w):
        ans[abs(a) - 1] = (i + 1) if a > 0 else -(i + 1)
    return tuple(ans)


def demazure_left(w, i):
    return invert(demazure_right(invert(w), i))


# ------------------------------------------------------------ explicit fillings

def fillings(boxes, n, marked=False, setvalued=False, rpp=False, diagonal_primes=True, diagonal_nonprimes=True):
    """Every filling of a set of boxes, as a frozenset of (box, sorted tuple of signed letters)."""
    boxes = sorted(boxes)
    letters = list(range(1, 2 * n + 1)) if marked else list(range(2, 2 * n + 1, 2))

    def fits(a, b, down):
        """b directly right of (below) a"""
        if rpp:
            return a <= b
        return a < b or (a == b and a % 2 == (1 if down else 0))

    def options(diag):
        allowed = [a for a in letters if not (diag and marked and
                                              ((a % 2 and not diagonal_primes) or (a % 2 == 0 and not diagonal_nonprimes)))]
        if not setvalued:
            return [(a,) for a in allowed]
        return [sub for r in range(1, len(allowed) + 1) for sub in itertools.combinations(allowed, r)]
    opts = {True: options(True), False: options(False)}
    out = []

    def rec(t, fill):
        if t == len(boxes):
            out.append(frozenset((b, tuple(sorted((a // 2 if a % 2 == 0 else -(a + 1) // 2) for a in v)))
                                 for b, v in fill.items()))
            return
        i, j = boxes[t]
        for sub in opts[i == j]:
            if (i, j - 1) in fill and not fits(fill[(i, j - 1)][-1], sub[0], False):
                continue
            if (i - 1, j) in fill and not fits(fill[(i - 1, j)][-1], sub[0], True):
                continue
            fill[(i, j)] = sub
            rec(t + 1, fill)
            del fill[(i, j)]
    rec(0, {})
    return out


def standard_fillings(boxes, marked=False, diagonal_primes=False):
    """Standard (marked) fillings of a skew shape."""
    boxes = set(boxes)
    n = len(boxes)
    out = []

    def rec(left, fill):
        if not left:
            out.append(frozenset((b, (v,)) for b, v in fill.items()))
            return
        for (i, j) in list(left):
            if (i, j + 1) in left or (i + 1, j) in left:
                continue
            for s in ((1, -1) if marked and (diagonal_primes or i != j) else (1,)):
                fill[(i, j)] = s * len(left)
                rec(left - {(i, j)}, fill)
                del fill[(i, j)]
    rec(frozenset(boxes), {})
    return out


def fundamental_value(descents, m, xs):
    """Value of the fundamental quasisymmetric polynomial: weakly increasing words, strict at descents."""
    n = len(xs)
    if m == 0:
        return 1
    state = [x % PRIME for x in xs]
    for t in range(1, m):
        new, run = [], 0
        strict = t in descents
        for i in range(n):
            if not strict:
                run = (run + state[i]) % PRIME
            new.append(run * xs[i] % PRIME)
            if strict:
                run = (run + state[i]) % PRIME
        state = new
    return sum(state) % PRIME
