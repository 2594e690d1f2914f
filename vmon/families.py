"""The symmetric function families of the library and their independent definitions."""
import functools
import itertools
import random
from . import ref, view
from .ref import PRIME

# name: (method, shifted shape, marked, setvalued, rpp, bar, diagonal options)
FAM = {
    's': ('schur', False, {}, 'set'),
    'S': ('schur_s', False, dict(marked=True), 'set'),
    'P': ('schur_p', True, dict(marked=True, diagonal_primes=False), 'set'),
    'Q': ('schur_q', True, dict(marked=True), 'set'),
    'G': ('stable_grothendieck', False, dict(setvalued=True), 'set'),
    'GS': ('stable_grothendieck_s', False, dict(marked=True, setvalued=True), 'set'),
    'GP': ('stable_grothendieck_p', True, dict(marked=True, setvalued=True, diagonal_primes=False), 'set'),
    'GQ': ('stable_grothendieck_q', True, dict(marked=True, setvalued=True), 'set'),
    'g': ('dual_stable_grothendieck', False, dict(rpp=True), 'rpp'),
    'gp': ('dual_stable_grothendieck_p', True, dict(rpp=True, marked=True, diagonal_nonprimes=False), 'rpp'),
    'gq': ('dual_stable_grothendieck_q', True, dict(rpp=True, marked=True), 'rpp'),
    'gs': ('dual_stable_grothendieck_s', True, dict(rpp=True, marked=True), 'rpp'),
    'j': ('slow_transposed_dual_stable_grothendieck', False, dict(bar=True), 'bar'),
    'jp': ('slow_transposed_dual_stable_grothendieck_p', True, dict(bar=True, marked=True, diagonal_primes=False), 'bar'),
    'jq': ('slow_transposed_dual_stable_grothendieck_q', True, dict(bar=True, marked=True), 'bar'),
    'js': ('slow_transposed_dual_stable_grothendieck_s', True, dict(bar=True, marked=True), 'bar'),
}
STRICT = {'P', 'Q', 'GP', 'GQ', 'gp', 'gq', 'jp', 'jq'}


def method(fam):
    from symmetric import SymmetricPolynomial
    return getattr(SymmetricPolynomial, FAM[fam][0])


def shapes(fam, size):
    return list(ref.strict_upto(size)) if fam in STRICT else list(ref.partitions_upto(size))


def exact(fam, n, lam, mu=()):
    """{partition: {power of beta: integer}} straight from the tableau definition."""
    _, shifted, opts, kind = FAM[fam]
    if not ref.contains(lam, mu):
        return {}
    size = sum(lam) - sum(mu)
    if fam in ('gs', 'js'):
        k = len(lam)
        mu = tuple(mu) + (0,) * (k - len(mu))
        lam, mu = tuple(lam[i] + k - i for i in range(k)), tuple(mu[i] + k - i for i in range(k))
    gf = ref.tableau_gf(ref.cells(lam, mu, shifted), n, **opts)
    assert ref.is_symmetric(gf), ('specification is not symmetric', fam, n, lam, mu)
    ans = {}
    for nu, c in ref.monomial_coefficients(gf).items():
        if kind == 'set':
            ans[nu] = {sum(nu) - size: c}
        elif kind == 'rpp':
            ans[nu] = {size - sum(nu): c * (-1) ** (size - sum(nu))}
        else:
            ans[nu] = {size - sum(nu): c}
    return ans


def h_values(xs, top, q=False):
    """Complete homogeneous (or q) values: coefficients of prod 1/(1-xt) (or (1+xt)/(1-xt))."""
    ans = [1] + [0] * top
    for x in xs:
        for k in range(1, top + 1):
            ans[k] = (ans[k] + x * ans[k - 1]) % PRIME
        if q:
            for k in range(top, 0, -1):
                ans[k] = (ans[k] + x * ans[k - 1]) % PRIME
    return ans


def value(fam, lam, mu, xs, beta):
    """Value of the polynomial at a point by a formula that does not involve tableaux."""
    if fam in ('s', 'S'):
        k = len(lam)
        mu = tuple(mu) + (0,) * (k - len(mu))
        h = h_values(xs, (lam[0] if lam else 0) + k, fam == 'S')
        return ref.det([[h[lam[i] - mu[j] - i + j] if lam[i] - mu[j] - i + j >= 0 else 0 for j in range(k)]
                        for i in range(k)])
    assert not mu
    if fam == 'P':
        return ref.symmetrized_GPQ(lam, xs, 0, False)
    if fam == 'Q':
        return ref.symmetrized_GPQ(lam, xs, 0, True)
    if fam == 'G':
        return ref.bialternant_G(lam, xs, beta)
    if fam == 'GP':
        return ref.symmetrized_GPQ(lam, xs, beta, False)
    if fam == 'GQ':
        return ref.symmetrized_GPQ(lam, xs, beta, True)
    if fam == 'g':
        return ref.bialternant_g(lam, xs, -beta)
    raise KeyError(fam)


@functools.lru_cache(None)
def one_variable(fam, lam, mu):
    return {nu: dict(d) for nu, d in exact(fam, 1, lam, mu).items()}


@functools.lru_cache(None)
def one_variable_bar(fam, lam, mu, base=()):
    """The same with some of the removable corners of mu (outside the base) shared with the letter."""
    strict, ans = fam in STRICT, {}
    rows = [i for i in range(len(mu)) if i + 1 == len(mu) or mu[i] - 1 >= mu[i + 1] + strict]
    for k in range(len(rows) + 1):
        for sub in itertools.combinations(rows, k):
            ka = tuple(a for a in (a - (i in sub) for i, a in enumerate(mu)) if a)
            if not ref.contains(ka, base):
                continue
            for nu, d in one_variable(fam, lam, ka).items():
                for e, c in d.items():
                    t = ans.setdefault(nu, {})
                    t[e + k] = t.get(e + k, 0) + c
    return ans


def chain_value(fam, lam, mu, xs, beta, bar=False):
    """Value at a point by cutting every filling into the boxes of each letter; the pieces are counted by the definition."""
    if fam in ('gs', 'js'):
        k = len(lam)
        mu = tuple(mu) + (0,) * (k - len(mu))
        lam, mu = tuple(lam[i] + k - i for i in range(k)), tuple(mu[i] + k - i for i in range(k))
        fam = 'gq' if fam == 'gs' else 'jq'
    mu = tuple(a for a in mu if a)
    between = [nu for nu in ref.subpartitions(lam, fam in STRICT) if ref.contains(nu, mu)]
    level, overlap, base = {mu: 1}, bar, () if bar else mu
    for x in xs:
        new = {}
        piece = functools.partial(one_variable_bar, base=base) if overlap else one_variable
        overlap = overlap or fam[0] == 'G'
        for nu in between:
            t = 0
            for ka, c in level.items():
                if ref.contains(nu, ka):
                    t += c * view.eval_sym(piece(fam, nu, ka), [x], beta)
            if t % PRIME:
                new[nu] = t % PRIME
        level = new
    return level.get(tuple(lam), 0)


def observe_chain(ctx, fam, n, lam, mu=(), bar=None):
    f = (bar or method(fam))(n, lam, mu) if mu or bar else method(fam)(n, lam)
    got = view.sym(f)
    xs, b = POINTS[n % 2][:n], BETAS[n % 2]
    ctx.equal(view.eval_sym(got, xs, b), chain_value(fam, lam, mu, xs, b, bool(bar)),
              '%s of %r/%r in %d variables: wrong value at x=%r beta=%r' % (fam, lam, mu, n, xs, b))
    ctx.ev('value', (fam, n, lam, mu), trivial=not got)


def thin(rng, strict, boxes, rows=5, width=9):
    """A large shape and an inner shape that leaves only a few boxes, often one in every corner."""
    k = rng.randint(2, rows)
    gap = int(strict)
    lam = [rng.randint(1, 2)]
    while len(lam) < k and lam[0] < width - gap:
        lam.insert(0, min(width, lam[0] + gap + rng.choice((0, 0, 1, 1, 2)) + rng.choice((0, 0, 0, 1))))
    lam = tuple(lam)
    mu, once = list(lam), rng.random() < .6
    spots = list(range(len(lam)))
    for _ in range(rng.randint(max(1, boxes - 2), boxes)):
        ok = [i for i in spots if mu[i] and (mu[i] - 1 >= (mu[i + 1] + gap if i + 1 < len(mu) and mu[i + 1] else 0))]
        if not ok:
            break
        i = rng.choice(ok)
        mu[i] -= 1
        if once:
            spots.remove(i)
    while mu and not mu[-1]:
        mu.pop()
    return lam, tuple(mu)


def large(rng, fam, skew=.4):
    """(n, lam, mu): shapes of up to six rows, or with long rows, in three to seven variables."""
    strict = fam in STRICT
    cap = {'GS': 12, 'GQ': 16, 'gs': 11, 'j': 9, 'jp': 7, 'jq': 7, 'js': 6}.get(fam, 20)
    while True:
        n = rng.choice((3, 4, 5, 6, 7) if cap > 12 else (3, 4, 5) if cap > 9 else (3, 4) if cap > 8 else (3,))
        k = rng.randint(1, min(6, n) if rng.random() < .8 else 6)
        if rng.random() < .15:
            k, top = rng.randint(1, 3), rng.randint(6, 12)
        elif strict:
            top = k + rng.randint(0, 2)
        else:
            top = rng.choice((2, 3, 5))
        if strict and top < k:
            continue
        lam = rng.sample(range(1, top + 1), k) if strict else [rng.randint(1, top) for _ in range(k)]
        lam = tuple(sorted(lam, reverse=True))
        if sum(lam) > cap + (cap > 12) * (lam[0] > 7) * 4 or sum(lam) > cap - 4 and n > 5:
            continue
        return n, lam, () if rng.random() > skew else rng.choice(sorted(ref.subpartitions(lam, strict)))


def shuffled(d):
    """The same dictionary filled in another order, which depends on what it holds."""
    keys = sorted(d)
    random.Random(repr(keys)).shuffle(keys)
    return {k: d[k] for k in keys}


def extreme(rng, strict, setvalued=False, many=False):
    """(n, lam, mu): shapes and numbers of variables away from the small ones: long rows and columns, hooks, stairs, many variables."""
    kind = rng.choice(('row', 'row', 'column', 'hook', 'stairs', 'many', 'many', 'wide'))
    if kind == 'row' or (kind == 'column' and strict):
        k = rng.randint(6, 8 if setvalued else 18)
        lam = (k,) if rng.random() < .6 else (k, rng.choice((1, 1, 2)))
        n = rng.choice((1, 2, 2)) if not setvalued or rng.random() < .8 else 3
        if many and rng.random() < .3:  # every partition of k as a monomial
            k = rng.randint(6, 9)
            return rng.randint(k - 1, k + 1), (k,), ()
        return n, lam, (rng.randint(1, k - 2),) if len(lam) == 1 and rng.random() < .4 else ()
    if kind == 'column':
        k = rng.randint(4, 6 if setvalued else 10 if many else 8)
        return rng.choice((k - 1, k, k) if k < 6 else (1, 2, k)), (1,) * k, (1,) * rng.randint(1, k - 2) if rng.random() < .4 else ()
    if kind == 'hook' or (kind == 'stairs' and not strict):
        a, b = rng.randint(3, 6), rng.randint(2, 4)
        return rng.choice((1, 2, 3)), ((a, min(a, b) - 1) if strict else (a,) + (1,) * b), ()
    if kind == 'stairs':
        k = rng.randint(3, 5)
        mu = tuple(range(k - 1, 0, -1)) if rng.random() < .7 else tuple(range(k - 2, 0, -1))
        return rng.choice((1, 2)), tuple(range(k, 0, -1)), mu
    if kind == 'wide':
        k = rng.randint(4, 12)
        return rng.choice((1, 2)), (k, rng.randint(1, k - 1)), (k - rng.randint(1, 2),)
    small = ((1,), (2,), (1,), (2, 1) if strict else (1, 1))
    lam = rng.choice(small)
    top = {1: 11, 2: 10, 3: 7}[sum(lam)] if many else 6 if setvalued or sum(lam) > 2 else 8 if sum(lam) == 1 else 7
    return rng.randint(5, top), lam, ()


POINTS = [[1009, 31337, 271828, 3141592, 17, 99991, 123456789], [3, 1234567, 881, 65537, 40961, 777777, 2222]]
BETAS = [987654321, 424242]


def observe_exact(ctx, fam, n, lam, mu=(), fn=None, flip=False, **kw):
    """Call the library and compare every monomial coefficient with the definition."""
    f = (fn or method(fam))(n, lam, mu, **kw) if (mu or kw) else (fn or method(fam))(n, lam)
    want = exact(fam, n, lam, mu)
    if flip:
        want = {nu: {e: c * (-1) ** e for e, c in d.items()} for nu, d in want.items()}
    got = view.sym(f)
    if got != want:
        diff = sorted(nu for nu in set(got) | set(want) if got.get(nu) != want.get(nu))[0]
        ctx.check(False, '%s of %r/%r in %d variables: wrong coefficient at the monomial %r' % (fam, lam, mu, n, diff),
                  got=got.get(diff), want=want.get(diff))
    bad = [o for o in view.orders(f) if o != n]
    ctx.check(not bad, '%s of %r/%r: monomials in %r variables instead of %d' % (fam, lam, mu, bad, n))
    ctx.ev('exact', (fam, n, lam, mu, flip), trivial=not want)
    return f


def observe_value(ctx, fam, n, lam, mu=()):
    f = method(fam)(n, lam, mu) if mu else method(fam)(n, lam)
    got = view.sym(f)
    for pts, b in zip(POINTS, BETAS):
        xs = pts[:n]
        ctx.equal(view.eval_sym(got, xs, b), value(fam, lam, mu, xs, b),
                  '%s of %r/%r in %d variables: wrong value at x=%r beta=%r' % (fam, lam, mu, n, xs, b))
    ctx.ev('value', (fam, n, lam, mu), trivial=not got)


def chunk(steps, k):
    steps = list(steps)
    return [steps[i:i + k] for i in range(0, len(steps), k)]


def split(steps, parts):
    """Deal steps into sessions round robin, keeping each session's order."""
    steps = list(steps)
    parts = max(1, min(parts, len(steps)))
    return [steps[i::parts] for i in range(parts)]
