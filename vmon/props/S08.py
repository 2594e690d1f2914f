import random
from vmon import ref, view, families as F
from vmon.ref import PRIME

TITLE = 'Dual families are dual under the Cauchy identities'
RULE = ('cauchy: sum over outer shapes of f_{lambda//mu}(x) g_{lambda/nu}(y) equals the kernel times the sum over inner '
        'shapes, degree by degree in x, the code supplying both families and the kernel being computed independently '
        'modulo 2^61-1 at random points. Non-trivial = at least two shapes contributed.')
REQUIRED = {'cauchy': 60}
KIND = {'s': ('s', 's'), 'G': ('G', 'g'), 'GP': ('GP', 'gq'), 'GQ': ('GQ', 'gp'), 'PQ': ('P', 'Q')}


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 8)
    steps = []
    for kind, (a, b) in KIND.items():
        strict = a in F.STRICT
        steps.append(('cauchy', kind, 2, 2, 6 if strict else 5, (), (), 0))
        steps.append(('cauchy', kind, 3, 2, 5 if strict else 4, (), (), 1))
        steps.append(('cauchy', kind, 1, 3, 5 if strict else 4, (), (), 2))
        shapes = F.shapes(a, 4)
        pairs = [(m, v) for m in shapes for v in shapes]
        for m, v in rng.sample(pairs, min(len(pairs), 60 if deep else 14)):
            steps.append(('cauchy', kind, rng.choice((1, 2)), rng.choice((1, 2)), (5 if strict else 4) if deep else 4, m, v,
                          rng.randrange(1000)))
        for _ in range(90 if deep else 30):
            m, v = neighbours(rng, strict, 20 if kind in ('s', 'PQ') else 12)
            vs = rng.choice(((1, 1), (2, 1), (1, 2), (2, 2)))
            steps.append(('cauchy', kind, *vs, rng.choice((2, 3) if kind not in ('s', 'PQ') or vs != (1, 1) else (3, 4)), m, v, rng.randrange(1000)))
        for n, m, top in ((1, 1, 9), (2, 1, 7), (1, 2, 7), (4, 1, 4), (1, 4, 4), (3, 3, 3), (5, 1, 3), (1, 6, 3)):
            v = rng.choice(shapes[:4])
            steps.append(('cauchy', kind, n, m, top, rng.choice(shapes[:4]) if top < 5 else (), v if top < 5 else (), rng.randrange(1000)))
    rng.shuffle(steps)
    return F.split(steps, 64 if deep else 40)


def neighbours(rng, strict, limit):
    """Two shapes of up to five rows that differ in a few boxes."""
    rows = rng.randint(1, 5)
    ans = [rng.randint(1, 4 if strict else 5)]
    while len(ans) < rows:
        ans.append(ans[-1] + rng.choice((1, 1, 1, 2) if strict else (0, 0, 1, 1, 2)))
    ans = ans[::-1]
    while sum(ans) > limit:
        ans = ans[1:]
    both = []
    for _ in range(2):
        mu = list(ans)
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            i = rng.randrange(len(mu) + 1)
            new = mu + [0]
            new[i] += rng.choice((1, -1))
            if new[i] >= 0 and all(x > y or x == y and (x == 0 or not strict) for x, y in zip(new, new[1:])):
                mu = [x for x in new if x]
        both.append(tuple(mu))
    return tuple(both)


def by_degree(f, xs, beta, top):
    ans = [0] * (top + 1)
    for mu, c in view.sym(f).items():
        if sum(mu) <= top:
            ans[sum(mu)] = (ans[sum(mu)] + view.eval_coeff(c, beta) * ref.eval_monomial(mu, xs)) % PRIME
    return ans


def kernel(kind, xs, ys, beta, top):
    ans = [1] + [0] * top

    def times(c):        # multiply by 1 + c t
        for k in range(top, 0, -1):
            ans[k] = (ans[k] + c * ans[k - 1]) % PRIME

    def over(c):         # divide by 1 - c t
        for k in range(1, top + 1):
            ans[k] = (ans[k] + c * ans[k - 1]) % PRIME
    for x in xs:
        for y in ys:
            over(x * y)
            if kind == 'PQ':
                times(x * y)
            if kind in ('GP', 'GQ'):
                times(beta * x + x * y)
                over(-beta * x)
    return ans


def cauchy(ctx, kind, n, m, top, mu, nu, salt):
    from symmetric import SymmetricPolynomial as SP
    a, b = KIND[kind]
    rng = random.Random(salt)
    xs = [rng.randrange(1, PRIME) for _ in range(n)]
    ys = [rng.randrange(1, PRIME) for _ in range(m)]
    beta = rng.randrange(1, PRIME)
    strict = a in F.STRICT
    first = {'G': SP.stable_grothendieck_doublebar, 'GP': SP.stable_grothendieck_p_doublebar,
             'GQ': SP.stable_grothendieck_q_doublebar}.get(a, F.method(a))
    second = F.method(b)
    left = [0] * (top + 1)
    used = 0
    for lam in F.shapes(a, top + sum(mu)):
        if not ref.contains(lam, mu) or not ref.contains(lam, nu):
            continue
        f = by_degree(first(n, lam, mu), xs, beta, top)
        if not any(f):
            continue
        g = view.eval_sym(view.sym(second(m, lam, nu)), ys, beta)
        used += 1
        for k in range(top + 1):
            left[k] = (left[k] + f[k] * g) % PRIME
    right = [0] * (top + 1)
    ker = kernel(kind, xs, ys, beta, top)
    for kap in ref.subpartitions(nu, strict):
        if not ref.contains(mu, kap):
            continue
        f = by_degree(first(n, nu, kap), xs, beta, top)
        g = view.eval_sym(view.sym(second(m, mu, kap)), ys, beta)
        for i in range(top + 1):
            for k in range(top + 1 - i):
                right[i + k] = (right[i + k] + f[i] * g % PRIME * ker[k]) % PRIME
    ctx.equal(left, right, 'Cauchy identity for %s with %s, mu=%r nu=%r in %d and %d variables' % (a, b, mu, nu, n, m),
              xs=xs, ys=ys, beta=beta)
    ctx.ev('cauchy', (kind, n, m, top, mu, nu), trivial=used < 2)


KINDS = {'cauchy': cauchy}
