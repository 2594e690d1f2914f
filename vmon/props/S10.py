import collections
import itertools
import math
import random
import re
from vmon import ref, view, families as F

TITLE = 'Symmetric polynomial arithmetic is polynomial arithmetic'
RULE = ('random programs over symmetric polynomials (sums, products, scalar and beta multiples, powers, truncation, extreme '
        'degree parts, monomial arithmetic) run step by step next to a plain exponent-dictionary model; equality, hash, '
        'serialisation and printing compared across different construction routes; polynomials and monomials that differ in one '
        'coefficient, exponent, beta power or number of variables never compare equal; large: products, orders, printed forms and expansions with up to 12 variables, and high powers; earlier values re-read at the end. '
        'Non-trivial = non-zero result.')
REQUIRED = {'large': 150, 'twin': 1500, 'power': 200, 'op': 1500, 'route': 150, 'expand': 100, 'product': 300, 'kept': 300}
ROUNDS = (12, 40)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 10)
    steps = []
    for n in (0, 1, 2, 3, 4):
        shapes = [s for s in ref.partitions_upto(6 if deep else 5) if len(s) <= n]
        pairs = [(a, b) for a in shapes for b in shapes]
        for a, b in rng.sample(pairs, min(len(pairs), 300 if deep else 120)):
            steps.append(('product', n, a, b))
    for _ in range(200 if deep else 60):
        n = rng.choice((1, 2, 2, 3, 5, 6))
        top = {1: 40, 2: 15, 3: 7, 5: 2, 6: 2}[n]
        if rng.random() < .4:  # long monomials
            n = rng.choice((5, 6, 7))
            a, b = ((rng.randint(1, 2),) * rng.randint(1, n // 2) + (1,) * rng.randint(0, n - n // 2) for _ in 'ab')
            steps.append(('product', n, a, b))
            continue
        a, b = (tuple(sorted((rng.randint(1, top) for _ in range(rng.randint(0, min(n, 3 if n < 6 else 2)))), reverse=True)) for _ in 'ab')
        steps.append(('product', n, a, b))
    for i in range(1200 if deep else 240):
        steps.append(('program', rng.choice((1, 2, 2, 3, 3)), rng.randrange(10 ** 8)))
    steps += [('twins', rng.choice((1, 2, 3, 4)), rng.randrange(10 ** 8)) for _ in range(600 if deep else 120)]
    steps += [('power', rng.choice((1, 2, 2, 3)), rng.randrange(10 ** 8)) for _ in range(600 if deep else 120)]
    steps += [('large', rng.randrange(10 ** 8)) for _ in range(200 if deep else 40)]
    rng.shuffle(steps)
    return F.split(steps, 64 if deep else 40)


# model: {(exponents..., beta power): integer}

def orbit(n, mu, coeff):
    ans = {}
    for al in set(itertools.permutations(tuple(mu) + (0,) * (n - len(mu)))):
        for e, c in coeff.items():
            ans[al + (e,)] = ans.get(al + (e,), 0) + c
    return {k: v for k, v in ans.items() if v}


def flat(f, n):
    """The code's value as a model, expanding monomials independently."""
    ans = {}
    for m, c in f.items():
        ans = ref.padd(ans, orbit(n, m.index(), view.coeff(c)))
    return ans


def product(ctx, n, a, b):
    from symmetric import SymmetricMonomial as M
    f = M(n, a) * M(n, b)
    want = ref.pmul(orbit(n, a, {0: 1}), orbit(n, b, {0: 1}))
    ctx.equal(flat(f, n), want, 'm_%r times m_%r in %d variables' % (a, b, n))
    ctx.equal(flat(M(n, b) * M(n, a), n), want, 'm_%r times m_%r in %d variables' % (b, a, n))
    g = M(n, a).symmetric_polynomial() * M(n, b).symmetric_polynomial()
    ctx.equal(flat(g, n), want, 'polynomial m_%r times polynomial m_%r in %d variables' % (a, b, n))
    ctx.check(f == g and hash(f) == hash(g) and f.serialize() == g.serialize(),
              'the same product, formed two ways, is not equal', a=a, b=b, n=n)
    ctx.ev('product', (n, a, b))


def random_coeff(rng):
    from polynomials import beta
    if rng.random() < 0.5:
        c = rng.choice((-3, -2, -1, 1, 2, 4))
        return c, {0: c}
    d = {e: rng.choice((-2, -1, 1, 3)) for e in rng.sample((0, 1, 2, 3), rng.choice((1, 2, 3)))}
    v = 0
    for e, c in d.items():
        v = v + beta ** e * c
    return v, d


def program(ctx, n, salt):
    from symmetric import SymmetricMonomial as M, SymmetricPolynomial as SP
    from polynomials import beta, Polynomial
    rng = random.Random(salt)
    shapes = [s for s in ref.partitions_upto(4) if len(s) <= n]

    def atom():
        f, m = SP(), {}
        for mu in rng.sample(shapes, min(len(shapes), rng.choice((1, 2, 3)))):
            v, d = random_coeff(rng)
            f = M(n, mu).symmetric_polynomial() * v + f
            m = ref.padd(m, orbit(n, mu, d))
        return f, m
    pool = [atom() for _ in range(3)]
    snapshots = []
    for step in range(8):
        f, a = rng.choice(pool)
        g, b = rng.choice(pool)
        op = rng.choice(('add', 'sub', 'mul', 'scale', 'rscale', 'neg', 'pow', 'trunc', 'low', 'high', 'mono', 'eq', 'sum'))
        if op == 'add':
            h, c = f + g, ref.padd(a, b)
        elif op == 'sub':
            h, c = f - g, ref.padd(a, b, -1)
        elif op == 'mul':
            if len(a) * len(b) > 4000:
                continue
            h, c = f * g, ref.pmul(a, b)
        elif op in ('scale', 'rscale'):
            v, d = random_coeff(rng)
            h = f * v if op == 'scale' or not isinstance(v, int) else v * f
            c = ref.pmul(a, {(0,) * n + (e,): x for e, x in d.items()})
        elif op == 'neg':
            h, c = -f, {k: -v for k, v in a.items()}
        elif op == 'pow':
            e = rng.choice((1, 2, 3))
            if len(a) ** e > 4000:
                continue
            h, c = f ** e, a
            for _ in range(e - 1):
                c = ref.pmul(c, a)
        elif op == 'trunc':
            d = rng.randrange(-1, 9)
            h, c = f.truncate(d), {k: v for k, v in a.items() if sum(k[:n]) <= d}
        elif op in ('low', 'high'):
            degs = {sum(k[:n]) for k in a} or {0}
            d = min(degs) if op == 'low' else max(degs)
            h = f.lowest_degree_terms() if op == 'low' else f.highest_degree_terms()
            c = {k: v for k, v in a.items() if sum(k[:n]) == d}
        elif op == 'mono':
            mu, nu = rng.choice(shapes), rng.choice(shapes)
            k = rng.choice((-2, -1, 1, 3))
            which = rng.randrange(7)
            x, y = orbit(n, mu, {0: 1}), orbit(n, nu, {0: 1})
            one = {(0,) * (n + 1): 1}
            if which == 0:
                h, c = M(n, mu) + M(n, nu), ref.padd(x, y)
            elif which == 1:
                h, c = M(n, mu) - M(n, nu), ref.padd(x, y, -1)
            elif which == 2:
                h, c = M(n, mu) + k, ref.padd(x, one, k)
            elif which == 3:
                h, c = k - M(n, mu), ref.padd({q: -v for q, v in x.items()}, one, k)
            elif which == 4:
                h, c = M(n, mu) + f, ref.padd(x, a)
            elif which == 5:
                h, c = M(n, mu) * f, ref.pmul(x, a)
            else:
                h, c = M(n, mu) - f, ref.padd(x, a, -1)
        elif op == 'sum':
            h, c = sum([f, g, f]), ref.padd(ref.padd(a, b), a)
        else:
            ctx.check((f == g) == (a == b), 'equality of symmetric polynomials disagrees with the model', f=f, g=g)
            if a == b:
                ctx.check(hash(f) == hash(g), 'equal symmetric polynomials hash differently', f=f, g=g)
            ctx.ev('op', ('eq', n, salt, step))
            continue
        got = flat(h, n)
        ctx.equal(got, c, 'symmetric polynomial operation %s in %d variables' % (op, n), f=f, g=g)
        ctx.check((h == 0) == (not c) and bool(h.is_zero()) == (not c), 'zero test after %s' % op, value=h)
        ctx.ev('op', (op, n, salt, step), trivial=not c)
        pool.append((h, c))
        snapshots.append((h, c, repr(h)))
        # another route to the same value
        if h and rng.random() < 0.5:
            items = list(h.items())
            rng.shuffle(items)
            k = SP()
            for mon, v in items:
                k = k + SP({M(n, mon.index()): v})
            ctx.check(k == h and h == k, 'a polynomial rebuilt term by term is not equal', original=h, rebuilt=k)
            ctx.equal(hash(k), hash(h), 'a polynomial rebuilt term by term hashes differently', value=h)
            ctx.equal(k.serialize(), h.serialize(), 'a polynomial rebuilt term by term serialises differently')
            k = SP({M(n, mon.index()): v for mon, v in items}, h.printer)
            ctx.equal(repr(k), repr(h), 'a polynomial rebuilt term by term prints differently')
            ctx.ev('route', (n, salt, step))
        if h and len(c) < 60 and rng.random() < 0.3:
            p = view.poly(h.polynomial())
            w = {frozenset([(i + 1, e) for i, e in enumerate(q[:n]) if e] + ([(0, q[n])] if q[n] else [])): v
                 for q, v in c.items()}
            ctx.equal(p, w, 'expansion in the variables x')
            p = view.poly(h.polynomial('y'))
            w = {frozenset([(-i - 1, e) for i, e in enumerate(q[:n]) if e] + ([(0, q[n])] if q[n] else [])): v
                 for q, v in c.items()}
            ctx.equal(p, w, 'expansion in the variables y')
            ctx.ev('expand', (n, salt, step))
    for h, c, text in snapshots:
        ctx.equal(flat(h, n), c, 'a symmetric polynomial changed after later operations')
        ctx.equal(repr(h), text, 'a symmetric polynomial prints differently after later operations')
        ctx.ev('kept', (n, salt, text))


def twins(ctx, n, salt):
    from symmetric import SymmetricMonomial as M, SymmetricPolynomial as SP
    from polynomials import beta
    rng = random.Random(salt)
    shapes = [s for s in ref.partitions_upto(5) if len(s) <= n]

    def build(d):
        items = list(d.items())
        rng.shuffle(items)
        ans = {}
        for mu, c in items:
            v = 0
            for e, x in c.items():
                v = v + beta ** e * x
            ans[M(n, mu)] = c[0] if set(c) == {0} and rng.random() < .5 else v
        return SP(ans)
    for _ in range(6):
        if rng.random() < .3:
            shapes = [(), (rng.randint(3, 400),), (rng.randint(5, 9), rng.randint(1, 5))[:n], (3,) * n]
        sizes, powers = rng.choice((((-2, -1, 1, 2), (0, 1, 2)), ((-1000, -7, 5, 12, 300, 12345), (-3, 0, 1, 7, 300))))
        d = {mu: {e: rng.choice(sizes) for e in rng.sample(powers, rng.choice((1, 1, 2)))} for mu in rng.sample(shapes, min(len(shapes), rng.randrange(1, 4)))}
        t = {mu: dict(c) for mu, c in d.items()}
        mu = rng.choice(sorted(t))
        e = rng.choice(sorted(t[mu]))
        how = rng.randrange(6)
        if how == 0:
            t[mu][e] = -t[mu][e]
        elif how == 1:
            t[mu][e] = t[mu][e] + 1
        elif how == 2:
            t[mu][e + 3] = t[mu].pop(e)
        elif how == 3:
            other = rng.choice(shapes)
            t[mu], t[other] = t.get(other, {}), t[mu]
        elif how == 4:
            del t[mu]
        t = {m: {p: x for p, x in c.items() if x} for m, c in t.items()}
        t = {m: c for m, c in t.items() if c}
        f, g, same = build(d), build(t), d == t
        ctx.equal((f == g, g == f, f != g), (same, same, not same), 'equality of two nearly equal symmetric polynomials', f=f, g=g)
        ctx.equal(f - g == 0, same, 'difference of two nearly equal symmetric polynomials', f=f, g=g)
        if same:
            ctx.equal(hash(f), hash(g), 'hash of equal symmetric polynomials', f=f)
        else:
            ctx.check(f.serialize() != g.serialize(), 'different polynomials serialise alike', f=f, g=g)
            ctx.equal(len({f, g}), 2, 'different polynomials in a set')
        if rng.random() < .3:
            f, d = SP({M(n, ()): rng.choice((1, beta)) * 0 + sizes[-1]}), {(): {0: sizes[-1]}}
        for k in (0, 1, -2, int(str(sizes[-1])), -7):
            ctx.equal(f == k, d == ({(): {0: k}} if k else {}), 'comparison with an integer', f=f, k=k)
        ctx.ev('twin', (n, tuple(sorted((m, tuple(sorted(c.items()))) for m, c in d.items())), how))
        mu, nu = rng.choice(shapes), rng.choice(shapes)
        k = rng.choice((n, n, n + 1))
        same = (mu, n) == (nu, k)
        a, b = M(n, mu), M(k, nu)
        ctx.equal((a == b, b == a), (same, same), 'equality of monomials', mu=mu, nu=nu, n=n, k=k)
        if same:
            ctx.equal(hash(a), hash(b), 'hash of equal monomials', mu=mu)
        if k == n:
            ctx.equal((a < b, b < a), (mu < nu, nu < mu), 'order of monomials', mu=mu, nu=nu)
            ctx.equal(a == b.symmetric_polynomial(), same, 'a monomial against a polynomial', mu=mu, nu=nu)
        ctx.equal((a == 0, a == 1, a == 2), (False, mu == (), False), 'a monomial against an integer', mu=mu)
        ctx.equal((a.index(), a.order(), a.degree()), (mu, n, sum(mu)), 'data of a monomial', mu=mu)
        ctx.ev('twin', (n, mu, k, nu))


def power(ctx, n, salt):
    from symmetric import SymmetricMonomial as M
    rng = random.Random(salt)
    mu = rng.choice([s for s in ref.partitions_upto(4) if len(s) <= n])
    for e in range(0, 8 if n == 1 else (6 if sum(mu) < 3 else 5) if n == 2 else 4):
        want = {(0,) * (n + 1): 1}
        for _ in range(e):
            want = ref.pmul(want, orbit(n, mu, {0: 1}))
        got = M(n, mu) ** e
        got = {got: 1} if isinstance(got, M) else got
        ctx.equal(flat(got, n), want, 'power %d of m_%r in %d variables' % (e, mu, n))
        ctx.ev('power', (n, mu, e), trivial=not mu)
    k = rng.choice((-3, -1, 0, 1, 2))
    x = orbit(n, mu, {0: 1})
    one = {(0,) * (n + 1): k} if k else {}
    ctx.equal(flat(k + M(n, mu), n), ref.padd(x, one), 'integer plus a monomial', mu=mu, k=k)
    for got in (k * M(n, mu), M(n, mu) * k):
        got = {got: 1} if isinstance(got, M) else got
        ctx.equal(flat(got, n), {a: c * k for a, c in x.items()} if k else {}, 'integer times a monomial', mu=mu, k=k)
    v, d = random_coeff(rng)
    got = M(n, mu) * v
    got = {got: 1} if isinstance(got, M) else got
    ctx.equal(flat(got, n), orbit(n, mu, d), 'a coefficient times a monomial', mu=mu, v=v)
    from symmetric import SymmetricPolynomial as SP
    if isinstance(got, SP) and not any(isinstance(c, int) for c in got.values()):
        kept = flat(got, n)
        ctx.equal(flat(SP.negate_beta(got), n), orbit(n, mu, {k: c * (-1) ** k for k, c in d.items()}), 'negated beta', mu=mu, v=v)
        ctx.equal(flat(got, n), kept, 'a polynomial after negate_beta', mu=mu, v=v)


def arrangements(mu, n):
    """The distinct rearrangements of mu followed by zeros."""
    left = collections.Counter(mu)
    left[0] += n - len(mu)

    def rec(k):
        if not k:
            yield ()
            return
        for a in sorted(left):
            if left[a]:
                left[a] -= 1
                for rest in rec(k - 1):
                    yield (a,) + rest
                left[a] += 1
    return rec(n)


def printed(text):
    """The monomials m[mu;n] of a printed polynomial, in order."""
    return [(tuple(map(int, a.split(','))), int(b)) for a, b in re.findall(r'm\[([0-9,]+);([0-9]+)\]', text)]


def large(ctx, salt):
    """Many variables, long monomials, high powers: monomials are compared instead of exponent vectors."""
    from symmetric import SymmetricMonomial as M, SymmetricPolynomial as SP
    rng = random.Random(salt)
    n = rng.randrange(5, 13)

    def shape():
        k = rng.randrange(0, min(n, 5 if n < 9 else 4))
        return tuple(sorted((rng.choice((1, 1, 2, 2, 3, 9)) for _ in range(k)), reverse=True))
    def tall():
        return tuple(sorted((rng.choice((1, 2, 3)) for _ in range(rng.randrange(3, n + 1))), reverse=True))
    a, b = shape(), shape()
    if len(set(a)) + len(set(b)) > 4:
        a = a[:1] * len(a)
    want = {}
    long_b = tuple(arrangements(b, n)) if n < 8 else tuple(arrangements(b, min(n, len(a) + len(b))))
    base = a + (0,) * (len(long_b[0]) - len(a))
    for g in {tuple(sorted((x + y for x, y in zip(base, other)), reverse=True)) for other in long_b}:
        g = tuple(x for x in g if x)
        count = 0
        for alpha in arrangements(a, len(g)) if len(g) >= len(a) else ():
            rest = tuple(x - y for x, y in zip(g, alpha))
            count += min(rest, default=0) >= 0 and tuple(sorted((x for x in rest if x), reverse=True)) == b
        want[g] = {0: count}
    got = M(n, a) * M(n, b)
    ctx.equal(view.sym(got), want, 'm_%r times m_%r in %d variables' % (a, b, n))
    ctx.equal(set(view.orders(got)), {n}, 'number of variables of a product')
    ctx.ev('product', (n, a, b))
    # a printed polynomial lists every monomial once, lower degrees first, with its number of variables
    d = {}
    for _ in range(rng.randrange(1, 6)):
        mu = shape() if rng.random() < .5 else tall()
        d[mu] = rng.choice((1, -1, 5, -60, 1000))
    items = list(d.items())
    rng.shuffle(items)
    f = SP({M(n, mu): c for mu, c in items})
    order = sorted((mu for mu in d if mu), key=lambda mu: (sum(mu), mu))
    ctx.equal(printed(repr(f)), [(mu, n) for mu in order], 'monomials of a printed polynomial', f=f)
    ctx.equal(f == sum((M(n, mu).symmetric_polynomial(c) for mu, c in items), SP()), True, 'a sum of monomials')
    lo, hi = min(map(sum, d)), max(map(sum, d))
    for h, keep in ((f.lowest_degree_terms(), lambda s: s == lo), (f.highest_degree_terms(), lambda s: s == hi),
                    (f.truncate((lo + hi) // 2), lambda s: s <= (lo + hi) // 2)):
        ctx.equal(view.sym(h), {mu: {0: c} for mu, c in d.items() if keep(sum(mu))}, 'terms of extreme degree', f=f)
    x, y = rng.choice((shape, tall))(), rng.choice((shape, tall))()
    k = rng.choice((n, n + 1))
    ctx.equal((M(n, x) == M(k, y), hash(M(n, x)) == hash(M(k, y)) or x != y or k != n), (x == y and k == n, True), 'equality of monomials', x=x, y=y, n=n, k=k)
    ctx.equal(M(n, x) == M(n + 1, x), False, 'equal monomials in different numbers of variables', x=x)
    ctx.equal((M(n, x) < M(n, y), max(M(n, x), M(n, y)).index()), (x < y, max(x, y)), 'order of monomials', x=x, y=y)
    c = rng.choice((53, 1000, -77))
    for e in (c, -c, c + 1, 0):
        ctx.equal(SP({M(n, ()): c}) == e, c == e, 'comparison with an integer', c=c, e=e)
    # expansion in the variables
    mu = x if len(x) < 4 else x[:3]
    want = {frozenset((i + 1, p) for i, p in enumerate(al) if p): 1 for al in arrangements(mu, n)}
    ctx.equal(view.poly(M(n, mu).polynomial()), want, 'expansion in the variables x', mu=mu, n=n)
    # high powers in one or two variables
    m, e = rng.choice((1, 2)), rng.randrange(8, 20)
    r = rng.randrange(1, 4)
    got = M(m, (r,)) ** e
    got = {got: 1} if isinstance(got, M) else got
    want = {(r * e,): 1} if m == 1 else {tuple(v for v in (r * i, r * (e - i)) if v): math.comb(e, i) for i in range(e + 1) if 2 * i >= e}
    ctx.equal({mon.index(): c for mon, c in got.items()}, want, 'power %d of m_%d in %d variables' % (e, r, m))
    ctx.ev('large', (n, a, b, x, y, e))


KINDS = {'large': large, 'twins': twins, 'power': power, 'product': product, 'program': program}
