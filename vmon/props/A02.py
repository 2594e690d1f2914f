import random
import re
from vmon import ring, families as F

TITLE = 'Equal polynomials compare, hash and print alike, different ones do not'
RULE = ('route: a polynomial built along several routes (orders, cancellations, substitution, truncation): copies are equal, hash alike, print '
        'alike and index the same dictionary entry; parse: the printed form is parsed back to the polynomial; differ: polynomials that '
        'differ in one term, one variable or one exponent never compare equal and print differently; order: greater and less hold when all '
        'coefficients of the difference have that sign. Non-trivial = at least two terms.')
REQUIRED = {'route': 1000, 'parse': 300, 'differ': 300, 'integer': 100, 'twin': 500, 'order': 300}
ROUNDS = (36, 60)


def plan(tier, seed):
    rng = random.Random(seed + 502)
    steps = [('route', rng.randrange(10 ** 9)) for _ in range(200 if tier == 'quick' else 4000)]
    return F.split(steps, 8)


def parse(text, names):
    if text == '0':
        return {}
    text = text if text.startswith('-') else '+' + text
    out = {}
    for sign, term in re.findall(r'(?:^|\s)([+-])\s*(.*?)(?=\s[+-]\s|$)', text):
        # exponents may be negative: '^-2' has no blank before the sign
        c = re.match(r'\d+', term)
        coeff = int(c.group()) if c else 1
        rest = term[c.end():] if c else term
        d = {}
        for factor in rest.split():
            name, _, e = factor.partition('^')
            d[names[name]] = int(e) if e else 1
        k = ring.key(d)
        assert k not in out, 'a monomial printed twice'
        out[k] = coeff if sign == '+' else -coeff
    return out


def twins(rng, m):
    """Polynomials with the same coefficients on other monomials, or the same monomials with other coefficients."""
    keys = list(m)
    yield ring.norm({k: -c for k, c in m.items()})
    yield dict(zip(keys, list(m.values())[1:] + list(m.values())[:1]))
    for k in keys[:2]:
        d = dict(k)
        for change in (lambda d: {-v: e for v, e in d.items()}, lambda d: {v: -e for v, e in d.items()},
                       lambda d: dict(zip(d, list(d.values())[::-1])), lambda d: {v: e + 1 for v, e in d.items()}):
            new = ring.key(change(d))
            if new == k or new not in m:
                yield {new if x == k else x: c for x, c in m.items()}


def route(ctx, salt):
    from polynomials import Polynomial as P
    rng = random.Random(salt)
    variables = ring.VARS if rng.random() < .7 else rng.sample((0, P.MAX_INT, P.MIN_INT, 4, -4, 9, 10, -10, 12, -12, 21, -21, 100, 101, -110, 1000), 6)
    m = ring.random_model(rng, terms=5, low=rng.choice((0, -2)), big=rng.random() < .1, variables=variables)
    if m and rng.random() < .3:  # monomials that differ by the signs of their exponents or of their variables
        k = dict(rng.choice(list(m)))
        for _ in range(3):
            new = {v: e * rng.choice((1, -1)) for v, e in k.items()}
            if rng.random() < .5:
                v = list(new)
                new = dict(zip(v, rng.sample([new[x] for x in v], len(v))))
            m[ring.key(new)] = rng.choice((1, -1, 3))
    copies = [ring.build(rng, m) for _ in range(4)]
    terms = list(copies[0].coeffs.items()) + [(next(iter(P.x(k).coeffs)), 0) for k in (91, -92)]
    rng.shuffle(terms)
    copies.append(P(dict(terms)))
    extra = ring.random_model(rng, 2)
    e = ring.build(rng, extra)
    copies.append((copies[0] + e) - e)
    copies.append(copies[0] * 1)
    copies.append(P({k: v for k, v in reversed(list(copies[1].coeffs.items()))}))
    copies.append(copies[0].substitute(77, e))
    copies[-1] = copies[-1] if type(copies[-1]) is P else P.one() * copies[-1]
    copies.append(copies[0].truncate(10 ** 6))
    text = repr(copies[0])
    table = {copies[0]: 'here'}
    for p in copies:
        ctx.check(p == copies[0] and not p != copies[0], 'two copies of a polynomial differ', m=m)
        ctx.equal(hash(p), hash(copies[0]), 'hashes of two copies of a polynomial', m=m)
        ctx.equal(repr(p), text, 'printed forms of two copies of a polynomial', m=m)
        ctx.equal(table.get(p), 'here', 'dictionary entry of a copy of a polynomial', m=m)
        ctx.equal(len({p, copies[0]}), 1, 'set of two copies of a polynomial', m=m)
        ctx.equal(ring.of(p), m, 'value of a copy')
        ctx.ev('route', (tuple(sorted(m.items()))), trivial=len(m) < 2)
    used = set(variables) | set(ring.VARS)
    names = {'x_%d' % i: i for i in used if i > 0}
    names.update({'y_%d' % -i: i for i in used if i < 0})
    names.update({'\u03b2': 0, 'x': P.MAX_INT, 'y': P.MIN_INT})
    ctx.equal(parse(text, names), m, 'printed polynomial read back', text=text)
    ctx.ev('parse', text, trivial=len(m) < 2)
    n = dict(m)
    k = rng.choice(list(n)) if n and rng.random() < .7 else ring.key({rng.choice(ring.VARS): rng.randrange(1, 3)})
    n[k] = n.get(k, 0) + rng.choice((1, -1))
    n = ring.norm(n)
    q = ring.build(rng, n)
    ctx.check(q != copies[0] and not q == copies[0], 'different polynomials compare equal', p=m, q=n)
    ctx.check(repr(q) != text, 'different polynomials print alike', p=m, q=n)
    ctx.equal(len({q, copies[0]}), 2, 'set of two different polynomials')
    ctx.ev('differ', (tuple(sorted(m.items())), tuple(sorted(n.items()))))
    for n in twins(rng, m):
        q = ring.build(rng, n)
        same = n == m
        ctx.check((q == copies[0]) == same and (q != copies[0]) == (not same), 'equality of two nearly equal polynomials', p=m, q=n)
        ctx.check((repr(q) == text) == same, 'printed forms of two nearly equal polynomials', p=m, q=n)
        ctx.check(len({q, copies[0]}) == 2 - same, 'set of two nearly equal polynomials', p=m, q=n)
        ctx.ev('twin', (tuple(sorted(m.items())), tuple(sorted(n.items()))), trivial=same)
    c = rng.choice((0, 1, -1, 2, 10 ** 12))
    p = ring.build(rng, ring.const(c))
    ctx.check(p == c and c == p and hash(p) == hash(c) and repr(p) == repr(c), 'a constant polynomial and its integer', c=c)
    if len(m) > 0 and any(m):
        ctx.check(copies[0] != c and not copies[0] == c, 'a polynomial equals an integer', m=m, c=c)
    ctx.ev('integer', c)
    up = ring.norm({k: abs(x) for k, x in ring.random_model(rng, rng.randrange(1, 4)).items()})
    for n, c in ((n, None), (up, None), (ring.add(m, up), None), (None, rng.choice((0, 1, -1, 5, 300))), (None, m.get(ring.key({}), 0) - 1)):
        q, n = (ring.build(rng, n), n) if c is None else (c, ring.const(c))
        diff = ring.add(m, n, -1)
        over, under = all(x > 0 for x in diff.values()), all(x < 0 for x in diff.values())
        ctx.equal((copies[0] > q, copies[0] < q), (over, under), 'order of polynomials', p=m, q=n)
        if c is None:
            ctx.equal((q > copies[0], q < copies[0]), (under, over), 'order of polynomials', p=n, q=m)
        ctx.ev('order', (tuple(sorted(m.items())), tuple(sorted(n.items()))), trivial=not (over or under))


KINDS = {'route': route}
