import random
from fractions import Fraction
from math import gcd
from vmon import ring, families as F

TITLE = 'Vectors form a module with products, and span tests agree with exact linear algebra'
RULE = ('program: random programs of sums, differences, multiples by integers and polynomials, products with and without multipliers, next to a '
        'dictionary model, every earlier value read again; span: membership of a random integer vector in the span of others against '
        'elimination over the rationals, echelon forms of random matrices; text: printed vectors. Non-trivial = a non-zero vector.')
REQUIRED = {'op': 2000, 'span': 400, 'echelon': 300, 'text': 300}
ROUNDS = (60, 120)


def plan(tier, seed):
    rng = random.Random(seed + 503)
    steps = [('program', rng.randrange(10 ** 9)) for _ in range(90)] + [('span', rng.randrange(10 ** 9)) for _ in range(160)]
    steps += [('text', rng.randrange(10 ** 9)) for _ in range(120)]
    rng.shuffle(steps)
    return F.split(steps, 8)


# models: {key: polynomial model}; keys are tuples of integers, multiplied by concatenation or by a given rule

def clean(d):
    return {k: v for k, v in d.items() if v}


def rule(a, b):
    """A multiplier with several terms, cancellation and zero products."""
    if a and b and a[-1] == b[0]:
        return [(a + b[1:], 1)]
    if a and b and a[-1] > b[0]:
        return [(a[:-1] + b[:1] + a[-1:] + b[1:], 1), (b + a, -1)]
    if len(a) + len(b) > 6:
        return []
    return [(a + b, 1)]


def read(v):
    return {k: ring.of(c) for k, c in v.items()}


def program(ctx, salt):
    from vectors import Vector
    from polynomials import Polynomial
    rng = random.Random(salt)
    poly = rng.random() < .6

    def random_key():
        return tuple(rng.randrange(1, 4) for _ in range(rng.randrange(0, 3)))

    def fresh():
        m = {}
        for _ in range(rng.randrange(0, 4)):
            m[random_key()] = ring.random_model(rng, 2) if poly else ring.const(rng.randrange(-3, 4))
        d = {}
        for k, c in m.items():
            d[k] = ring.build(rng, c) if poly else c.get((), 0)
        return clean(m), Vector(d, multiplier=rule)

    def bare(m, v):
        """The same vector without a multiplier of its own: sums and differences take over the other one's."""
        return Vector(dict(v.items()))
    stack = [fresh() for _ in range(3)]
    k = random_key()
    stack.append(({k: ring.const(1)}, Vector.base(k, multiplier=rule)))
    for _ in range(12):
        (m, v), (n, w) = rng.choice(stack), rng.choice(stack)
        op = rng.choice(('add', 'sub', 'mulc', 'cmul', 'neg', 'mul', 'mul', 'pow', 'zero', 'floor', 'key', 'sum'))
        if op in ('mul', 'pow') and (len(m) * len(n) > 30 or any(len(k) > 7 for k in list(m) + list(n))):
            continue

        def prod(m, n):
            r = {}
            for a, x in m.items():
                for b, y in n.items():
                    for k, c in rule(a, b):
                        r[k] = ring.add(r.get(k, {}), ring.mul(x, y), c)
            return clean(r)
        if op == 'add':
            r = clean({k: ring.add(m.get(k, {}), n.get(k, {})) for k in set(m) | set(n)})
            u = v + w
            if rng.random() < .3:
                u = bare(m, v) + w if n and rng.random() < .5 else v + bare(n, w)
        elif op == 'sub':
            r = clean({k: ring.add(m.get(k, {}), n.get(k, {}), -1) for k in set(m) | set(n)})
            u = v - w
            if rng.random() < .3:
                u = bare(m, v) - w if n and rng.random() < .5 else v - bare(n, w)
        elif op in ('mulc', 'cmul'):
            c = ring.random_model(rng, 2) if rng.random() < .5 else ring.const(rng.randrange(-3, 4))
            d = ring.build(rng, c) if any(c) or rng.random() < .3 else c.get((), 0)
            r = clean({k: ring.mul(x, c) for k, x in m.items()})
            u = v * d if op == 'mulc' else d * v
        elif op == 'neg':
            r, u = {k: ring.mul(x, ring.const(-1)) for k, x in m.items()}, -v
        elif op == 'mul':
            r, u = prod(m, n), v * w
        elif op == 'pow':
            e = rng.choice((1, 2))
            r, u = (m if e == 1 else prod(m, m)), v ** e
        elif op == 'zero':
            r, u = m, rng.choice((lambda: v + 0, lambda: 0 + v, lambda: v - 0))()
        elif op == 'sum':
            r = clean({k: ring.add(m.get(k, {}), n.get(k, {})) for k in set(m) | set(n)})
            u = sum([v, w])
        elif op == 'key':
            k = random_key()
            if poly:
                continue
            r, u = prod(m, {k: ring.const(1)}), v * k
        else:
            c = rng.choice((2, 3))
            r = clean({k: ring.norm({a: b // c for a, b in x.items()}) for k, x in m.items()})
            u = v // c
            ctx.equal(read(u), r, 'floor quotient of a vector')
            continue
        ctx.check(type(u) is Vector, 'result of %r is not a vector' % op)
        ctx.equal(read(u), r, 'result of %r' % op, operands=(m, n))
        ctx.equal((len(u), u.is_zero(), set(u), set(u.keys())), (len(r), not r, set(r), set(r)), 'size and keys after %r' % op)
        ctx.equal(u[(9, 9, 9)], 0, 'coefficient of an absent key')
        ctx.ev('op', (op, tuple(sorted((k, tuple(sorted(c.items()))) for k, c in r.items()))), trivial=not r)
        stack.append((r, u))
    for m, v in stack:
        ctx.equal(read(v), m, 'a vector changed while others were computed from it')
        ctx.equal(v == 0, not m, 'comparison of a vector with zero')
    for m, v in rng.sample(stack, 5):
        for n, w in stack:
            ctx.check((v == w) == (m == n) and (v != w) == (m != n), 'equality of vectors', v=m, w=n)
            if m == n:
                ctx.equal(hash(v), hash(w), 'hashes of equal vectors')
    m, v = rng.choice(stack)
    if all(set(c) <= {()} for c in m.values()) and all(type(c) is int for c in v.values()):
        vals = [c.get((), 0) for c in m.values()]
        ctx.equal((v.is_singleton(), v.is_nonnegative(), v.is_positive()),
                  (vals == [1], all(x > 0 for x in vals), bool(vals) and all(x > 0 for x in vals)), 'sign predicates', v=m)


def echelon_rank(rows):
    """Row-reduced form over the rationals (list of rows) of an integer matrix."""
    rows = [[Fraction(x) for x in r] for r in rows]
    out, col = [], 0
    width = len(rows[0]) if rows else 0
    for col in range(width):
        p = next((r for r in rows if r[col] != 0), None)
        if p is None:
            continue
        rows.remove(p)
        p = [x / p[col] for x in p]
        rows = [[a - r[col] * b for a, b in zip(r, p)] for r in rows]
        out = [[a - r[col] * b for a, b in zip(r, p)] for r in out]
        out.append(p)
    return out


def span(ctx, salt):
    from vectors import Vector
    rng = random.Random(salt)
    dim, k = (rng.randrange(1, 6), rng.randrange(0, 5)) if rng.random() < .8 else (rng.randrange(6, 9), rng.randrange(3, 9))
    top = rng.choice((1, 3, 3, 50))
    vecs = [[rng.randrange(-top, top + 1) if rng.random() < .7 else 0 for _ in range(dim)] for _ in range(k)]
    if k and rng.random() < .6:
        w = [0] * dim
        d = rng.choice((1, 1, 2))
        for v in vecs:
            c = rng.randrange(-2, 3)
            w = [a + c * b for a, b in zip(w, v)]
        if d == 2 and all(a % 2 == 0 for a in w):
            w = [a // 2 for a in w]
        if rng.random() < .2:
            w[rng.randrange(dim)] += 1
    else:
        w = [rng.randrange(-top, top + 1) for _ in range(dim)]
    keys = [(i,) for i in range(dim)]
    rng.shuffle(keys)
    lib = [Vector(dict(zip(keys, v))) for v in vecs]
    before = [dict(v.items()) for v in lib]
    want = len(echelon_rank(vecs)) == len(echelon_rank(vecs + [w]))
    target = Vector(dict(zip(keys, w)))
    ctx.equal(target.is_expressable(*lib), want, 'membership in a span', vectors=vecs, target=w)
    ctx.equal([dict(v.items()) for v in lib], before, 'the spanning vectors changed')
    ctx.ev('span', (tuple(map(tuple, vecs)), tuple(w)), trivial=not any(w))
    rows, cols = rng.randrange(0, 5), rng.randrange(1, 5)
    mat = [[rng.randrange(-top, top + 1) if rng.random() < .7 else 0 for _ in range(cols)] for _ in range(rows)]
    copy = [r[:] for r in mat]
    got = Vector.rref(mat)
    ctx.equal(mat, copy, 'the matrix changed')
    ctx.equal((len(got), [len(r) for r in got]), (rows, [cols] * rows), 'size of the echelon form', matrix=mat)
    pivots = [next((j for j, x in enumerate(r) if x), None) for r in got]
    found = [p for p in pivots if p is not None]
    ctx.check(pivots == found + [None] * (rows - len(found)) and all(a < b for a, b in zip(found, found[1:])), 'not in echelon form',
              matrix=mat, got=got)
    ctx.check(all(type(x) is int for r in got for x in r), 'an echelon form with entries that are not integers', got=got)
    ctx.check(all(gcd(*r) == 1 and r[p] > 0 for r, p in zip(got, found)), 'a row that is not primitive with a positive pivot', matrix=mat, got=got)
    ctx.equal(echelon_rank(got), echelon_rank(mat), 'the row space changed', matrix=mat, echelon=got)
    ctx.ev('echelon', tuple(map(tuple, mat)), trivial=not found)


def text(ctx, salt):
    from vectors import Vector
    from polynomials import X
    rng = random.Random(salt)
    names = rng.sample(['a', 'b', 'c', 'aa', 'z'], rng.randrange(0, 4))
    d = {k: rng.choice((1, -1, 2, -3, 12)) for k in names}
    if rng.random() < .3:
        d[''] = rng.choice((1, -1, 5, -7))
    v = Vector(d, printer=lambda s: s and '<%s>' % s)
    want = ''
    for k in sorted(d):
        c = d[k]
        want += (' - ' if c < 0 else ' + ')
        if not k:
            want += str(abs(c))
        else:
            want += ('' if abs(c) == 1 else '%d*' % abs(c)) + '<%s>' % k
    want = '0' if not want else want[3:] if want.startswith(' + ') else '-' + want[3:]
    ctx.equal(repr(v), want, 'printed vector', d=d)
    ctx.ev('text', want, trivial=not d)
    p = X(1) + 2
    ctx.equal(repr(Vector({'k': p}, printer=str)), '(%r)*k' % p, 'printed vector with a polynomial coefficient')
    ctx.equal(repr(Vector({(1,): 2})), '2*(1,)', 'printed vector without a printer')


KINDS = {'program': program, 'span': span, 'text': text}
