import random
from vmon import ring, families as F

TITLE = 'Polynomials form the ring of integer Laurent polynomials'
RULE = ('program: random programs of sums, products, powers, negation, formal-group sums, mixed with integers, run next to a dictionary '
        'model; every earlier value is read again at the end; part: coefficients, truncation, degrees, division, remainders, '
        'evaluation and substitution of random polynomials against the model. Non-trivial = at least two terms.')
REQUIRED = {'op': 3000, 'part': 400, 'kept': 1000}
ROUNDS = (45, 80)


def plan(tier, seed):
    rng = random.Random(seed + 501)
    steps = [('program', rng.randrange(10 ** 9)) for _ in range(120)] + [('part', rng.randrange(10 ** 9)) for _ in range(160)]
    rng.shuffle(steps)
    return F.split(steps, 8)


def program(ctx, salt):
    from polynomials import Polynomial as P
    rng = random.Random(salt)
    low = rng.choice((0, 0, -2))
    stack = []
    for _ in range(3):
        m = ring.random_model(rng, low=low, big=rng.random() < .2)
        stack.append((m, ring.build(rng, m)))
    log = []
    for _ in range(12):
        (m, p), (n, q) = rng.choice(stack), rng.choice(stack)
        c = rng.choice((0, 1, -1, 2, -7))
        op = rng.choice(('add', 'sub', 'mul', 'addc', 'subc', 'csub', 'cadd', 'mulc', 'cmul', 'neg', 'pow', 'xor', 'inv'))
        if op == 'pow' and len(m) > 4 or op in ('mul', 'xor') and len(m) * len(n) > 60:
            continue
        if op == 'add':
            r, v = ring.add(m, n), p + q
        elif op == 'sub':
            r, v = ring.add(m, n, -1), p - q
        elif op == 'mul':
            r, v = ring.mul(m, n), p * q
        elif op == 'addc':
            r, v = ring.add(m, ring.const(c)), p + c
        elif op == 'cadd':
            r, v = ring.add(m, ring.const(c)), c + p
        elif op == 'subc':
            r, v = ring.add(m, ring.const(-c)), p - c
        elif op == 'csub':
            r, v = ring.add(ring.const(c), m, -1), c - p
        elif op == 'mulc':
            r, v = ring.mul(m, ring.const(c)), p * c
        elif op == 'cmul':
            r, v = ring.mul(m, ring.const(c)), c * p
        elif op == 'neg':
            r, v = ring.mul(m, ring.const(-1)), -p
        elif op == 'pow':
            e = rng.randrange(0, 9 if len(m) < 3 and rng.random() < .3 else 4)
            r, v = ring.power(m, e), p ** e
        elif op == 'xor':
            r, v = ring.add(ring.add(m, n), ring.mul(ring.var(0), ring.mul(m, n))), p ^ q
        else:
            e = -rng.randrange(1, 4)
            v = p ** e
            if len(m) == 1 and abs(list(m.values())[0]) == 1:
                (k, c), = m.items()
                r = {tuple((i, a * e) for i, a in k): c ** (-e)}
                r = {ring.key(dict(list(r)[0])): list(r.values())[0]}
            else:
                ctx.check(v is None, 'a negative power of a polynomial without an inverse', p=p, e=e)
                continue
        log.append(op)
        ctx.equal(ring.of(v), r, 'result of %r' % op, operands=(m, n), c=c)
        ctx.check(type(v) is P, 'result of %r is not a polynomial' % op, got=type(v))
        ctx.ev('op', (op, tuple(sorted(r.items()))), trivial=len(r) < 2)
        stack.append((r, v))
    for m, p in stack:
        ctx.equal(ring.of(p), m, 'a polynomial changed while others were computed from it', log=log)
        ctx.ev('kept', tuple(sorted(m.items())), trivial=len(m) < 2)
    for m, p in rng.sample(stack, min(6, len(stack))):
        for n, q in rng.sample(stack, min(6, len(stack))):
            ctx.check((p == q) == (m == n) and (p != q) == (m != n), 'equality of polynomials', p=p, q=q)


def part(ctx, salt):
    from polynomials import Polynomial as P
    rng = random.Random(salt)
    m = ring.random_model(rng, terms=6)
    p = ring.build(rng, m)
    i = rng.choice(ring.VARS)
    laurent = ring.random_model(rng, terms=6, low=-2)
    if laurent and rng.random() < .3:
        laurent = {k: c for k, c in laurent.items() if ring.degree(k) <= 0 or rng.random() < .1}
    lp = ring.build(rng, laurent)
    for e in range(-3, 4):
        want = {ring.key({j: a for j, a in k if j != i}): c for k, c in laurent.items() if dict(k).get(i, 0) == e}
        ctx.equal(ring.of(lp.coefficient(i, e)), want, 'coefficient of power %d of variable %d' % (e, i), m=laurent)
        ctx.equal(ring.of(lp.truncate(e)), {k: c for k, c in laurent.items() if ring.degree(k) <= e}, 'truncation at degree %d' % e, m=laurent)
    if laurent:
        ctx.equal(lp.total_degree(), max(ring.degree(k) for k in laurent), 'total degree', m=laurent)
    ctx.ev('part', ('laurent', tuple(sorted(laurent.items()))), trivial=len(laurent) < 2)
    for e in range(0, 4):
        want = {ring.key({j: a for j, a in k if j != i}): c for k, c in m.items() if dict(k).get(i, 0) == e}
        ctx.equal(ring.of(p.coefficient(i, e)), want, 'coefficient of power %d of variable %d' % (e, i), m=m)
    d = rng.randrange(0, 5)
    ctx.equal(ring.of(p.truncate(d)), {k: c for k, c in m.items() if ring.degree(k) <= d}, 'truncation at degree %d' % d, m=m)
    if m:
        ctx.equal(p.total_degree(), max(ring.degree(k) for k in m), 'total degree', m=m)
    ctx.equal((p.is_zero(), bool(p), p.nnz()), (not m, bool(m), len(m)), 'zero test and number of terms', m=m)
    ctx.equal(p.constant_term(), m.get((), 0), 'constant term', m=m)
    ctx.equal(p.is_integer(), all(k == () for k in m), 'integer test', m=m)
    for k, c in m.items():
        ctx.equal(p[dict(k)], c, 'coefficient read by its monomial', m=m, k=k)
    ctx.equal(p[{99: 1}], 0, 'coefficient of an absent monomial')
    c = rng.choice((2, 3, 5, 7))
    ctx.equal(ring.of(p % c), ring.norm({k: a % c for k, a in m.items()}), 'remainder modulo %d' % c, m=m)
    ctx.equal(ring.of(p // c), ring.norm({k: a // c for k, a in m.items()}), 'floor quotient by %d' % c, m=m)
    ctx.equal(ring.of((p * c) / c), m, 'exact quotient by %d' % c, m=m)
    if rng.random() < .3:
        ctx.equal(ring.of(p % -c), ring.norm({k: a % -c for k, a in m.items()}), 'remainder modulo %d' % -c, m=m)
        ctx.equal(ring.of(p // -c), ring.norm({k: a // -c for k, a in m.items()}), 'floor quotient by %d' % -c, m=m)
        ctx.equal(ring.of((p * c) / -c), ring.norm({k: -a for k, a in m.items()}), 'exact quotient by %d' % -c, m=m)
    if any(a % c for a in m.values()):
        try:
            got = p / c
        except AssertionError:
            got = None
        ctx.check(got is None, 'an inexact division was not refused', m=m, c=c)
    g = ring.random_model(rng, terms=2, deg=2)
    want = ring.substitute(m, i, g)
    ctx.equal(ring.of(p.substitute(i, ring.build(rng, g))), want, 'substitution for variable %d' % i, m=m, g=g)
    v = rng.choice((0, 1, -1, 3))
    ctx.equal(ring.of(p.substitute(i, v)), ring.substitute(m, i, ring.const(v)), 'substitution of %d for variable %d' % (v, i), m=m)
    g2, j = ring.random_model(rng, terms=2, deg=1), rng.choice([x for x in ring.VARS if x != i])
    spare = 50
    want = ring.substitute(ring.substitute(ring.substitute(m, i, ring.var(spare)), j, g2), spare, g)
    ctx.equal(ring.of(p({i: ring.build(rng, g), j: ring.build(rng, g2)})), want, 'evaluation at two variables', m=m, g=g, g2=g2)
    ints = {x: rng.choice((0, 1, -2, 5)) for x in ring.VARS}
    total = 0
    for k, a in m.items():
        for x, e in k:
            a *= ints[x] ** e
        total += a
    ctx.equal(ring.of(p(ints)), ring.const(total), 'evaluation at integers', m=m, at=ints)
    c = ring.random_model(rng, terms=2, deg=1, variables=tuple(x for x in ring.VARS if x != i))
    lin = ring.add(ring.var(i), c)
    q = ring.build(rng, ring.mul(m, lin))
    ctx.equal(ring.of(q.divide_linear(i, ring.build(rng, c))), m, 'exact division by a linear factor', m=m, c=c, i=i)
    ctx.equal(ring.of(p), m, 'the polynomial changed')
    ctx.ev('part', tuple(sorted(m.items())), trivial=len(m) < 2)


KINDS = {'program': program, 'part': part}
