import random
from vmon import ring, families as F

TITLE = 'Box operators multiply as words with the zero relations'
RULE = ('program: random programs of sums, differences, products with operators, integers, polynomials and names, next to a model of '
        'words; filter: the words kept; commutator: against the expanded product. Non-trivial = a non-zero operator.')
REQUIRED = {'op': 2000, 'filter': 100, 'commutator': 3, 'text': 300}
ROUNDS = (90, 180)


def plan(tier, seed):
    rng = random.Random(seed + 504)
    steps = [('program', rng.randrange(10 ** 9)) for _ in range(120)] + [('filter', rng.randrange(10 ** 9)) for _ in range(60)]
    steps += [('commutator', n) for n in (0, 1) + ((2,) if tier != 'quick' or rng.random() < .5 else ())]
    rng.shuffle(steps)
    return F.split(steps, 8)


def join(a, b):
    w = a[1:] + b[1:]
    if any(x == y or x == -y for x, y in zip(w, w[1:])):
        return None
    return (a[0] + b[0],) + w


def prod(m, n):
    r = {}
    for a, x in m.items():
        for b, y in n.items():
            k = join(a, b)
            if k is not None:
                r[k] = ring.add(r.get(k, {}), ring.mul(x, y))
    return {k: c for k, c in r.items() if c}


def plus(m, n, s=1):
    return {k: c for k in set(m) | set(n) for c in [ring.add(m.get(k, {}), n.get(k, {}), s)] if c}


def read(b):
    return {tuple(k): ring.of(c) for k, c in b.vector.items()}


def random_word(rng):
    w = ()
    top = 4 if rng.random() < .8 else 14
    for _ in range(rng.randrange(0, 4 if top == 4 else 7)):
        a = rng.randrange(1 - top, top)
        if not w or abs(w[-1]) != abs(a):
            w += (a,)
    return (rng.choice((0, 0, 0, 1, 2)),) + w


def fresh(rng):
    from boxes import BoxOperator as B
    m, b = {}, B()
    for _ in range(rng.randrange(0, 3)):
        k = random_word(rng)
        c = rng.choice((1, 1, -1, 2, -3))
        m = plus(m, {k: ring.const(c)})
        t = B(*k) if rng.random() < .5 else B(rng.choice((list, tuple))(k))
        b = b + t * c
    return m, b


def program(ctx, salt):
    from boxes import BoxOperator as B, r, c as cc
    rng = random.Random(salt)
    stack = [fresh(rng) for _ in range(3)]
    i = rng.randrange(0, 4 if rng.random() < .6 else 25)
    stack += [({(0, i): ring.const(1)}, r(i)), ({(0, -i): ring.const(1)}, cc(i)), ({(0,): ring.const(1)}, B(0))]
    for _ in range(14):
        (m, a), (n, b) = rng.choice(stack), rng.choice(stack)
        op = rng.choice(('add', 'sub', 'mul', 'mul', 'scale', 'lscale', 'poly', 'name', 'lname', 'shift', 'lshift', 'neg'))
        if op == 'mul' and len(m) * len(n) > 40:
            continue
        k = rng.randrange(-3, 4) if rng.random() < .8 else rng.randrange(-15, 16)
        p = ring.random_model(rng, 2)
        one = {(0,): ring.const(1)}
        if op == 'add':
            w, v = plus(m, n), a + b
        elif op == 'sub':
            w, v = plus(m, n, -1), a - b
        elif op == 'mul':
            w, v = prod(m, n), a * b
        elif op == 'scale':
            w, v = prod(m, {(0,): ring.const(k)}) if k else {}, a * k
            w = {x: ring.mul(y, ring.const(k)) for x, y in m.items()} if k else {}
        elif op == 'lscale':
            w, v = {x: ring.mul(y, ring.const(k)) for x, y in m.items()} if k else {}, k * a
        elif op == 'poly':
            w, v = {x: z for x, y in m.items() for z in [ring.mul(y, p)] if z}, a * ring.build(rng, p)
        elif op in ('name', 'lname'):
            text = rng.choice(('r%d', 'R%d')) % k if k >= 0 else rng.choice(('c%d', 'C%d')) % -k
            x = {(0, k): ring.const(1)}
            w, v = (prod(m, x), a * text) if op == 'name' else (prod(x, m), text * a)
        elif op == 'shift':
            w, v = rng.choice(((plus(m, {(0,): ring.const(k)} if k else {}), a + k), (plus(m, {(0,): ring.const(k)} if k else {}, -1), a - k)))
        elif op == 'lshift':
            w, v = rng.choice(((plus(m, {(0,): ring.const(k)} if k else {}), k + a),
                               (plus({(0,): ring.const(k)} if k else {}, m, -1), k - a)))
        else:
            w, v = {x: ring.mul(y, ring.const(-1)) for x, y in m.items()}, -a
        ctx.equal(read(v), w, 'result of %r' % op, operands=(m, n), k=k)
        ctx.ev('op', (op, tuple(sorted((x, tuple(sorted(y.items()))) for x, y in w.items()))), trivial=not w)
        if sum(map(len, w)) < 60:
            stack.append((w, v))
    for m, a in stack:
        ctx.equal(read(a), m, 'an operator changed while others were computed from it')
        ctx.equal(a == 0, not m, 'comparison with zero')
    (m, a), (n, b), (o, c) = (rng.choice(stack[:8]) for _ in range(3))
    ctx.equal(a == b, m == n, 'equality of box operators')
    ctx.check((a * b) * c == a * (b * c) and a * (b + c) == a * b + a * c and (a + b) * c == a * c + b * c, 'ring laws',
              a=a, b=b, c=c)
    k = random_word(rng)
    text = ' '.join(([] if not k[0] else ['\u03b2'] if k[0] == 1 else ['\u03b2^%d' % k[0]]) + ['r%d' % x if x >= 0 else 'c%d' % -x for x in k[1:]])
    ctx.equal(repr(B(*k)), text if text else '1', 'printed operator', k=k) if text else None
    ctx.ev('text', k, trivial=not text)


def filtering(ctx, salt):
    rng = random.Random(salt)
    m, a = fresh(rng)
    for _ in range(3):
        n, b = fresh(rng)
        m, a = plus(m, prod(m, n)), a + a * b
    top = rng.randrange(0, 6 if rng.random() < .7 else 16)

    def keep(k):
        return all(sum(1 for x in k[1:] if abs(x) == abs(i)) <= top - abs(i) + 1 for i in k[1:])
    ctx.equal(read(a.filter(top)), {k: c for k, c in m.items() if keep(k)}, 'words kept by the filter', top=top, m=m)
    ctx.equal(read(a), m, 'filtering changed its operand')
    ctx.equal(read(a.filter(top) * a), prod({k: c for k, c in m.items() if keep(k)}, m), 'products after filtering', m=m)
    ctx.ev('filter', (top, tuple(sorted(m))), trivial=not m)


def commutator(ctx, n):
    from boxes import BoxOperator as B
    sides = []
    for x in (1, -1):
        s = {(0,): ring.const(1)}
        for i in range(n, -n - 1, -1):
            s = prod(s, {(0,): ring.const(1), (0, i): ring.var(x)})
        sides.append(s)
    want = plus(prod(*sides), prod(*sides[::-1]), -1)
    want = {k: c for k, c in want.items() if all(sum(1 for x in k[1:] if abs(x) == abs(i)) <= n - abs(i) + 1 for i in k[1:])}
    ctx.equal(read(B.commutator(n)), want, 'commutator of the generating operators', n=n)
    ctx.ev('commutator', n, trivial=not want)


KINDS = {'program': program, 'filter': filtering, 'commutator': commutator}
