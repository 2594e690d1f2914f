import random
from vmon import ref, ring, shifted, families as F

TITLE = 'Operators adding and removing boxes of shifted shapes act as defined, linearly'
RULE = ('single: each operator on every strict partition against moving boxes of the diagram; linear: on random vectors with polynomial '
        'coefficients; product: the generating operators against products of single ones, with default and given variables; relation: nil-Hecke '
        'relations between adding operators. Non-trivial = a result that is not zero.')
REQUIRED = {'single': 600, 'linear': 150, 'product': 150, 'relation': 100}
ROUNDS = (48, 80)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 505)
    steps = [('single', mu) for mu in ref.strict_upto(9 if not deep else 12)]
    steps += [('single', big(rng)) for _ in range(40)] + [('single', tuple(range(k, 0, -1))) for k in range(4, 8)]
    steps += [('linear', rng.randrange(10 ** 9)) for _ in range(60)]
    steps += [('product', rng.randrange(10 ** 9)) for _ in range(60)]
    steps += [('relation', rng.randrange(10 ** 9)) for _ in range(60)]
    rng.shuffle(steps)
    return F.split(steps, 8)


def big(rng):
    n = rng.choice((5, 6, 7, 8, 8, 12))
    return tuple(a for a in range(n, 0, -1) if rng.random() < .7)


def any_strict(rng, n):
    return big(rng) if rng.random() < .4 else rng.choice(list(ref.strict_upto(n)))


def add(mu, d):
    if shifted.corner(mu, d):
        return {mu: ring.var(0)}
    nu = shifted.add_diagonal(mu, d)
    return {} if nu is None else {nu: ring.const(1)}


def strip(mu, d, step):
    """Removing the corner on diagonal d and then its neighbours one by one."""
    b = shifted.corner(mu, d)
    out, s, e = {}, shifted.boxes(mu), 0
    while b is not None and b in s and shifted.shape(s - {b}) is not None:
        s = s - {b}
        out[shifted.shape(s)] = {(): (-1) ** e} if e == 0 else {((0, e),): (-1) ** e}
        b = (b[0], b[1] - 1) if step == 'row' else (b[0] - 1, b[1])
        e += 1
    return out


MODEL = {'add': add, 'row': lambda mu, d: strip(mu, d, 'row'), 'column': lambda mu, d: strip(mu, d, 'column')}


def linear_map(f, v):
    out = {}
    for mu, c in v.items():
        for nu, e in f(mu).items():
            out[nu] = ring.add(out.get(nu, {}), ring.mul(c, e))
    return {k: c for k, c in out.items() if c}


def lib(kind, d):
    import operators as O
    return {'add': O.operator_shifted_add, 'row': O.operator_shifted_row_remove, 'column': O.operator_shifted_column_remove}[kind](d)


def read(v):
    return {tuple(k): c for k, c in ((k, ring.of(c)) for k, c in v.items()) if c}


def single(ctx, mu):
    from vectors import Vector
    for kind in MODEL:
        for d in range(0, (mu[0] if mu else 0) + 2):
            want = MODEL[kind](mu, d)
            for arg in (mu, Vector({mu: 1})):
                ctx.equal(read(lib(kind, d)(arg)), want, 'operator %s on diagonal %d' % (kind, d), mu=mu)
            ctx.equal(read(lib(kind, -d)(mu)), want, 'operator %s on diagonal -%d' % (kind, d), mu=mu)
            ctx.ev('single', (kind, d, mu), trivial=not want)


def random_vector(rng):
    from vectors import Vector
    m = {}
    for _ in range(rng.randrange(1, 4)):
        c = ring.random_model(rng, 2)
        if c:
            m[any_strict(rng, 6)] = c
    return m, Vector({k: ring.build(rng, c) for k, c in m.items()})


def linear(ctx, salt):
    rng = random.Random(salt)
    m, v = random_vector(rng)
    for kind in MODEL:
        d = rng.randrange(0, 7)
        op = lib(kind, d)
        want = linear_map(lambda mu: MODEL[kind](mu, d), m)
        w = op(v)
        ctx.equal(read(w), want, 'operator %s on diagonal %d of a vector' % (kind, d), v=v)
        ctx.equal(read(v), m, 'the operator changed its argument')
        e = rng.randrange(0, 7)
        other = rng.choice(list(MODEL))
        ctx.equal(read(lib(other, e)(w)), linear_map(lambda mu: MODEL[other](mu, e), want), 'operator %s after %s' % (other, kind), v=v)
        ctx.equal(read(op(v)), want, 'operator %s used again' % kind)
        ctx.ev('linear', (kind, d, tuple(sorted(m))), trivial=not want)


def product(ctx, salt):
    import operators as O
    from polynomials import Polynomial as P
    rng = random.Random(salt)
    n = rng.randrange(0, 7)
    m, v = random_vector(rng)
    if rng.random() < .5:
        mu = any_strict(rng, 7)
        m, v = {mu: ring.const(1)}, mu
    if rng.random() < .4:  # many diagonals, few shapes on the way
        n = rng.randrange(7, 14)
        mu = tuple(sorted(rng.sample(range(1, n + 2), rng.randrange(0, 4)), reverse=True))
        m, v = {mu: ring.const(1)}, mu
    for name, kind, order, default in (('operator_AL', 'add', range(n + 1), P.MIN_INT), ('operator_AR', 'add', range(n, -1, -1), P.MIN_INT),
                                       ('operator_R', 'row', range(n + 1), P.MAX_INT), ('operator_C', 'column', range(n, 0, -1), P.MAX_INT)):
        z = rng.choice((None, ring.var(3), ring.add(ring.var(1), ring.var(0)), ring.const(2)))
        var = ring.var(default) if z is None else z
        want = dict(m)
        for i in order:
            step = linear_map(lambda mu: MODEL[kind](mu, i), want)
            for k, c in step.items():
                want[k] = ring.add(want.get(k, {}), ring.mul(c, var))
        want = {k: c for k, c in want.items() if c}
        op = getattr(O, name)(n) if z is None else getattr(O, name)(n, ring.build(rng, z) if any(z) else z[()])
        ctx.equal(read(op(v)), want, '%s(%d)' % (name, n), v=v, var=var)
        ctx.ev('product', (name, n, tuple(sorted(m))), trivial=want == m)
    if not isinstance(v, tuple):
        ctx.equal(read(v), m, 'the operator changed its argument')


def relation(ctx, salt):
    from polynomials import beta
    rng = random.Random(salt)
    top = rng.choice((8, 8, 13))
    i, j = rng.randrange(0, top), rng.randrange(0, top)
    u = {d: lib('add', d) for d in (i, j, i + 1)}
    for mu in rng.sample(list(ref.strict_upto(9)), 6) + [big(rng) for _ in range(4)]:
        if abs(i - j) > 1:
            ctx.equal(read(u[i](u[j](mu))), read(u[j](u[i](mu))), 'adding on distant diagonals commutes', mu=mu, i=i, j=j)
        ctx.equal(read(u[i](u[i](mu))), read(beta * u[i](mu)), 'adding twice on one diagonal', mu=mu, i=i)
        if i > 0:
            ctx.equal(read(u[i](u[i + 1](u[i](mu)))), read(u[i + 1](u[i](u[i + 1](mu)))), 'braid relation', mu=mu, i=i)
        ctx.ev('relation', (i, j, mu), trivial=not u[i](mu))


KINDS = {'single': single, 'linear': linear, 'product': product, 'relation': relation}
