import random
from vmon import ref, shifted, families as F

TITLE = 'Strip operators add exactly the one-row and one-column strips of shifted shapes'
RULE = ('strip: every operator on every strict partition of bounded size against adding boxes to the diagram; chain: compositions of operators, '
        'which stay undefined once undefined. Non-trivial = a defined result.')
REQUIRED = {'strip': 5000, 'defined': 500, 'chain': 200}
ROUNDS = (48, 60)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 506)
    steps = [('strip', mu) for mu in ref.strict_upto(12 if not deep else 16)]
    steps += [('chain', rng.randrange(10 ** 9)) for _ in range(100)]
    return F.split(steps, 16)


def model(kind, mu, a, b):
    s = shifted.boxes(mu)
    for i in range(1, len(mu) + 2 + (b - a)):
        if kind == 'horizontal':
            new = {(i, i + d) for d in range(a, b + 1)}
        else:
            j = i + a
            new = {(j - d, j) for d in range(a, b + 1)}
        if not new & s and shifted.shape(s | new) is not None:
            return shifted.shape(s | new)
    return None


def strip(ctx, mu):
    import dualops as D
    ops = {'horizontal': D.sh_horizontal_strip, 'vertical': D.sh_vertical_strip}
    top = (mu[0] if mu else 0) + 2
    for kind in ops:
        for a in range(0, top + 1):
            for b in range(a, top + 2):
                want = model(kind, mu, a, b)
                ctx.equal(ops[kind](a, b)(mu), want, '%s strip on diagonals %d to %d' % (kind, a, b), mu=mu)
                ctx.ev('strip', (kind, a, b, mu), trivial=want is None)
                if want is not None:
                    ctx.ev('defined', (kind, a, b, mu))


def chain(ctx, salt):
    import dualops as D
    ops = {'horizontal': D.sh_horizontal_strip, 'vertical': D.sh_vertical_strip}
    rng = random.Random(salt)
    mu = rng.choice(list(ref.strict_upto(8))) if rng.random() < .7 else tuple(a for a in range(8, 0, -1) if rng.random() < .7)
    got = want = mu
    for _ in range(4):
        kind = rng.choice(list(ops))
        a = rng.randrange(0, 4 if rng.random() < .6 else 8)
        b = a + rng.choice((0, 0, 1, 2))
        got = ops[kind](a, b)(got)
        want = model(kind, want, a, b) if want is not None else None
        ctx.equal(got, want, 'composition of strip operators', start=mu)
        ctx.ev('chain', (mu, kind, a, b, want), trivial=want is None)


KINDS = {'strip': strip, 'chain': chain}
