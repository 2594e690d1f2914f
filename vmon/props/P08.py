import random
from vmon import ref, perm, families as F
from vmon.props.P07 import covers

TITLE = 'Bruhat covers and transitions are exactly the covers of each order'
RULE = ('down: the covers below every small permutation, involution and fixed-point-free involution against Bruhat order computed from '
        'transpositions; up: the transition indices against covers found through atoms or conjugation. Non-trivial = at least one cover.')
REQUIRED = {'down': 250, 'up': 500}
ROUNDS = (24, 40)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 79)
    steps = []
    for n in (1, 2, 3, 4) + ((5,) if deep else ()):
        steps += [('down', 'ordinary', w) for w in perm.everything(n)]
    steps += [('down', 'signed', perm.random_perm(rng, rng.randrange(1, 5), True)) for _ in range(30)]
    for n in (1, 2, 3, 4, 5) + ((6,) if deep else ()):
        z = perm.involutions(n)
        steps += [('down', 'involution', w) for w in (z if n < 6 else rng.sample(z, 6))]
        steps += [('up', 'involution', w) for w in z if n < 5 or (n == 5 and (deep or rng.random() < 0.4))]
    for n in (2, 4, 6) + ((8,) if deep else ()):
        z = perm.fpf(n)
        steps += [('down', 'fpf', w) for w in (z if n < 8 else rng.sample(z, 3))]
        steps += [('up', 'fpf', w) for w in z if n < 8]
    steps += [('up', 'ordinary', w) for w in perm.everything(3)]
    steps += [('down', 'ordinary', perm.random_perm(rng, rng.randrange(5, 9), False)) for _ in range(40)]
    steps += [('down', 'signed', perm.random_perm(rng, rng.randrange(4, 7), True)) for _ in range(20)]
    for n in (1, 2) + ((3,) if deep or rng.random() < .3 else ()):
        steps += [('down', 'signed_involution', z) for z in perm.involutions(n, True)]
    steps += [('down', 'involution', z) for z in rng.sample(perm.involutions(6), 12)]
    steps += [('up', 'involution', z) for z in rng.sample(perm.involutions(6), 25)]
    steps += [('down', 'fpf_large', perm.random_involution(rng, rng.choice([8, 8, 10]), False, False)) for _ in range(40)]
    steps += [('up', 'fpf', perm.random_involution(rng, rng.choice([8, 10]), False, False)) for _ in range(15)]
    far = [perm.random_involution(rng, rng.choice([8, 9, 10, 11])) for _ in range(6)] + [perm.sparse_involution(rng, rng.randint(8, 11), rng.randint(1, 4)) for _ in range(6)]
    steps += [('up', 'involution', z) for z in far if len(perm.atoms_of(z, 'inv')) <= 150]
    rng.shuffle(steps)
    return F.split(steps, 16)


def inv_length(z):
    pairs = sum(1 for i, a in enumerate(z) if a > i + 1) + sum(1 for i, a in enumerate(z) if -a > i + 1) + sum(1 for i, a in enumerate(z) if -a == i + 1)
    return (perm.length(z) + pairs) // 2


def down(ctx, kind, w):
    from permutations import Permutation as P
    n = len(w)
    p = P(*w)
    if kind in ('ordinary', 'signed'):
        got = [perm.of(v, n) for v in p.bruhat_covers()]
        ctx.equal(len(got), len(set(got)), 'repeated Bruhat cover', w=w)
        want = set()
        for i in range(1, n + 1):
            for j in range(i, n + 1):
                refl = [] if i == j else [perm.transposition(i, j, n)]
                if kind == 'signed':
                    r = list(range(1, n + 1))
                    r[i - 1], r[j - 1] = -j, -i
                    refl.append(tuple(r))
                want |= {perm.mul(w, t) for t in refl}
        want = {v for v in want if perm.length(v) == perm.length(w) - 1}
        ctx.equal(set(got), want, 'Bruhat covers', w=w)
    else:
        below = perm.bruhat_below(w) if kind != 'fpf_large' else None
        if kind in ('involution', 'signed_involution'):
            got = [perm.of(v, n) for v in p.involution_bruhat_covers()]
            want = {v for v in below if perm.is_involution(v) and inv_length(v) == inv_length(w) - 1}
        else:
            got = []
            for v in p.fpf_involution_bruhat_covers():
                v = tuple(v.oneline)
                while len(v) < n:
                    v += (len(v) + 2, len(v) + 1)
                got.append(v)
            if below is None:
                want = {perm.mul(t, perm.mul(w, t)) for t in (perm.transposition(i, j, n) for i in range(1, n) for j in range(i + 1, n + 1))}
            else:
                want = {v for v in below if perm.is_involution(v) and all(a != i + 1 for i, a in enumerate(v))}
            want = {v for v in want if perm.length(v) == perm.length(w) - 2}
        ctx.equal(set(got), want, 'covers of %s Bruhat order' % kind, w=w)
    ctx.ev('down', (kind, w), trivial=not got)


def up(ctx, kind, y):
    from permutations import Permutation as P
    n = len(y)
    p = P(*y)
    if kind == 'fpf':
        top, big = n + 2, y + (n + 2, n + 1)
    else:
        top, big = n + 1, y + (n + 1,)
    f = {'ordinary': (p.upper_transitions, p.lower_transitions),
         'involution': (p.upper_involution_transitions, p.lower_involution_transitions),
         'fpf': (p.upper_fpf_involution_transitions, p.lower_fpf_involution_transitions)}[kind]
    for r in range(1, n + 1):
        upper = [j for j in range(r + 1, top + 1) if covers(kind, big, r, j)]
        lower = [i for i in range(1, r) if covers(kind, big, i, r)]
        got_up, got_low = list(f[0](r)), list(f[1](r))
        if kind == 'ordinary':
            if got_up != upper or got_low != lower:
                ctx.check(got_up == [] and got_low == [], 'transitions of a permutation', y=y, r=r, got=(got_up, got_low), want=(upper, lower))
                ctx.finding('transitions-empty', 'the transitions of a permutation are always empty', y=y, r=r)
        elif kind == 'involution':
            ctx.equal(got_up, upper, 'upper transitions of an involution', y=y, r=r)
            ctx.equal(got_low, lower, 'lower transitions of an involution', y=y, r=r)
            for i in range(1, r):
                if i in lower:
                    ctx.equal({perm.of(p.tau(i, r), n)}, {v[:n] for v in covers(kind, big, i, r)}, 'the involution tau', y=y, i=i, r=r)
        else:
            # positions beyond the presentation of the library are padded with two-cycles
            ctx.equal([j for j in got_up if j <= p.rank + 2], [j for j in upper if j <= p.rank + 2], 'upper transitions', y=y, r=r)
            ctx.equal(got_low, lower, 'lower transitions', y=y, r=r)
        ctx.ev('up', (kind, y, r), trivial=not (upper or lower))


KINDS = {'down': down, 'up': up}
