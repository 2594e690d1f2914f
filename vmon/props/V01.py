import itertools
import random
from collections import Counter
from vmon import ref, view, ins, families as F

TITLE = 'The transition of valued-set tableaux is a weight-swapping involution'
RULE = ('all: the valued-set tableaux of a (skew) shifted shape against a direct listing and against the generating function of shifted bar '
        'tableaux, then every transition: stays inside, swaps two weights, is an involution, keeps the other letters and the number '
        'of primes on the diagonal, and its three stages are bijections onto the intermediate objects; intermediate: random tableaux and the predicate. '
        'Non-trivial = a tableau that uses one of the two letters.')
REQUIRED = {'list': 60, 'transition': 3000, 'stage': 1500,  'intermediate': 3000, 'shift': 2000, 'long': 500, 'predicate': 3000}
ROUNDS = (9, 12)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 401)
    steps = []
    for mu in ref.strict_upto(7 if not deep else 8):
        for nu in ref.subpartitions(mu, strict=True):
            size = sum(mu) - sum(nu)
            if rng.random() < (.8 if not deep else 1):
                steps.append(('all', mu, nu, 2, rng.random() < .7))
            if size <= 4 and rng.random() < (.2 if not deep else .6):
                steps.append(('all', mu, nu, 3, rng.random() < .6))
            if size <= 2 and rng.random() < .1:
                steps.append(('all', mu, nu, 4, rng.random() < .6))
    for mu, nu in (((3, 2, 1), (1,)), ((4, 2, 1), (1,)), ((5, 2, 1), (1,)), ((4, 3, 1), (1,)), ((4, 3, 2), (2,)), ((4, 3, 2, 1), (2, 1)), ((4, 3, 2, 1), (3, 1)), ((5, 3, 2, 1), (3, 1))):
        steps.append(('all', mu, nu, 2, True))  # shapes in which every case of the middle stage occurs
    k = rng.randrange(8, 11)
    steps += [('all', (k,), (), 1, True), ('all', tuple(range(k, 0, -1)), tuple(range(k - 1, 0, -1)), 1, True), ('all', (k + 2, 1), (3,), 1, False)]
    for mu in ref.strict_upto(9 if deep else 8):
        if sum(mu) >= 8 and rng.random() < .3:
            steps.append(('all', mu, (), 2, rng.random() < .5))
    steps += [(kind, rng.randrange(10 ** 9)) for _ in range(150) for kind in ('intermediate', 'shift')]
    for mu in ref.strict_upto(7):
        for nu in ref.subpartitions(mu, strict=True):
            if sum(mu) - sum(nu) <= 3 and rng.random() < (.4 if not deep else .8) or sum(mu) - sum(nu) == 4 and rng.random() < (.12 if not deep else .3):
                steps.append(('predicate', mu, nu))
    rng.shuffle(steps)
    return F.split(steps, 16)


def plain(v):
    return frozenset((i, j, x[0], v.grouping.get(i, j)) for i, j, x in v.tableau)


def groupings(fill):
    """Every way to join equal neighbours: unprimed letters to the right, primed ones upwards."""
    d = {b: v[0] for b, v in fill}
    can = [b for b, a in d.items() if d.get((b[0], b[1] + 1) if a > 0 else (b[0] - 1, b[1])) == a]
    for r in range(len(can) + 1):
        for joined in itertools.combinations(can, r):
            yield frozenset((i, j, a, int((i, j) in joined)) for (i, j), a in d.items())


def weight(t, n):
    c = Counter(abs(a) for _, _, a, g in t if not g)
    return tuple(c[k] for k in range(1, n + 1))


def diagonal_primes(t):
    return sum(1 for i, j, a, _ in t if i == j and a < 0)


_lib = {}


def listing(ctx, mu, nu, n, dp):
    from vst import ValuedSetTableau as V
    want = {t for f in ref.fillings(ref.cells(mu, nu, True), n, marked=True, diagonal_primes=dp) for t in groupings(f)}
    lib = V.all(n, mu, nu, dp)
    got = {plain(v): v for v in lib}
    ctx.equal(len(got), len(lib), 'a valued-set tableau listed twice', mu=mu, nu=nu)
    ctx.equal(set(got), want, 'valued-set tableaux', mu=mu, nu=nu, n=n, diagonal_primes=dp)
    gf = ref.tableau_gf(ref.cells(mu, nu, True), n, bar=True, marked=True, diagonal_primes=dp)
    ctx.equal(Counter(v.weight(n) for v in lib), Counter({k: c for k, c in gf.items() if c}), 'weights of valued-set tableaux', mu=mu, nu=nu, n=n)
    if dp:
        ctx.equal({plain(v) for v in V.all(n, mu, nu)}, want, 'valued-set tableaux by default', mu=mu, nu=nu, n=n)
    ctx.ev('list', (mu, nu, n, dp), trivial=len(got) < 2)
    return got


def every(ctx, mu, nu, n, dp):
    from vst import ValuedSetTableau as V
    got = listing(ctx, mu, nu, n, dp)
    inter = {plain(v): v for v in V.all_interstandard(mu, nu)} if n == 2 and dp else None
    for i in range(1, n):
        forward = {}
        for t, v in got.items():
            image = v.transition(i)
            u = plain(image)
            where = dict(tableau=sorted(t), i=i, image=sorted(u))
            ctx.check(u in got, 'the transition leaves the valued-set tableaux', **where)
            w = list(weight(t, n))
            w[i - 1], w[i] = w[i], w[i - 1]
            ctx.equal(weight(u, n), tuple(w), 'weight after a transition', **where)
            ctx.equal(plain(image.transition(i)), t, 'a transition applied twice', **where)
            ctx.equal(diagonal_primes(u), diagonal_primes(t), 'primes on the diagonal after a transition', **where)
            ctx.equal(v.diagonal_primes(), diagonal_primes(t), 'number of primes on the diagonal', **where)
            ctx.equal({b for b in t if abs(b[2]) not in (i, i + 1)}, {b for b in u if abs(b[2]) not in (i, i + 1)},
                      'a transition moves another letter', **where)
            ctx.equal(plain(v), t, 'a transition changes its argument')
            ctx.check(image == got[u] and hash(image) == hash(got[u]) and v.transition(i) == image, 'equality of valued-set tableaux', **where)
            f = v.forward_transition(i)
            m, case = f.middle_transition(i)
            b = m.backward_transition(i)
            ctx.equal(plain(b), u, 'a transition is the product of its stages', **where)
            ctx.equal(plain(f.backward_transition(i)), t, 'undoing the first stage', **where)
            ctx.equal(plain(m.middle_transition(i)[0]), plain(f), 'the middle stage applied twice', **where)
            ctx.check(v.is_semistandard(), 'semistandard predicate', **where)
            if n == 2:
                ctx.check(f.is_interstandard() and m.is_interstandard(), 'an intermediate tableau is not of the intermediate kind', **where)
            forward[plain(f)] = t
            if case:
                ctx.ev('case %s' % case, (i, t))
            ctx.ev('transition', (i, t), trivial=not any(w[i - 1:i + 1]))
        ctx.equal(len(forward), len(got), 'the first stage is not injective', mu=mu, nu=nu, i=i)
        if inter is not None:
            ctx.equal(set(forward), set(inter), 'the intermediate tableaux are not the images of the first stage', mu=mu, nu=nu)
            for t, v in inter.items():
                ctx.equal(plain(v.backward_transition(1).forward_transition(1)), t, 'undoing the last stage', tableau=sorted(t))
                ctx.equal(plain(v.middle_transition(1)[0].middle_transition(1)[0]), t, 'the middle stage applied twice', tableau=sorted(t))
                ctx.ev('stage', t)


def moved(t, letters=0, boxes=0):
    return frozenset((i + boxes, j + boxes, a + letters * (1 if a > 0 else -1), g) for i, j, a, g in t)


def build(t):
    from vst import ValuedSetTableau as V
    return V({(i, j): a for i, j, a, _ in t}, {(i, j): g for i, j, _, g in t})


def long_filling(rng):
    """Two letters on a wide skew shape, removed from the outside strip by strip."""
    lam = sorted(rng.sample(range(1, 16), rng.choice((1, 2, 2, 3, 3, 4))), reverse=True)
    if rng.random() < .5:  # rows of nearly equal length
        lam = [rng.randrange(7, 15)]
        while len(lam) < 4 and lam[-1] > 2 and rng.random() < .8:
            lam.append(lam[-1] - rng.choice((1, 1, 2)))
    share = .5
    if rng.random() < .35:  # tall columns
        lam, share = [rng.randrange(6, 14)], rng.choice((.5, .8, .95))
        while len(lam) < 9 and lam[-1] > 1 and rng.random() < .95:
            lam.append(lam[-1] - rng.choice((1, 1, 1, 1, 2) if lam[-1] > 2 else (1,)))
    d = {}
    for a in (2, -2, 1, -1):
        new = list(lam)
        if a > 0:
            for i, x in enumerate(lam):
                low = lam[i + 1] + 1 if i + 1 < len(lam) else 0
                new[i] = rng.choice((low, x, rng.randrange(low, x + 1)))
        else:
            for i in reversed(range(len(lam))):
                y = lam[i] - (rng.random() < share)
                if y > (new[i + 1] if i + 1 < len(lam) else -1) or y == 0 and not any(new[i + 1:]):
                    new[i] = y
        for i, (x, y) in enumerate(zip(lam, new)):
            d.update({(i + 1, i + 1 + c): a for c in range(y, x)})
        lam = new
        while lam and lam[-1] == 0:
            lam.pop()
    return d


def short_filling(rng, cells):
    for _ in range(200):
        d = {}
        for i, j in cells:
            low = max([abs(d[b]) for b in ((i - 1, j), (i, j - 1)) if b in d] + [1])
            opts = [a for k in range(low, 3) for a in (-k, k)]
            opts = [a for a in opts if (i - 1, j) not in d or ORDER[a] > ORDER[d[i - 1, j]] or d[i - 1, j] == a < 0]
            opts = [a for a in opts if (i, j - 1) not in d or ORDER[a] > ORDER[d[i, j - 1]] or d[i, j - 1] == a > 0]
            if not opts:
                break
            d[i, j] = rng.choice(opts)
        if len(d) == len(cells):
            return d


def shift(ctx, salt):
    """A transition does not depend on the names of the letters nor on where along the diagonal the shape lies."""
    rng = random.Random(salt)
    mu = rng.choice([m for m in ref.strict_upto(8) if m])
    nu = rng.choice([k for k in ref.subpartitions(mu, strict=True) if sum(mu) - sum(k) <= 7])
    cells = sorted(ref.cells(mu, nu, True))
    for _ in range(12):
        d = long_filling(rng) if rng.random() < .5 else short_filling(rng, cells)
        if d is None:
            return
        can = [b for b, a in d.items() if d.get((b[0], b[1] + 1) if a > 0 else (b[0] - 1, b[1])) == a]
        share = rng.choice((.2, .4, .7, 1))
        joined = {b for b in can if rng.random() < share}
        t = frozenset((i, j, a, int((i, j) in joined)) for (i, j), a in d.items())
        v = build(t)
        ctx.equal(v.is_semistandard(), True, 'semistandard predicate', tableau=sorted(t))
        stages = [plain(v.forward_transition(1)), plain(v.forward_transition(1).middle_transition(1)[0]), plain(v.transition(1))]
        ctx.equal(plain(build(stages[2]).transition(1)), t, 'a transition applied twice', tableau=sorted(t))
        ctx.check(build(stages[2]).is_semistandard(), 'the transition leaves the valued-set tableaux', tableau=sorted(t), image=sorted(stages[2]))
        ctx.equal((weight(stages[2], 2), {b[:2] for b in stages[2]}), (weight(t, 2)[::-1], set(d)), 'weight and shape after a transition', tableau=sorted(t))
        ctx.equal(diagonal_primes(stages[2]), diagonal_primes(t), 'primes on the diagonal after a transition', tableau=sorted(t))
        ctx.equal([plain(build(stages[0]).backward_transition(1)), plain(build(stages[1]).middle_transition(1)[0])], [t, stages[0]],
                  'undoing the stages', tableau=sorted(t))
        for _ in range(2):
            k, m = rng.choice(((rng.randrange(1, 12), 0), (0, rng.randrange(1, 9)), (rng.randrange(1, 12), rng.randrange(1, 9))))
            v = build(moved(t, k, m))
            f = v.forward_transition(1 + k)
            got = [plain(f), plain(f.middle_transition(1 + k)[0]), plain(v.transition(1 + k))]
            ctx.equal(got, [moved(x, k, m) for x in stages], 'transition after renaming the letters or moving the shape', tableau=sorted(t),
                      letters=k, boxes=m)
            if len(t) < 6 and rng.random() < .3:
                ctx.equal(v.is_semistandard(), True, 'semistandard predicate', tableau=sorted(moved(t, k, m)))
            ctx.ev('shift', (k, m, t), trivial=not t)
            if len(t) > 12:
                ctx.ev('long', (k, m, t))


ORDER = {a: 2 * abs(a) - (a < 0) for a in (1, -1, 2, -2)}
_inter = {}


def intermediate(ctx, salt):
    """The predicate against the listing of intermediate tableaux (which is checked against the images of the first stage)."""
    from vst import ValuedSetTableau as V
    rng = random.Random(salt)
    mu = rng.choice([m for m in ref.strict_upto(7) if m])
    nu = rng.choice(list(ref.subpartitions(mu, strict=True)))
    if (mu, nu) not in _inter:
        _inter[mu, nu] = {plain(v) for v in V.all_interstandard(mu, nu)}
    inside = sorted(_inter[mu, nu], key=sorted)
    cells = ref.cells(mu, nu, True)
    for _ in range(25):
        d = {b: rng.choice((1, -1, 2, -2)) for b in cells}
        joined = None
        if inside and rng.random() < .8:
            t = rng.choice(inside)
            d = {(i, j): a for i, j, a, _ in t}
            joined = {(i, j) for i, j, _, g in t if g}
            for _ in range(rng.choice((0, 1, 1, 2)) if d else 0):
                d[rng.choice(sorted(d))] = rng.choice((1, -1, 2, -2))
        can = [b for b, a in d.items() if d.get((b[0], b[1] + 1) if a > 0 else (b[0] - 1, b[1])) == a]
        joined = {b for b in can if (b in joined if joined is not None and rng.random() < .8 else rng.random() < .5)}
        v = V(d, {b: int(b in joined) for b in d})
        ctx.equal(v.is_interstandard(), plain(v) in _inter[mu, nu], 'intermediate predicate', d=d, joined=sorted(joined))
        ctx.ev('intermediate', (plain(v),), trivial=len(d) < 2)


def predicate(ctx, mu, nu):
    """The predicate on every tableau in the letters 1 and 2 with every way to join equal neighbours."""
    from vst import ValuedSetTableau as V
    cells = sorted(ref.cells(mu, nu, True))
    want = {plain(v) for v in V.all_interstandard(mu, nu)}
    for letters in itertools.product((1, -1, 2, -2), repeat=len(cells)):
        for t in groupings([(b, (a,)) for b, a in zip(cells, letters)]):
            ctx.equal(build(t).is_interstandard(), t in want, 'intermediate predicate', tableau=sorted(t))
            ctx.ev('predicate', t, trivial=len(t) < 2)


KINDS = {'all': every, 'intermediate': intermediate, 'shift': shift, 'predicate': predicate}
