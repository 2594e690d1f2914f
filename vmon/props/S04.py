import random
from vmon import ref, view, families as F

TITLE = 'Degree bounds truncate, whatever was computed before'
RULE = ('bound: for interleaved degree bounds (none, negative, below, at and above the range of degrees) every '
        'coefficient equals the independent definition cut at the bound; perm: the permutation-indexed functions under '
        'bounds equal the truncation of their own unbounded value. Non-trivial = non-zero truncation.')
REQUIRED = {'bound': 400, 'perm': 60}
ROUNDS = (16, 40)
BAR = {'G': 'stable_grothendieck_doublebar', 'GS': 'stable_grothendieck_s_doublebar',
       'GP': 'stable_grothendieck_p_doublebar', 'GQ': 'stable_grothendieck_q_doublebar'}
PERM = {'G': ('stable_grothendieck', 'all'), 'GP': ('symplectic_stable_grothendieck', 'fpf'),
        'GS': ('signed_involution_stable_grothendieck', 'inv'), 'GI': ('involution_stable_grothendieck', 'inv')}


def oneline(kind, n):
    import itertools
    for w in itertools.permutations(range(1, n + 1)):
        if kind != 'all' and any(w[w[i] - 1] != i + 1 for i in range(n)):
            continue
        if kind == 'fpf' and any(w[i] == i + 1 for i in range(n)):
            continue
        yield w


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 4)
    steps = []
    for fam in BAR:
        strict = fam in F.STRICT
        shapes = F.shapes(fam, 7 if strict else 5)
        for lam in rng.sample(shapes, min(len(shapes), 60 if deep else 14)):
            mu = rng.choice(sorted(ref.subpartitions(lam, strict)) + [()])
            n = rng.choice((1, 2, 3))
            size = sum(lam) - sum(mu)
            bounds = [None, -1] + list(range(0, size + 6))
            rng.shuffle(bounds)
            steps.append(('bound', fam, n, lam, mu, tuple(bounds), rng.random() < 0.4))
        for _ in range(20 if deep else 4):
            n, lam, mu = F.large(rng, fam)
            size = sum(lam) - sum(mu)
            steps.append(('cut', fam, min(n, 5), lam, mu, tuple(rng.sample([None, size - 1, size, size + 1, size + 2, size + 4, size + 7, 3 * size + 9], 4)), rng.random() < .4))
    for fam, (name, kind) in PERM.items():
        pool = [w for k in ((2, 4) if kind == 'fpf' else (1, 2, 3, 4)) for w in oneline(kind, k)]
        if deep and kind != 'all':
            pool += list(oneline(kind, 6 if kind == 'fpf' else 5))
        for w in rng.sample(pool, min(len(pool), 60 if deep else 16)):
            n = 1 if kind == 'inv' and len(w) > 3 else rng.choice((1, 2))
            bounds = [None] + rng.sample(range(0, 9), 4)
            rng.shuffle(bounds)
            steps.append(('perm', fam, n, w, tuple(bounds)))
    rng.shuffle(steps)
    return F.split(steps, 64 if deep else 40)


def bound(ctx, fam, n, lam, mu, bounds, double):
    from symmetric import SymmetricPolynomial
    full = F.exact(fam, n, lam, mu)
    f = F.method(fam)
    if double:
        from vmon.props.S03 import corner_subsets
        f = getattr(SymmetricPolynomial, BAR[fam])
        full = {}
        for nu, k in corner_subsets(mu, fam in F.STRICT):
            for al, d in F.exact(fam, n, lam, nu).items():
                t = full.setdefault(al, {})
                for e, c in d.items():
                    t[e + k] = t.get(e + k, 0) + c
    for b in bounds:
        want = {al: d for al, d in full.items() if b is None or sum(al) <= b}
        got = view.sym(f(n, lam, mu, b) if b is not None else f(n, lam, mu))
        ctx.equal(got, want, '%s of %r/%r in %d variables with degree bound %r (doublebar: %r)' % (fam, lam, mu, n, b, double))
        ctx.ev('bound', (fam, n, lam, mu, b, double), trivial=not want)


def cut(ctx, fam, n, lam, mu, bounds, double):
    """Larger shapes: the unbounded polynomial (decided elsewhere at points) without its terms beyond the bound."""
    from symmetric import SymmetricPolynomial
    f = getattr(SymmetricPolynomial, BAR[fam]) if double else F.method(fam)
    got = {b: view.sym(f(n, lam, mu, b) if b is not None else f(n, lam, mu)) for b in bounds}
    full = view.sym(f(n, lam, mu))
    for b in bounds:
        want = {al: d for al, d in full.items() if b is None or sum(al) <= b}
        ctx.equal(got[b], want, '%s of %r/%r in %d variables with degree bound %r (doublebar: %r)' % (fam, lam, mu, n, b, double))
        ctx.ev('bound', (fam, n, lam, mu, b, double), trivial=not want)


def perm(ctx, fam, n, w, bounds):
    from permutations import Permutation
    f = getattr(Permutation(*w), PERM[fam][0])
    seen = {}
    for b in bounds:
        seen[b] = view.sym(f(n, b) if b is not None else f(n))
    full = seen[None]
    for b in bounds:
        if b is not None:
            want = {al: d for al, d in full.items() if sum(al) <= b}
            ctx.equal(seen[b], want, '%s of %r in %d variables with degree bound %r is not the truncation' % (
                PERM[fam][0], w, n, b), asked=bounds)
        ctx.ev('perm', (fam, n, w, b), trivial=not seen[b])


KINDS = {'cut': cut, 'bound': bound, 'perm': perm}
