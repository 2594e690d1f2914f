import random
from vmon import ref, view, families as F

TITLE = 'Dual polynomials g, gp, gq and gs equal their definitions'
RULE = ('exact: every coefficient against an independent count of (marked) reverse plane partitions, all straight '
        'and sampled skew shapes, 0..n variables; value: larger straight shapes of g against a ratio of determinants; '
        'slow: enumerating implementations; refined: the parts with given diagonal entries. Non-trivial = the expected polynomial is not zero.')
REQUIRED = {'refined': 20, 'exact': 600, 'value': 30, 'slow': 20}
FAMS = ['g', 'gp', 'gq', 'gs']


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 5)
    steps = []
    for fam in FAMS:
        strict = fam in F.STRICT
        size = (9 if strict else 7) if deep else (8 if strict else 5)
        if fam == 'gs':
            size -= 1
        for lam in F.shapes(fam, size):
            for n in (0, 1, 2, 3):
                steps.append(('exact', fam, n, lam, ()))
        for lam in F.shapes(fam, size - 2):
            steps.append(('exact', fam, 4, lam, ()))
        pairs = [(lam, mu) for lam in F.shapes(fam, size) for mu in F.shapes(fam, size) if mu
                 and (ref.contains(lam, mu) or rng.random() < 0.05)]
        k = 600 if deep else 160
        if len(pairs) > k:
            pairs = rng.sample(pairs, k)
        for lam, mu in pairs:
            steps.append(('exact', fam, rng.choice((1, 2, 3)), lam, mu))
        for _ in range(60 if deep else 16):
            steps.append(('exact', fam, rng.choice((1, 2))) + F.thin(rng, strict, 5, 4 if fam == 'g' else 3, 6))
            steps.append(('exact', fam) + F.extreme(rng, strict))
            steps += [('chain', fam) + F.large(rng, fam) for _ in range(2)]
        if fam == 'g':
            big = [lam for lam in F.shapes(fam, 11) if sum(lam) > 5]
            for lam in rng.sample(big, min(len(big), 150 if deep else 60)):
                if len(lam) <= 4:
                    steps.append(('value', fam, 4, lam, ()))
        if fam != 'gs':
            small = [(lam, mu) for lam in F.shapes(fam, 4) for mu in F.shapes(fam, 4)]
            for lam, mu in rng.sample(small, min(len(small), 40 if deep else 12)):
                steps.append(('slow', fam, 2, lam, mu))
    steps += [('refined', fam, n, lam) for fam in ('gp', 'gq') for lam in F.shapes(fam, 6 if deep else 5) for n in (1, 2, 3) if n < 3 or sum(lam) < 5]
    steps += [('refined', fam, n, lam) for fam in ('gp', 'gq') for n, lam in ((1, (4, 3, 2, 1)), (2, (4, 3, 2, 1)), (1, (5, 4, 3, 2, 1)))
              if deep or rng.random() < .4]
    rng.shuffle(steps)
    return F.split(steps, 64 if deep else 40)


def slow(ctx, fam, n, lam, mu):
    from symmetric import SymmetricPolynomial
    fn = getattr(SymmetricPolynomial, '_slow_' + F.FAM[fam][0])
    F.observe_exact(ctx, fam, n, lam, mu, fn=fn)
    ctx.ev('slow', (fam, n, lam, mu))


def refined(ctx, fam, n, lam):
    """The refinement by diagonal entries: its parts add up, and each counts its own fillings."""
    from symmetric import SymmetricPolynomial
    got = getattr(SymmetricPolynomial, '_slow_refined_' + F.FAM[fam][0])(n, lam)
    want = {}
    boxes = ref.cells(lam, (), True)
    for cells in marked_rpps(boxes, n, fam == 'gq'):
        diag = tuple(abs(cells[(i, i)]) for i in range(1, len(lam) + 1))
        w = [0] * n
        for (i, j), a in cells.items():
            # a primed letter counts once per row, an unprimed one once per column
            if a < 0 and cells.get((i, j - 1)) != a or a > 0 and cells.get((i - 1, j)) != a:
                w[abs(a) - 1] += 1
        if all(w[i] >= w[i + 1] for i in range(n - 1)):
            mu = tuple(a for a in w if a)
            d = want.setdefault(diag, {}).setdefault(mu, {})
            e = len(boxes) - sum(w)
            d[e] = d.get(e, 0) + (-1) ** e
    ctx.equal({k: v for k, v in ((k, view.sym(v)) for k, v in got.items()) if v}, {k: {m: {e: c for e, c in d.items() if c} for m, d in v.items()} for k, v in want.items()},
              'refined %s %r in %d variables' % (fam, lam, n))
    ctx.ev('refined', (fam, n, lam), trivial=not want)


def marked_rpps(boxes, n, both):
    letters = [a for k in range(1, n + 1) for a in (-k, k)]
    dbl = lambda a: 2 * a if a > 0 else -2 * a - 1
    cells = {}

    def place(rest):
        if not rest:
            yield dict(cells)
            return
        i, j = rest[0]
        low = max([dbl(cells[b]) for b in ((i - 1, j), (i, j - 1)) if b in cells] or [0])
        for a in letters:
            if dbl(a) >= low and not (i == j and a > 0 and not both):
                cells[(i, j)] = a
                yield from place(rest[1:])
                del cells[(i, j)]
    yield from place(sorted(boxes))


KINDS = {'refined': refined, 'exact': F.observe_exact, 'value': F.observe_value, 'chain': F.observe_chain, 'slow': slow}
