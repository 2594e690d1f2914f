import random
from vmon import ref, families as F

TITLE = 'Schur, P-, Q- and S-polynomials equal their definitions'
RULE = ('exact: every coefficient of the returned polynomial against an independent cell-by-cell count of the '
        'defining fillings, all (straight and skew) shapes up to a size and 0..n variables; value: larger shapes '
        'evaluated at points modulo 2^61-1 against Jacobi-Trudi determinants and symmetrisation formulas; slow: the enumerating '
        'implementations. '
        'Non-trivial = the expected polynomial is not zero.')
REQUIRED = {'slow': 60, 'exact': 1500, 'value': 150}
FAMS = ['s', 'S', 'P', 'Q']


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed)
    steps = []
    for fam in FAMS:
        size = (11 if fam in F.STRICT else 8) if deep else (9 if fam in F.STRICT else 6)
        for lam in F.shapes(fam, size):
            for n in ((0, 1, 2, 3, 4, 5) if deep else (0, 1, 2, 3, 4)):
                steps.append(('exact', fam, n, lam, ()))
        pairs = [(lam, mu) for lam in F.shapes(fam, size) for mu in F.shapes(fam, size) if mu
                 and (ref.contains(lam, mu) or rng.random() < 0.05)]
        if not deep and len(pairs) > 400:
            pairs = rng.sample(pairs, 400)
        for lam, mu in pairs:
            steps.append(('exact', fam, rng.choice((1, 2, 3, 4) if deep else (1, 2, 3)), lam, mu))
        big = [lam for lam in F.shapes(fam, 16 if deep else 13) if sum(lam) > size]
        for lam in rng.sample(big, min(len(big), 200 if deep else 40)):
            steps.append(('value', fam, rng.choice((4, 5)), lam, ()))
        if fam in ('s', 'S'):
            for lam in rng.sample(big, 100 if deep else 30):
                mu = rng.choice(sorted(ref.subpartitions(lam)))
                steps.append(('value', fam, rng.choice((3, 4)), lam, mu))
    for fam in FAMS:
        for _ in range(150 if deep else 40):
            steps.append(('exact', fam, rng.choice((1, 2, 3))) + F.thin(rng, fam in F.STRICT, 6))
            steps.append(('exact', fam) + F.extreme(rng, fam in F.STRICT, many=True))
            steps.append(('chain', fam) + F.large(rng, fam))
    for fam in FAMS:
        small = F.shapes(fam, 6 if fam in F.STRICT else 4)
        pairs = [(lam, mu) for lam in small for mu in small if ref.contains(lam, mu)]
        for lam, mu in rng.sample(pairs, min(len(pairs), 120 if deep else 25)):
            steps.append(('slow', fam, rng.choice((1, 2, 3)), lam, mu))
    rng.shuffle(steps)
    return F.split(steps, 64 if deep else 32)


def slow(ctx, fam, n, lam, mu):
    from symmetric import SymmetricPolynomial
    F.observe_exact(ctx, fam, n, lam, mu, fn=getattr(SymmetricPolynomial, '_slow_' + F.FAM[fam][0]))
    ctx.ev('slow', (fam, n, lam, mu))


KINDS = {'slow': slow, 'exact': F.observe_exact,
         'value': F.observe_value, 'chain': F.observe_chain}
