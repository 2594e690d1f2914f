import random
from collections import defaultdict
from vmon import ref, view, families as F
from vmon.ref import PRIME

TITLE = 'Pieri coefficients multiply the polynomials they describe'
RULE = ('GP/GQ: KOG and KLG counts as structure constants of multiplication by a one-row element, the polynomials being '
        'evaluated independently by symmetrisation modulo 2^61-1; gp/gq: set-valued co-Pieri counts as structure constants '
        'of the duals. Non-trivial = more than one term.')
REQUIRED = {'GP': 60, 'GQ': 60, 'dual': 40}
ROUNDS = (12, 40)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 11)
    steps = []
    for q in (False, True):
        for mu in ref.strict_upto(9 if deep else 7):
            if len(mu) > 3:
                continue
            for p in (0, 1, 2, 3, 4):
                steps.append(('grow', q, mu, p, True))
        big = [mu for mu in ref.strict_upto(14) if 7 < sum(mu) and len(mu) <= 3]
        for mu in rng.sample(big, 60 if deep else 15):
            steps.append(('grow', q, mu, rng.choice((1, 2, 3, 5, 6)), False))
        tall = [mu for mu in ref.strict_upto(15) if len(mu) >= 4]
        for mu in [(4, 3, 2, 1)] + rng.sample(tall, 12 if deep else 4):
            steps.append(('grow', q, mu, rng.choice((1, 2, 3, 4)), sum(mu) < 12))
        for _ in range(40 if deep else 12):
            k = rng.randint(8, 16)
            mu = (k,) if rng.random() < .4 else (k, rng.choice((1, 2, 3, k - 2, k - 1)))
            steps.append(('grow', q, mu, rng.randint(0, 9), False))
    for lam in ref.strict_upto(6 if deep else 4):
        for r in range(0, 4):
            for primes in (True, False):
                steps.append(('dual', lam, r, primes, 3 if sum(lam) + r < 6 else 2))
    for _ in range(40 if deep else 12):
        lam = rng.choice(list(ref.strict_upto(10)) + [(4, 3, 2, 1), (5, 4, 3), (4, 3, 1), (6,), (8,), (5, 1), (5, 4, 2, 1)])
        if sum(lam) > 4:
            steps.append(('dual', lam, rng.randint(0, 5 if sum(lam) < 9 else 3), rng.random() < .5, max(3, len(lam) + 1)))
        steps.append(('dual', rng.choice([(), (1,), (2,), (2, 1), (3, 1)]), rng.randint(4, 7), rng.random() < .5, 3))
    rng.shuffle(steps)
    return F.split(steps, 64 if deep else 40)


def grow(ctx, q, mu, p, enumerate_too):
    from tableaux import Tableau
    n = len(mu) + 1
    counts = dict((Tableau.KLG_counts_by_shape if q else Tableau.KOG_counts_by_shape)(p, mu))
    if enumerate_too:
        tabs = (Tableau.KLG_by_shape if q else Tableau.KOG_by_shape)(p, mu)
        ctx.equal({k: len(v) for k, v in tabs.items() if v}, {k: v for k, v in counts.items() if v},
                  'counted and enumerated %s tableaux of content %d on %r differ' % ('KLG' if q else 'KOG', p, mu))
        ctx.ev('enumerated', (q, mu, p))
    for nu in counts:
        one = (Tableau.KLG_counts if q else Tableau.KOG_counts)(nu, mu, p)
        ctx.equal(one, counts[nu], 'single count for %r/%r with content %d' % (nu, mu, p))
    xs, b = F.POINTS[0][:n], F.BETAS[0]
    row = (p,) if p else ()
    left = ref.symmetrized_GPQ(mu, xs, b, q) * ref.symmetrized_GPQ(row, xs, b, q) % PRIME
    right = 0
    for nu, c in counts.items():
        right += c * pow(b, sum(nu) - sum(mu) - p, PRIME) * ref.symmetrized_GPQ(nu, xs, b, q)
    ctx.equal(right % PRIME, left, 'Pieri rule for %s %r times one row of %d' % ('GQ' if q else 'GP', mu, p), counts=counts)
    ctx.ev('GQ' if q else 'GP', (mu, p), trivial=len(counts) < 2)


def dual(ctx, lam, r, primes, n):
    from symmetric import SymmetricPolynomial as SP
    from tableaux import Tableau
    f = SP.dual_stable_grothendieck_p if primes else SP.dual_stable_grothendieck_q
    xs, b = F.POINTS[0][:n], F.BETAS[0]

    def val(fn, shape):
        if n > 3 or sum(lam) > 6:   # decided without the library's polynomials
            return F.chain_value('gp' if primes and fn is f else 'gq', shape, (), xs, b)
        return view.eval_sym(view.sym(fn(n, shape)), xs, b)
    left = val(f, lam) * val(SP.dual_stable_grothendieck_q, (r,) if r else ()) % PRIME
    right, terms = 0, 0
    for nu in ref.strict_upto(sum(lam) + r):
        # lam/nu: the rows of nu after the first lie inside lam, lam inside nu
        if not ref.contains(nu, lam) or not ref.contains(lam, nu[1:]):
            continue
        c = len(Tableau.shifted_setvalued_copieri(nu, lam, primes).get(r, []))
        if c:
            terms += 1
            right += c * pow(b, sum(lam) + r - sum(nu), PRIME) * val(f, nu)
    ctx.equal(right % PRIME, left, 'co-Pieri rule for %s %r times one row of %d' % ('gp' if primes else 'gq', lam, r))
    ctx.ev('dual', (lam, r, primes, n), trivial=terms < 2)


KINDS = {'grow': grow, 'dual': dual}
