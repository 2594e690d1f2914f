import random
from vmon import ref, view, families as F

TITLE = 'Tableau counters agree with the fillings they count'
RULE = ('every count_* function, by weight, against an independent count; the enumerated fillings, tallied by their weight '
        'method, against the same; the returned table is then read at absent keys, altered, and asked for again. '
        'Non-trivial = non-empty table.')
REQUIRED = {'count': 600, 'tally': 150, 'again': 600}
COUNT = {
    'plain': ('count_semistandard', 'semistandard', False, {}, (), 6, 4),
    'setvalued': ('count_semistandard_setvalued', 'semistandard_setvalued', False, dict(setvalued=True), (), 6, 4),
    'marked': ('count_semistandard_marked', 'semistandard_marked', False, dict(marked=True), (), 6, 3),
    'marked_setvalued': ('count_semistandard_marked_setvalued', 'semistandard_marked_setvalued', False,
                         dict(marked=True, setvalued=True), (), 5, 3),
    'shifted': ('count_semistandard_shifted_marked', 'semistandard_shifted_marked', True, dict(marked=True), (), 8, 3),
    'shifted_noprime': ('count_semistandard_shifted_marked', 'semistandard_shifted_marked', True,
                        dict(marked=True, diagonal_primes=False), (False,), 8, 3),
    'shifted_setvalued': ('count_semistandard_shifted_marked_setvalued', 'semistandard_shifted_marked_setvalued', True,
                          dict(marked=True, setvalued=True), (), 7, 3),
    'shifted_setvalued_noprime': ('count_semistandard_shifted_marked_setvalued', 'semistandard_shifted_marked_setvalued',
                                  True, dict(marked=True, setvalued=True, diagonal_primes=False), (False,), 7, 3),
    'rpp': ('count_semistandard_rpp', 'semistandard_rpp', False, dict(rpp=True), (), 6, 4),
    'marked_rpp': ('count_semistandard_marked_rpp', 'semistandard_marked_rpp', True, dict(rpp=True, marked=True), (), 7, 3),
    'marked_rpp_primed': ('count_semistandard_marked_rpp', 'semistandard_marked_rpp', True,
                          dict(rpp=True, marked=True, diagonal_nonprimes=False), (False,), 7, 3),
}


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 23)
    steps = []
    for name, (_, _, shifted, _, _, size, nmax) in COUNT.items():
        shapes = list(ref.strict_upto(size) if shifted else ref.partitions_upto(size))
        todo = [(n, lam, ()) for lam in shapes for n in range(nmax + 1)]
        pairs = [(lam, mu) for lam in shapes for mu in shapes if mu and (ref.contains(lam, mu) or rng.random() < 0.03)]
        todo += [(rng.randrange(1, nmax + 1), lam, mu) for lam, mu in pairs]
        for t in rng.sample(todo, min(500 if deep else 110, len(todo))):
            steps.append(('count', name) + t)
        for _ in range(60 if deep else 15):
            n = rng.choice((1, 1, 2))
            steps.append(('count', name, n) + (F.thin(rng, shifted, 4, 3, 6) if 'rpp' in name else F.thin(rng, shifted, 5 if n < 2 else 4)))
            k = rng.randrange(4, 8 if name in ('setvalued', 'plain', 'rpp') else 6)
            lam = tuple(range(2 * k - 1 if shifted else k, 0, -2 if shifted else -1))
            mu = [a - 1 for a in lam]
            if rng.random() < .4:
                mu[rng.randrange(k)] += 1
            mu = tuple(a for a in mu if a)
            if len(set(mu)) == len(mu) or not shifted:
                steps.append(('count', name, 1 if 'marked_s' in name or 'shifted_s' in name else 2, lam, mu))
            if name != 'marked_setvalued':
                steps.append(('count', name) + F.extreme(rng, shifted, 'set' in name))
    rng.shuffle(steps)
    return F.split(steps, 64 if deep else 40)


def count(ctx, name, n, lam, mu):
    from tableaux import Tableau
    cname, ename, shifted, opts, args, _, _ = COUNT[name]
    gf = ref.tableau_gf(ref.cells(lam, mu, shifted), n, **opts) if ref.contains(lam, mu) else {}
    want = ref.monomial_coefficients(gf)
    table = getattr(Tableau, cname)(n, lam, mu, *args)
    ctx.equal({k: v for k, v in table.items() if v}, want, '%s%r of %r/%r with entries up to %d' % (cname, args, lam, mu, n))
    ctx.ev('count', (name, n, lam, mu), trivial=not want)
    ctx.equal(table[(99,)], 0, '%s: count at an impossible weight' % cname)
    table[(1, 1, 1, 1, 1, 1, 1)] += 5
    for k in list(table):
        table[k] += 7
    again = getattr(Tableau, cname)(n, lam, mu, *args)
    ctx.equal({k: v for k, v in again.items() if v}, want,
              '%s%r of %r/%r, asked again after the first answer was altered' % (cname, args, lam, mu))
    ctx.ev('again', (name, n, lam, mu), trivial=not want)
    if sum(gf.values()) < 800:
        tally = {}
        for t in getattr(Tableau, ename)(n, lam, mu, *args):
            w = t.weight(n)
            tally[w] = tally.get(w, 0) + 1
        ctx.equal(tally, gf, 'weights of the listed %s%r of %r/%r' % (ename, args, lam, mu))
        ctx.ev('tally', (name, n, lam, mu), trivial=not gf)


KINDS = {'count': count}
