import random
from vmon import ref, view, families as F

TITLE = 'Tableau enumerators list every defining filling exactly once'
RULE = ('every enumerator (semistandard, marked, shifted, set-valued, standard) on all small straight and sampled skew '
        'shapes: the set returned compared with an independent backtracking search. Non-trivial = at least one filling.')
REQUIRED = {'fill': 500, 'standard': 120}
ENUM = {
    'plain': ('semistandard', False, {}, ()),
    'setvalued': ('semistandard_setvalued', False, dict(setvalued=True), ()),
    'marked': ('semistandard_marked', False, dict(marked=True), ()),
    'marked_setvalued': ('semistandard_marked_setvalued', False, dict(marked=True, setvalued=True), ()),
    'shifted': ('semistandard_shifted', True, dict(marked=True), ()),
    'shifted_noprime': ('semistandard_shifted_marked', True, dict(marked=True, diagonal_primes=False), (False,)),
    'shifted_prime': ('semistandard_shifted_marked', True, dict(marked=True), (True,)),
    'shifted_setvalued': ('semistandard_shifted_setvalued', True, dict(marked=True, setvalued=True), ()),
    'shifted_setvalued_noprime': ('semistandard_shifted_marked_setvalued', True,
                                  dict(marked=True, setvalued=True, diagonal_primes=False), (False,)),
}
LIMIT = {'plain': (7, 4), 'setvalued': (5, 3), 'marked': (5, 3), 'marked_setvalued': (4, 2), 'shifted': (7, 3),
         'shifted_noprime': (7, 3), 'shifted_prime': (6, 3), 'shifted_setvalued': (5, 2), 'shifted_setvalued_noprime': (6, 2)}


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 21)
    steps = []
    for name, (_, shifted, opts, _) in ENUM.items():
        size, nmax = LIMIT[name]
        shapes = list(ref.strict_upto(size) if shifted else ref.partitions_upto(size))
        todo = [(n, lam, ()) for lam in shapes for n in range(nmax + 1)]
        pairs = [(lam, mu) for lam in shapes for mu in shapes if mu and (ref.contains(lam, mu) or rng.random() < 0.03)]
        todo += [(rng.randrange(1, nmax + 1), lam, mu) for lam, mu in pairs]
        k = 600 if deep else 110
        for t in rng.sample(todo, min(k, len(todo))):
            steps.append(('fill', name) + t)
        for _ in range(12 if deep else 3):    # many corners
            k = rng.randrange(5, 8)
            lam = tuple(range(2 * k - 1, 0, -2)) if shifted else tuple(range(k, 0, -1))
            mu = tuple(a - 1 for a in lam if a > 1)
            lam = lam if rng.random() < .5 else (lam[0] + 1,) + lam[1:]
            steps.append(('fill', name, 1 if name.endswith('setvalued_noprime') or 'shifted_setvalued' == name or 'marked_setvalued' == name else 2, lam, mu))
        for _ in range(60 if deep else 15):
            steps.append(('fill', name, rng.choice((1, 2))) + F.thin(rng, shifted, 4))
            n, lam, mu = F.extreme(rng, shifted, True)
            if n < 3 and sum(lam) - sum(mu) < (10 if 'set' not in name else 6) or sum(lam) - sum(mu) == 1:
                steps.append(('fill', name, n, lam, mu))
        for _ in range(30 if deep else 9):    # many letters
            steps.append(('fill', name) + letters(rng, shifted, 'set' in name, 'marked' in name))
    todo = [('plain', lam, mu) for lam in ref.partitions_upto(6) for mu in sorted(ref.subpartitions(lam))]
    for primes in (False, True):
        todo += [(primes, lam, mu) for lam in ref.strict_upto(7) for mu in sorted(ref.subpartitions(lam, True))]
    for t in rng.sample(todo, min(len(todo), 600 if deep else 200)):
        if t[0] == 'plain' or sum(t[1]) - sum(t[2]) <= (6 if deep else 5):
            steps.append(('standard',) + t)
    for primes in ('plain', False, True):
        for _ in range(100 if deep else 25):
            lam, mu = F.thin(rng, primes != 'plain', 5, 7, 9)
            if sum(lam) - sum(mu) <= 5:
                steps.append(('standard', primes, lam, mu))
    rng.shuffle(steps)
    return F.split(steps, 64 if deep else 40)


def letters(rng, shifted, sets, marked):
    """Few boxes and many letters, or tall shapes with just enough letters."""
    style = rng.randrange(3)
    if style == 0 or sets:
        lam = rng.choice([(1,)] + ([] if sets else [(2,), (2, 1), (3,), (1,) * 2] if not shifted else [(2,), (2, 1)]))
        n = rng.randint(3, 9) if sum(lam) == 1 and not sets else rng.randint(4, 5) if sets or sum(lam) > 2 else rng.randint(4, 5 if marked or shifted else 7)
        return n, lam, ()
    h = rng.randint(4, 8)
    if not shifted and marked:
        return rng.randint(1, 2), rng.choice([(1,) * h, (h,), (2,) + (1,) * (h - 2)]), ()
    if not shifted:
        lam = (1,) * h if style == 1 else (2,) + (1,) * (h - 1) if rng.random() < .5 else (2,) * h
        return h + (rng.random() < .5 and lam[0] == 1), lam, ()
    h = rng.randint(3, 4)
    lam = tuple(range(h, 0, -1))
    return rng.randint(2, 3), lam, (h - 1, ) if rng.random() < .5 else tuple(range(h - 1, 0, -1))


def compare(ctx, got, want, what):
    lst = [frozenset(view.tab(t).items()) for t in got]
    s = set(lst)
    ctx.check(len(s) == len(lst), what + ': a filling is listed twice')
    if s != set(want):
        extra, missing = list(s - set(want))[:1], list(set(want) - s)[:1]
        ctx.check(False, what + ': wrong set of fillings', extra=[sorted(x) for x in extra],
                  missing=[sorted(x) for x in missing], got=len(s), want=len(set(want)))


def fill(ctx, name, n, lam, mu):
    from tableaux import Tableau
    meth, shifted, opts, args = ENUM[name]
    got = getattr(Tableau, meth)(n, lam, mu, *args)
    want = ref.fillings(ref.cells(lam, mu, shifted), n, **opts) if ref.contains(lam, mu) else []
    compare(ctx, got, want, '%s %r/%r with entries up to %d' % (meth, lam, mu, n))
    for t in list(got)[:5]:
        if not mu and 'setvalued' not in name:
            ctx.equal(t.shape(), lam, '%s: shape of a filling of %r' % (meth, lam))
    ctx.ev('fill', (name, n, lam, mu), trivial=not want)


def standard(ctx, kind, lam, mu):
    from tableaux import Tableau
    if kind == 'plain':
        got = Tableau.standard(lam, mu) if mu else Tableau.standard(lam)
        want = ref.standard_fillings(ref.cells(lam, mu))
    else:
        got = Tableau.standard_shifted_marked(lam, mu, kind) if kind or mu else Tableau.standard_shifted_marked(lam)
        want = ref.standard_fillings(ref.cells(lam, mu, True), True, kind)
    compare(ctx, got, want, 'standard fillings (%s) of %r/%r' % (kind, lam, mu))
    ctx.ev('standard', (kind, lam, mu), trivial=not want)


KINDS = {'fill': fill, 'standard': standard}
