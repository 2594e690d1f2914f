import math
import random
from vmon import ref, perm, families as F

TITLE = 'Enumerations of permutations and involutions list everything once'
RULE = ('each enumeration of every small rank compared, as a list without repeats, with a direct search; larger ranks checked for '
        'validity, repeats and the exact number; some consumed in lockstep or abandoned half way first. Non-trivial = rank at least 2.')
REQUIRED = {'census': 40, 'member': 8000}
ROUNDS = (24, 60)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 53)
    steps = []
    for kind, hi in [('all', 7), ('all_signed', 4), ('inv', 8), ('inv_signed', 5), ('inv_fpf', 8), ('fpf', 8)]:
        for n in range(0, hi + (1 if deep else 0) + 1):
            steps.append(('census', kind, n, rng.randrange(4)))
    rounds = [('census', kind, n, rng.randrange(4)) for kind, n in (('inv_signed', 6), ('inv', 9), ('inv_fpf', 10), ('fpf', 10), ('inv', 10), ('inv_signed', 7))]
    steps += rng.sample(rounds, 6 if deep else 2)
    rng.shuffle(steps)
    return F.split(steps, 16)


def inv_number(n):
    a, b = 1, 1
    for k in range(2, n + 1):
        a, b = b, b + (k - 1) * a
    return b


def signed_inv_number(n):
    a, b = 1, 2
    for k in range(2, n + 1):
        a, b = b, 2 * b + 2 * (k - 1) * a
    return b if n else 1


def odd_factorial(n):
    return 0 if n % 2 else math.prod(range(1, n, 2))


COUNT = {'all': math.factorial, 'all_signed': lambda n: math.factorial(n) * 2 ** n, 'inv': inv_number, 'inv_signed': signed_inv_number,
         'inv_fpf': odd_factorial, 'fpf': odd_factorial}


def census(ctx, kind, n, style):
    from permutations import Permutation as P
    make = {'all': lambda: P.all(n), 'all_signed': lambda: P.all(n, signed=True), 'inv': lambda: P.involutions(n),
            'inv_signed': lambda: P.involutions(n, signed=True), 'inv_fpf': lambda: P.involutions(n, fpf=True),
            'fpf': lambda: P.fpf_involutions(n)}[kind]
    if style == 1:
        g = make()
        for _ in range(3):
            next(g, None)
    if style == 2:
        a, b, items = make(), make(), []
        while True:
            x, y = next(a, None), next(b, None)
            ctx.check((x is None) == (y is None) and (x is None or x == y), 'two enumerations running together differ', kind=kind, n=n)
            if x is None:
                break
            items.append(x)
    else:
        items = list(make())
    seen = set()
    for p in items:
        w = perm.of(p, n)
        ctx.check(w not in seen, '%s(%d): repeated' % (kind, n), w=w)
        seen.add(w)
        ok = (kind == 'all_signed' or kind == 'inv_signed' or all(a > 0 for a in w)) and (kind.startswith('all') or perm.is_involution(w)) and (
            'fpf' not in kind or all(a != i + 1 for i, a in enumerate(w)))
        ctx.check(ok, '%s(%d): not a member' % (kind, n), w=w)
        ctx.ev('member', (kind, w), trivial=n < 2)
    ctx.equal(len(seen), COUNT[kind](n), '%s(%d): number of members' % (kind, n))
    ctx.ev('census', (kind, n, style), trivial=n < 2)


KINDS = {'census': census}
