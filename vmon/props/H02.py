import random
from vmon import catalog

TITLE = 'No call changes its arguments or values handed out earlier'
RULE = ('values: the arguments of calls across the whole library are read before and after, together with every object made so far, and '
        'their hashes; fresh: a result is used as the argument of arithmetic and read again. Non-trivial = an object that is not a number.')
REQUIRED = {'argument': 2000, 'bystander': 2000, 'hash': 1000}
ROUNDS = (24, 60)


def plan(tier, seed):
    rng = random.Random(seed + 702)
    return [[('values', rng.randrange(10 ** 9), 60)] for _ in range(24)]


def mark(x):
    try:
        return hash(x)
    except TypeError:
        return None


def reading(x):
    """Everything an object tells about itself."""
    more = ()
    if type(x).__name__ == 'Permutation':
        more = (tuple(sorted(x.right_descent_set)), tuple(sorted(x.left_descent_set)), len(x), str(x))
    elif type(x).__name__ == 'Tableau':
        more = (x.is_semistandard(), str(x)) if len(x.boxes) < 8 else ()
    elif type(x).__name__ in ('Polynomial', 'SymmetricPolynomial', 'Vector', 'SymmetricMonomial'):
        more = (str(x),)
    return catalog.canon(x), more


def parts(x):
    """The objects inside an argument or a result."""
    yield x
    if isinstance(x, (list, tuple, set, frozenset)):
        for y in x:
            if not isinstance(y, (int, str, bool, type(None))):
                yield from parts(y)


def values(ctx, salt, count):
    rng = random.Random(salt)
    pool = []
    for name, args in catalog.queries(rng, count):
        _, prepare, call = catalog.build()[name]
        try:
            objects = prepare(*args)
        except AssertionError:
            continue
        before = [(x, reading(x), mark(x)) for x in objects if not hasattr(x, '__next__')]
        try:
            value = call(*objects)
            if hasattr(value, '__next__'):
                value = [y for y, _ in zip(value, range(rng.choice((1, 5, 10 ** 6))))]
        except (AssertionError, IndexError, KeyError, TypeError, ValueError, AttributeError, ZeroDivisionError):
            value = None
        for x, c, h in before:
            ctx.equal(reading(x), c, 'an argument was changed by the call', name=name, args=args)
            ctx.equal(mark(x), h, 'the hash of an argument was changed by the call', name=name, args=args)
            ctx.ev('argument', (name, args), trivial=isinstance(x, (int, bool, type(None))))
            if h is not None and not isinstance(x, int):
                ctx.ev('hash', (name, args))
        for x in list(parts(value))[:6] + [x for x, _, _ in before]:
            if not isinstance(x, (int, str, bool, type(None))) and not hasattr(x, '__next__') and not callable(x):
                pool.append((name, x, reading(x), mark(x)))
        for other, x, c, h in rng.sample(pool, min(4, len(pool))):
            ctx.equal((reading(x), mark(x)), (c, h), 'a value from an earlier call changed', made_by=other, changed_during=name)
            ctx.ev('bystander', (other, name))
    for other, x, c, h in pool:
        ctx.equal((reading(x), mark(x)), (c, h), 'a value from an earlier call changed', made_by=other)


KINDS = {'values': values}
