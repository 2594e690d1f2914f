import contextlib
import io
import itertools
import math
import random
from vmon import ref, families as F

TITLE = 'Partitions are enumerated, compared and converted as sets of boxes'
RULE = ('enumerate: every list of partitions against counting sequences of parts; relations and boxes: random partitions against their sets '
        'of boxes; skew: normal forms and reconstructions of random skew shapes; text: printed diagrams read back box by box. Non-trivial = '
        'a non-empty shape.')
REQUIRED = {'list': 300, 'sub': 200, 'relation': 300, 'boxes': 500, 'skew': 500, 'key': 500, 'text': 300, 'compositions': 10}
ROUNDS = (60, 120)


def plan(tier, seed):
    rng = random.Random(seed + 601)
    big = tier != 'quick'
    steps = [('enumerate', rng.randrange(10 ** 9), 13 if big else 10) for _ in range(20)]
    steps += [('sub', rng.randrange(10 ** 9)) for _ in range(40)]
    steps += [('relation', rng.randrange(10 ** 9)) for _ in range(60)]
    steps += [('boxes', rng.randrange(10 ** 9)) for _ in range(80)]
    steps += [('skew', rng.randrange(10 ** 9)) for _ in range(80)]
    steps += [('text', rng.randrange(10 ** 9)) for _ in range(60)]
    steps += [('compositions', n) for n in range(12)]
    rng.shuffle(steps)
    return F.split(steps, 8)


def parts_of(n, cap=None):
    """Partitions of n, as multisets of parts counted one size at a time."""
    cap = n if cap is None else min(cap, n)
    if n == 0:
        return [()]
    if cap <= 0:
        return []
    ans = []
    for k in range(n // cap + 1):
        ans += [(cap,) * k + rest for rest in parts_of(n - k * cap, cap - 1)]
    return ans


def rand_partition(rng, strict=False, top=6, rows=5, wide=False):
    if wide and rng.random() < .2:
        top, rows = 16, 9
    if strict:
        return tuple(sorted(rng.sample(range(1, top + 2), rng.randrange(0, rows)), reverse=True))
    return tuple(sorted((rng.randrange(1, top + 1) for _ in range(rng.randrange(0, rows))), reverse=True))


def cells(mu, shifted=False):
    return {(i + 1, j + 1 + (i if shifted else 0)) for i, a in enumerate(mu) for j in range(a)}


def trimmed(mu):
    mu = list(mu)
    while mu and mu[-1] == 0:
        mu.pop()
    return tuple(mu)


def enumerate_(ctx, salt, top):
    from partitions import Partition as Q
    rng = random.Random(salt)
    waiting = []
    for _ in range(6):
        n = rng.randrange(0, top)
        max_part = rng.choice((None, None, rng.randrange(0, n + 3)))
        max_row = rng.choice((None, None, rng.randrange(0, n + 3)))
        strict, even = rng.random() < .4, rng.random() < .25

        def ok(mu):
            return ((max_part is None or not mu or mu[0] <= max_part) and (max_row is None or len(mu) <= max_row)
                    and (not strict or len(set(mu)) == len(mu)) and (not even or all(a % 2 == 0 for a in mu)))
        opts = dict(max_part=max_part, max_row=max_row, strict=strict, even_parts=even)
        opts = {k: v for k, v in opts.items() if not (v is None or v is False) or rng.random() < .5}
        one = rng.random() < .6
        want = [mu for m in ([n] if one else range(n + 1)) for mu in parts_of(m) if ok(mu)]
        gen = iter((Q.generate if one else Q.all)(n, **opts))
        waiting.append([n, one, opts, sorted(want), [], gen, rng.random() < .2])
        live = [w for w in waiting if w[5]]
        while live and (len(waiting) == 6 or rng.random() < .9):
            w = rng.choice(live)
            if w[6] and len(w[4]) > 2:
                w[5] = None            # abandoned
            else:
                try:
                    w[4].append(next(w[5]))
                except StopIteration:
                    w[5] = None
                    ctx.equal(sorted(w[4]), w[3], 'partitions listed', n=w[0], generate=w[1], **w[2])
                    ctx.ev('list', (w[0], w[1], tuple(sorted(w[2].items()))), trivial=not w[3])
            live = [w for w in waiting if w[5]]


def near(rng, mu, strict):
    """A (strict) partition inside mu that leaves out boxes of few rows."""
    nu = list(mu)
    for i in rng.sample(range(len(mu)), min(len(mu), rng.randrange(1, 4))):
        low = nu[i + 1] + strict if i + 1 < len(nu) else 0
        nu[i] = rng.randrange(min(low, nu[i]), nu[i] + 1)
    return trimmed(nu)


def sub(ctx, salt):
    from partitions import Partition as Q
    rng = random.Random(salt)
    for _ in range(3):
        strict = rng.random() < .5
        mu = rand_partition(rng, rng.random() < .5, 5, 5)
        inside = [k for k in itertools.product(*[range(a + 1) for a in mu]) if all(a >= b for a, b in zip(k, k[1:]))]
        nu = trimmed(rng.choice(inside))
        arg = rng.choice(((), nu, nu, nu + (0,) * (len(mu) - len(nu))))
        low = trimmed(arg)
        want = sorted(trimmed(k) for k in inside if all(k[i] >= a for i, a in enumerate(low))
                      and (not strict or all(a > b or a == b == 0 for a, b in zip(k, k[1:]))))
        got = sorted(Q.subpartitions(mu, arg, strict) if arg or rng.random() < .5 else Q.subpartitions(mu, strict=strict))
        ctx.equal(got, want, 'partitions between two shapes', mu=mu, nu=arg, strict=strict)
        ctx.ev('sub', (mu, arg, strict), trivial=not mu)
        mu = rand_partition(rng, strict, 9, 10)     # many rows, few shapes between the bounds
        low = near(rng, mu, strict)
        spans = [range(b, a + 1) for a, b in zip(mu, low + (0,) * len(mu))]
        if mu and math.prod(map(len, spans)) < 3000:
            want = sorted(trimmed(k) for k in itertools.product(*spans) if all(a > b or a == b and (not strict or not a) for a, b in zip(k, k[1:])))
            ctx.equal(sorted(Q.subpartitions(mu, low, strict)), want, 'partitions between two shapes', mu=mu, nu=low, strict=strict)
            ctx.ev('sub', (mu, low, strict))
        mu = rand_partition(rng, strict, 6, 6, True)
        want = sorted(k for k in itertools.product(*[(a, a + 1) for a in mu])
                      if all(a > b if strict else a >= b for a, b in zip(k, k[1:])))
        ctx.equal(sorted(Q.successors(mu, strict)), want, 'shapes with at most one more box in each row', mu=mu, strict=strict)
        ctx.ev('sub', ('successors', mu, strict), trivial=not mu)


def relation(ctx, salt):
    from partitions import Partition as Q
    rng = random.Random(salt)
    for _ in range(6):
        mu, nu = rand_partition(rng, wide=True), rand_partition(rng, wide=True)
        if rng.random() < .4 and mu:
            nu = trimmed(sorted((rng.randrange(0, a + 1) for a in mu), reverse=True))
            nu = trimmed(min(a, b) for a, b in zip(mu, nu))
        if rng.random() < .3:     # one row too long
            mu = rand_partition(rng, wide=True)
            nu = list(near(rng, mu, False))
            if nu:
                i = rng.randrange(len(nu))
                nu[i] = mu[i] + 1 if not i or nu[i - 1] > mu[i] else nu[i]
            nu = tuple(nu)
        ctx.equal(bool(Q.contains(mu, nu)), cells(nu) <= cells(mu), 'containment', mu=mu, nu=nu)
        ctx.equal(Q.union(mu, nu), tuple(sum(1 for (i, j) in cells(mu) | cells(nu) if i == r)
                                         for r in range(1, max(len(mu), len(nu)) + 1)), 'union', mu=mu, nu=nu)
        ctx.equal(Q.transpose(mu), tuple(sum(1 for (i, j) in cells(mu) if j == c) for c in range(1, (mu + (0,))[0] + 1)),
                  'transpose', mu=mu)
        w = tuple(rng.randrange(0, 5) for _ in range(rng.randrange(0, 5)))
        if rng.random() < .4:  # long, and decreasing but for one place
            top = rng.choice((6, 12, 30))
            w = [rng.randrange(0, top) for _ in range(rng.randrange(3, 11))]
            w = sorted(set(w) if rng.random() < .7 else w, reverse=True)
            i = rng.randrange(len(w))
            if rng.random() < .6:
                w.insert(i, max(0, w[i] + rng.choice((0, 0, 1, -1, -1, -2))))
            w = tuple(w) + (0,) * rng.choice((0, 0, 0, 1, 2))
        ctx.equal(bool(Q.is_partition(w)), w == tuple(sorted(w, reverse=True)), 'is a partition', w=w)
        strict = w == tuple(sorted(set(w), reverse=True))
        ctx.equal((bool(Q.is_strict(w)), bool(Q.is_strict_partition(w))), (strict, strict), 'is strict', w=w)
        neg = w + (-1,)
        ctx.equal(bool(Q.is_partition(neg)), False, 'negative parts', w=neg)
        ctx.equal(Q.trim(rng.choice((list, tuple))(w)), trimmed(w), 'trim', w=w)
        t = rng.random() < .5
        s = tuple(sorted(w, reverse=True))
        ctx.equal(Q.sort(rng.choice((list, tuple))(w), trim=t), trimmed(s) if t else s, 'sort', w=w, trim=t)
        ctx.ev('relation', (mu, nu, w), trivial=not mu)


def boxes(ctx, salt):
    from partitions import Partition as Q
    rng = random.Random(salt)
    for _ in range(6):
        shifted = rng.random() < .5
        mu = rand_partition(rng, shifted, wide=True)
        s = cells(mu, shifted)
        ctx.equal(set(Q.shifted_shape(mu) if shifted else Q.shape(mu)), s, 'boxes of a shape', mu=mu, shifted=shifted)
        if not shifted:
            ctx.equal(Q.from_shape(s), mu, 'shape of a set of boxes', mu=mu)
        nu = trimmed(min(a, b) for a, b in zip(mu, rand_partition(rng, shifted, wide=True)))
        d = s - cells(nu, shifted)
        ctx.equal(set(Q.skew(mu, nu, shifted)), d, 'boxes of a skew shape', mu=mu, nu=nu, shifted=shifted)
        if shifted:
            ctx.equal(set(Q.shifted_shape(mu, nu)), d, 'boxes of a shifted skew shape', mu=mu, nu=nu)
            ctx.equal(Q.merge_shifted(rng.choice((tuple, list))(nu), rng.choice((tuple, list, set))(d)), mu, 'merged shape', mu=mu, nu=nu)
            ctx.equal(Q.merge_shifted(cells(nu, True), d), mu, 'merged shape from boxes', mu=mu, nu=nu)
        i, j = (rng.randrange(1, 7), rng.randrange(1, 9)) if rng.random() < .7 else (rng.randrange(1, 12), rng.randrange(1, 27))
        ctx.equal(bool(Q.isin(mu, i, j, shifted)), (i, j) in s, 'membership of a box', mu=mu, box=(i, j), shifted=shifted)
        if shifted:
            ctx.equal(bool(Q.isin_shifted(mu, i, j)), (i, j) in s, 'membership in a shifted shape', mu=mu, box=(i, j))
        ctx.equal(Q.get(mu, 0), 0, 'row length before the first row', mu=mu)
        ctx.equal(Q.get(mu, i), sum(1 for x in cells(mu) if x[0] == i), 'row length', mu=mu, row=i)
        for r in range(1, len(mu) + 2):
            want = cells(mu) | {(r, (mu + (0,))[r - 1] + 1)}
            got = (Q.add(rng.choice((tuple, list))(mu), r), Q.add_box_to_row(mu, r))
            ctx.equal([cells(tuple(x)) for x in got], [want, want], 'box added to a row', mu=mu, row=r)
            corner = sorted(want - cells(mu))[0]
            if r == 1 or (r - 1, corner[1]) in cells(mu):
                ctx.equal(Q.add_box_to_column(mu, corner[1], False), tuple(got[1]), 'box added to a column', mu=mu, column=corner[1])
            if shifted and (r == 1 or (r - 1, corner[1] + r - 1) in s):
                ctx.equal(Q.add_box_to_column(mu, corner[1] + r - 1, True), tuple(got[1]), 'box added to a shifted column', mu=mu,
                          column=corner[1] + r - 1)
        ctx.ev('boxes', (mu, nu, shifted), trivial=not mu)


def moved(s, di, dj):
    return {(i + di, j + dj) for i, j in s}


def skew(ctx, salt):
    from partitions import Partition as Q
    rng = random.Random(salt)
    names = {}
    for _ in range(25):
        shifted = rng.random() < .5
        mu = rand_partition(rng, shifted, 4, 4, True)
        nu = trimmed(min(a, b) for a, b in zip(mu, rand_partition(rng, shifted, 4, 4, True)))
        if rng.random() < .3:     # few rows far apart
            mu = rand_partition(rng, shifted, 9, 9)
            if rng.random() < .5:
                mu = tuple(range(len(mu) + rng.randrange(0, 3), 0, -1))
            nu = near(rng, mu, shifted)
        s = cells(mu, shifted) - cells(nu, shifted)
        key = Q.skew_key(mu, nu, shifted)
        # shapes have one key exactly when one is a translate of the other (and both or neither touch the diagonal)
        lo = (min(i for i, j in s), min(j for i, j in s)) if s else None
        if not s:
            want = set()
        elif not shifted:
            want = moved(s, 1 - lo[0], 1 - lo[1])
        elif any(i == j for i, j in s):
            want = moved(s, 1 - min(lo), 1 - min(lo))
        else:
            up = moved(s, 1 - lo[0], 1 - lo[0])
            gap = min(j - i for i, j in up)
            want = moved(up, 0, 1 - gap)
        ctx.equal(sorted(moved(key, lo[0] - min(i for i, j in key), lo[1] - min(j for i, j in key)) if s else key), sorted(s),
                  'the key is a translate of the skew shape', mu=mu, nu=nu, shifted=shifted)
        for x, y in ((('key', shifted, key), tuple(sorted(want))), (('shape', shifted, tuple(sorted(want))), key)):
            ctx.equal(names.setdefault(x, y), y, 'keys of translates and of other shapes', mu=mu, nu=nu, shifted=shifted)
        full = nu + (0,) * (len(mu) - len(nu))
        further = Q.skew_key(tuple(a + 1 for a in mu), tuple(a + 1 for a in full), shifted)
        ctx.check((further == key) == (not shifted or not s or not any(i == j for i, j in s)),
                  'keys of a shape and its translate to the right', mu=mu, nu=nu, shifted=shifted, keys=(key, further))
        deeper = Q.skew_key((max(mu + (0,)) + 3,) + mu, (max(mu + (0,)) + 3,) + nu, shifted)
        ctx.equal(deeper, key, 'key of a shape below a full row', mu=mu, nu=nu, shifted=shifted)
        ctx.ev('key', (mu, nu, shifted), trivial=not s)
        a, b = Q.from_skew(rng.choice((set, list, tuple))(s), shifted)
        good = Q.is_strict_partition if shifted else Q.is_partition
        ctx.check(good(a) and good(b) and cells(b, shifted) <= cells(a, shifted), 'partitions of a skew shape', s=s, result=(a, b))
        t = cells(a, shifted) - cells(b, shifted)
        shift = (min(s)[1] - min(t)[1]) if s and t else 0
        ctx.equal(moved(t, 0, shift), s, 'skew shape rebuilt up to horizontal translation', mu=mu, nu=nu, shifted=shifted, result=(a, b))
        ctx.check(len(b) < len(a) or not s, 'a full column was left in front of a skew shape', s=s, result=(a, b))
        ctx.ev('skew', (mu, nu, shifted), trivial=not s)


def read_block(lines, french):
    ans = {}
    for i, line in enumerate(reversed(lines) if french else lines, 1):
        for j in range(0, len(line), 2):
            if line[j] != ' ':
                ans[i, j // 2 + 1] = line[j]
            assert line[j + 1:j + 2] in ('', ' ')
    return ans


def text(ctx, salt):
    from partitions import Partition as Q
    rng = random.Random(salt)
    for _ in range(4):
        shifted = rng.random() < .5
        mu = rand_partition(rng, shifted, wide=True)
        nu = rng.choice((None, trimmed(min(a, b) for a, b in zip(mu, rand_partition(rng, shifted, wide=True)))))
        out = Q.printable(mu, nu, shifted=shifted) if shifted or rng.random() < .5 else Q.printable(mu, nu)
        told = io.StringIO()
        with contextlib.redirect_stdout(told):
            (Q.print_shifted if shifted else Q.print_diagram)(mu, nu)
        ctx.equal(told.getvalue().split('\n')[1:], (out + '\n').split('\n'), 'diagram written to the terminal', mu=mu, nu=nu)
        lines = out.split('\n') if mu else []
        ctx.equal(len({len(x) for x in lines}) <= 1, True, 'lines of one width', out=out)
        inner = cells(nu or (), shifted)
        ctx.equal(read_block(lines, Q.FRENCH), {b: '.' if b in inner else '*' for b in cells(mu, shifted)}, 'printed diagram', mu=mu,
                  nu=nu, shifted=shifted, out=out)
        ctx.ev('text', (mu, nu, shifted), trivial=not mu)
        row = [rand_partition(rng, shifted, wide=True) for _ in range(rng.randrange(1, 5))]
        row = [m for m in row if m] or [(1,)]
        lines = (Q.shifted_printables if shifted else Q.printables)(*row).split('\n')
        ctx.equal(len(lines), max(map(len, row)), 'height of several diagrams', row=row)
        # every line is cut at the same places by the arrows
        full = [x for x in lines if x.count('->') == len(row) - 1]
        ctx.check(full, 'arrows between the diagrams', row=row, lines=lines)
        widths = [len(p) for p in full[0].split('   ->    ')]
        at, got = 0, []
        for w in widths:
            got.append([x[at:at + w] for x in lines])
            at += w + len('   ->    ')
        ctx.equal([read_block(x, Q.FRENCH) for x in got], [{b: '*' for b in cells(m, shifted)} for m in row], 'several printed diagrams',
                  row=row, lines=lines)
        ctx.ev('text', tuple(row))


def compositions(ctx, n):
    from partitions import Partition as Q
    want = []
    for k in range(2 ** max(n - 1, 0)):
        cuts = [0] + [i + 1 for i in range(n - 1) if k >> i & 1] + [n]
        want.append(tuple(b - a for a, b in zip(cuts, cuts[1:])) if n else ())
    ctx.equal(sorted(Q.compositions(n)), sorted(want), 'compositions', n=n)
    ctx.equal(sorted(Q.peak_compositions(n)), sorted(a for a in want if all(x > 1 for x in a[:-1])), 'peak compositions', n=n)
    ctx.ev('compositions', n)


KINDS = {'enumerate': enumerate_, 'sub': sub, 'relation': relation, 'boxes': boxes, 'skew': skew, 'text': text, 'compositions': compositions}
