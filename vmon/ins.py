"""Oracles for insertion: Demazure products, increasing tableaux, standard set-valued tableaux."""
from . import ref


def hecke_product(word, n):
    w = tuple(range(1, n + 1))
    for a in word:
        w = ref.demazure_right(w, a)
    return w


def inv_product(word, n):
    """The involution s_l o ... o s_1 o 1 o s_1 o ... o s_l in the 0-Hecke monoid."""
    z = tuple(range(1, n + 1))
    for a in word:
        z = ref.demazure_left(ref.demazure_right(z, a), a)
    return z


def minfpf(n):
    return tuple(i + 1 if i % 2 else i - 1 for i in range(1, n + 1))


def fpf_product(word, n):
    """The fixed-point-free involution of a symplectic Hecke word (n even), or None."""
    z = list(minfpf(n))
    for a in word:
        if z[a - 1] == a + 1:
            return None
        if z[a - 1] < z[a]:
            s = ref.simple(a, n)
            z = list(ref.compose(s, ref.compose(tuple(z), s)))
    return tuple(z)


def row_word(cells):
    """Rows from the last to the first, each read from left to right."""
    return tuple(cells[b] for b in sorted(cells, key=lambda b: (-b[0], b[1])))


def increasing_fillings(boxes, k):
    boxes = sorted(boxes)
    out = []

    def rec(t, fill):
        if t == len(boxes):
            out.append(dict(fill))
            return
        i, j = boxes[t]
        lo = max(fill.get((i, j - 1), 0), fill.get((i - 1, j), 0)) + 1
        for a in range(lo, k + 1):
            fill[(i, j)] = a
            rec(t + 1, fill)
            del fill[(i, j)]
    rec(0, {})
    return out


def is_increasing(cells):
    return all(cells.get((i, j - 1), a - 1) < a and cells.get((i - 1, j), a - 1) < a for (i, j), a in cells.items())


def standard_setvalued(m, shifted=False):
    """{shape: list of standard set-valued tableaux with letters 1..m}; shifted ones marked, no primed letter on the diagonal."""
    states = {((), ()): None}
    level = [((), {})]
    for letter in range(1, m + 1):
        new = []
        for shape, fill in level:
            rows = list(shape)
            spots = []
            for r in range(len(rows) + 1):
                length = rows[r] if r < len(rows) else 0
                up = rows[r - 1] if r else None
                if r == 0 or length + (1 if shifted else 0) < up:
                    spots.append((r, length, True))
            for r in range(len(rows)):
                below = rows[r + 1] if r + 1 < len(rows) else 0
                if rows[r] > below + (1 if shifted else 0) or (shifted and r + 1 == len(rows)) or (not shifted and rows[r] > below):
                    spots.append((r, rows[r] - 1, False))
            for r, c, fresh in spots:
                b = (r + 1, c + 1 + (r if shifted else 0))
                for s in ((1, -1) if shifted and b[0] != b[1] else (1,)):
                    f = dict(fill)
                    f[b] = f.get(b, ()) + (s * letter,)
                    sh = rows[:]
                    if fresh:
                        if r == len(sh):
                            sh.append(0)
                        sh[r] += 1
                    new.append((tuple(sh), f))
        level = new
    out = {}
    for shape, f in level:
        out.setdefault(shape, []).append(f)
    return out


def record_ok(word, record, multi):
    if multi:
        return all(r <= s and not (r == s and a > b) for r, s, a, b in zip(record, record[1:], word, word[1:]))
    return all(r <= s and not (r == s and a <= b) for r, s, a, b in zip(record, record[1:], word, word[1:]))


def random_record(rng, word, multi, spread=2):
    ans, cur = [], rng.randrange(1, 3)
    for t, a in enumerate(word):
        if t:
            must = word[t - 1] > a if multi else word[t - 1] <= a
            cur += rng.randrange(1, spread + 1) if must else rng.randrange(0, spread + 1) if rng.random() < .5 else 0
        ans.append(cur)
    return tuple(ans)


def code(x):
    return 2 * x if x > 0 else -2 * x - 1


def semistandard(cells, multi):
    """Rows weakly increasing (equal only unprimed), columns (equal only primed); boxes are sets unless multi."""
    for (i, j), v in cells.items():
        e = sorted(code(x) for x in v)
        if any(a > b or (a == b and not multi) for a, b in zip(e, e[1:])):
            return 'box (%d, %d)' % (i, j)
        for prev, odd in (((i, j - 1), 0), ((i - 1, j), 1)):
            if prev in cells:
                a = max(code(x) for x in cells[prev])
                if not (a < e[0] or (a == e[0] and a % 2 == odd)):
                    return 'boxes %r and (%d, %d)' % (prev, i, j)
    return None
