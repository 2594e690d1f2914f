import random
from vmon import ref, perm, families as F

TITLE = 'Wiring diagrams show the letters of the word in order'
RULE = ('word: random words with blanks and labels: reading the crossings of the picture from bottom to top gives the word back, each wire '
        'is drawn at its place; involution: the letters that commute with the involution so far are drawn as cups instead. Non-trivial = '
        'at least one letter.')
REQUIRED = {'plain': 600, 'involution': 600, 'fpf': 400}
ROUNDS = (100, 240)
CROSS, BOX, BAR, CUP = '\u2573', '\u2588', '\u2502', '\u2570\u2500\u2500\u2500\u256f'


def plan(tier, seed):
    rng = random.Random(seed + 305)
    steps = [('word', rng.randrange(10 ** 9)) for _ in range(80)]
    return F.split(steps, 8)


def blocks(ctx, lines, size, what):
    '''[(crossing or None, cup or None, label text)] from bottom to top.'''
    out = []
    for k in range(0, len(lines), 4):
        b = lines[k:k + 4]
        ctx.equal(len(b), 4, '%s: incomplete row' % what)
        crossings = [p for p, ch in enumerate(b[1]) if ch == CROSS]
        ctx.check(len(crossings) <= 1 and not any(CROSS in b[t] for t in (0, 2, 3)), '%s: several crossings in a row' % what)
        i = None
        if crossings:
            ctx.equal(crossings[0] % 4, 2, '%s: misplaced crossing' % what)
            i = (crossings[0] - 2) // 4 + 1
        p = b[3].find(CUP)
        cup = None
        if p >= 0:
            ctx.equal(p % 4, 0, '%s: misplaced cup' % what)
            cup = p // 4 + 1
        out.append((i, cup, b[1][4 * size:].strip(), b))
    return out[::-1]


def word(ctx, salt):
    from words import Word
    rng = random.Random(salt)
    wide = rng.random() < .2
    m = rng.randrange(1, 14 if wide else 6)
    if wide and rng.random() < .2:
        m = rng.randrange(14, 80)
    w = tuple(rng.randrange(1, m + 1) for _ in range(rng.randrange(0, 15 if wide else 7)))
    labels = {k: rng.choice('abcxyz') * rng.randrange(1, 4) for k in range(1, len(w) + 1)} if rng.random() < .4 else None
    n = max(w) + 1 if w else 1

    def examine(text, what, size, word, cups=(), extra=0):
        lines = text.split('\n')
        ctx.equal(lines[0], '', what)
        ctx.equal(lines[1].split(), [BOX] * size, '%s: top of the wires' % what)
        ctx.equal(lines[-2 if lines[-1] == '' else -1].split(), [str(i) for i in range(1, size + 1)], '%s: numbers' % what)
        body = lines[2:2 + 4 * len(word)]
        for k, (i, cup, label, b) in enumerate(blocks(ctx, body, size, what), 1):
            want = word[k - 1]
            ctx.equal((i, cup), (None, want) if k in cups else (want, None), '%s: row %d' % (what, k), word=word)
            ctx.equal(label, '%d' % k + (': ' + str(labels[k]) if labels else ''), '%s: label of row %d' % (what, k), word=word)
            if cups:
                for x in range(1, size + 1):
                    if x not in (want, want + 1):  # a wire ends at the cup that joins it to its neighbour
                        ended = any(j > k and x in (word[j - 1], word[j - 1] + 1) for j in cups)
                        got = [b[t][4 * x - 4:4 * x].strip() for t in range(4)]
                        ctx.equal(got, [''] * 4 if ended else [BAR] * 3 + [BOX], '%s: wire %d in row %d' % (what, x, k), word=word)
                    elif k in cups:
                        ctx.equal([b[t][4 * x - 4:4 * x].strip() for t in range(3)], [BAR] * 3, '%s: wire %d above a cup in row %d' % (what, x, k), word=word)
            if not cups:
                for x in range(1, size + 1):
                    straight = all(b[t][4 * x - 4:4 * x].strip() == BAR for t in (0, 1, 2))
                    ctx.equal(straight, i is None or x not in (i, i + 1), '%s: wire %d in row %d' % (what, x, k), word=word)
                    ctx.equal(b[3][4 * x - 4:4 * x].strip(), BOX, '%s: end of wire %d in row %d' % (what, x, k), word=word)

    examine(Word.wiring_diagram(w, labels), 'wiring diagram', n, w)
    ctx.ev('plain', (w, labels), trivial=not w)
    blank = tuple(None if rng.random() < .3 else a for a in w)
    some = [a for a in blank if a]
    if blank:
        examine(Word.wiring_diagram(blank, labels), 'wiring diagram with blanks', max(some) + 1 if some else 1, blank)
    z = perm.identity(n)
    cups = set()
    for k, a in enumerate(w, 1):
        s = ref.simple(a, n)
        y = perm.mul(s, perm.mul(z, s))
        if y == z:
            cups.add(k)
            y = perm.mul(z, s)
        z = y
    examine(Word.involution_wiring_diagram(w, labels), 'involution wiring diagram', n, w, cups)
    ctx.ev('involution', (w, labels), trivial=not w)
    if w:
        text = Word.fpf_involution_wiring_diagram(w, labels).split('\n')
        size = n + n % 2
        ctx.equal(text[-2].split(), [str(i) for i in range(1, size + 1)], 'numbers of the fixed-point-free diagram')
        got = blocks(ctx, text[2:2 + 4 * len(w)], size, 'fixed-point-free wiring diagram')
        ctx.equal(tuple(g[0] for g in got), w, 'crossings of the fixed-point-free diagram')
        ctx.equal(text[1].split(), [BOX] * size, 'top of the wires of the fixed-point-free diagram', word=w)
        for k, (i, _, label, b) in enumerate(got, 1):
            ctx.equal(label, '%d' % k + (': ' + str(labels[k]) if labels else ''), 'label of row %d of the fixed-point-free diagram' % k, word=w)
            for x in range(1, size + 1):
                drawn = [b[t][4 * x - 4:4 * x].strip() for t in range(4)]
                ctx.equal(drawn[:3] == [BAR] * 3, x not in (i, i + 1), 'wire %d in row %d of the fixed-point-free diagram' % (x, k), word=w)
                ctx.equal(drawn[3], BOX, 'end of wire %d in row %d of the fixed-point-free diagram' % (x, k), word=w)
        for b in text[2 + 4 * len(w):4 + 4 * len(w)]:
            ctx.equal(b.split(), [BAR] * size, 'wires above the arcs of the fixed-point-free diagram', word=w)
        arcs = [(i, i + 1) for i in range(1, size, 2)]
        for a in w:
            arcs = [tuple(sorted(a + 1 if p == a else a if p == a + 1 else p for p in c)) for c in arcs]
        drawn = text[-4]
        for t, (p, q) in enumerate(arcs):
            want = any(p < c[0] < q for c in arcs)
            ctx.equal(drawn[8 * t:8 * t + 5], CUP if want else BOX + '   ' + BOX, 'arc %d of the fixed-point-free diagram' % (t + 1), word=w)
        ctx.ev('fpf', (w, labels))


KINDS = {'word': word}
