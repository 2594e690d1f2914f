import random
from vmon import view, ins, families as F
from vmon.props import I01

TITLE = 'Insertion steps can be traced and run backwards exactly'
RULE = ('trace: a random word is inserted letter by letter; every bumping step is logged, checked against the state invariants, and the '
        'inverse steps are logged from the recording letter and compared with the reversed forward log; chain: the same words in one call, '
        'split into several calls, and continued from stored pairs. Non-trivial = a bumping path of at least two steps.')
REQUIRED = {'step': 12000, 'backward': 3000, 'split': 300, 'state': 300}


def plan(tier, seed):
    rng = random.Random(seed + 61)
    deep = tier != 'quick'
    steps = []
    for i in range(400 if deep else 60):
        for kind in ('hecke', 'symplectic', 'orthogonal'):
            steps.append(('trace', kind, rng.randrange(10 ** 8)))
    rng.shuffle(steps)
    return F.split(steps, 24)


def machine(kind):
    from insertion import HState, FState
    return HState if kind == 'hecke' else FState


def random_word(rng, kind):
    k = rng.randrange(2, 10)
    m = rng.randrange(1, 24 if rng.random() < 0.2 else 10)
    word = I01.random_word(rng, kind, k, m) if rng.random() < .8 else I01.hostile_word(rng, kind)
    return tuple(2 * a for a in word) if kind == 'orthogonal' else word


def split_state(s):
    """(inner boxes, outer box, outer value)"""
    cells = I01.single(s.tableau)
    if s.outer is None:
        return cells, None, None
    v = cells.pop(tuple(s.outer))
    return cells, tuple(s.outer), v


def check_state(ctx, s, kind, first):
    """Invariants of one state of the machine."""
    inner, outer, v = split_state(s)
    shifted = kind != 'hecke'
    ctx.check(I01.is_shape(inner, shifted), 'the boxes of a state are not a partition shape', boxes=sorted(inner), outer=outer)
    rows, cols = max([i for i, j in inner], default=0), max([j for i, j in inner], default=0)
    ctx.equal(bool(s.is_terminal()), outer is None, 'is_terminal', outer=outer)
    ctx.equal(bool(s.is_initial()), outer is not None and outer[0] == 1, 'is_initial', outer=outer)
    for (i, j), a in inner.items():
        ctx.check((i, j + 1) not in inner or inner[i, j + 1] > a, 'a row of a state is not increasing', boxes=sorted(inner.items()))
        ctx.check((i + 1, j) not in inner or inner[i + 1, j] > a, 'a column of a state is not increasing', boxes=sorted(inner.items()))
    if outer is None:
        return
    ctx.check((outer[0] == rows + 2) != (outer[1] == cols + 2), 'the outer box is not outside the last row or column', outer=outer,
              rows=rows, cols=cols)
    ctx.equal(bool(s.has_outer_box_in_last_column()), outer[1] == cols + 2, 'has_outer_box_in_last_column', outer=outer)
    ctx.equal(bool(s.has_outer_box_in_last_row()), outer[0] == rows + 2, 'has_outer_box_in_last_row', outer=outer)
    t, a = s.pop()
    ctx.equal((I01.single(t), a), (inner, v), 'pop does not give the inner tableau and the outer letter')
    ctx.equal(set(s.boxes), set(inner) | {outer}, 'boxes of a state')
    ctx.check(outer in s and all(b in s for b in inner) and (rows + 5, cols + 5) not in s, 'membership in a state')
    ctx.equal(s.get(outer[0], outer[1]), v, 'letter in the outer box')
    ctx.equal(s.get(rows + 5, cols + 5, 'none'), 'none', 'default letter outside a state')
    ctx.ev('state', (kind, tuple(sorted(inner.items())), outer, v))


def trace(ctx, kind, seed):
    from tableaux import Tableau
    K = machine(kind)
    rng = random.Random(seed)
    for _ in range(8):
        word = random_word(rng, kind)
        p, q = Tableau(), Tableau()
        stored = []
        for k, a in enumerate(word):
            stored.append((p, q))
            state = K(p)
            start = state.add(a)
            check_state(ctx, start, kind, True)
            ctx.equal(start.outer[0], 1, 'the outer box of an initial state is not in the first row')
            log = [(start, None)]
            while True:
                nxt, box = log[-1][0].next()
                if box is None:
                    ctx.check(nxt == log[-1][0], 'a terminal state moved on')
                    break
                check_state(ctx, nxt, kind, False)
                before, o1, v1 = split_state(log[-1][0])
                after, o2, v2 = split_state(nxt)
                changed = [b for b in set(before) | set(after) if before.get(b) != after.get(b)]
                ctx.check(len(changed) <= 1, 'a step changed more than one box', word=word, changed=changed)
                if o2 is None:
                    ctx.check(all(b not in before for b in changed), 'a final step overwrote a letter', word=word, changed=changed)
                else:
                    ctx.check(tuple(box) in before, 'a bumping step names a box that is not there', word=word, box=box)
                    ctx.check(all(b in before and after.get(b) == v1 and b[0] + b[1] >= 2 for b in changed),
                              'a bumping step did not write the letter it inserts', word=word, changed=changed)
                    if kind != 'orthogonal' and kind != 'symplectic':
                        ctx.equal(v2, before[tuple(box)], 'the letter carried on is not the bumped one', word=word, box=box)
                for b in changed:
                    ctx.check(b == tuple(box), 'the box written is not the box reported', word=word, box=box, changed=b)
                log.append((nxt, box))
                ctx.ev('step', (kind, v1, o1, tuple(sorted(before.items()))), trivial=o2 is None)
                ctx.check(len(log) < 400, 'an insertion does not end', word=word)
            final, path = state.insert(a)
            ctx.check(final == log[-1][0] and hash(final) == hash(log[-1][0]), 'insert ends in another state than next', word=word)
            ctx.equal([tuple(b) for b in path], [tuple(b) for _, b in log[1:]], 'bumping path', word=word)
            ctx.check([(s, b) for s, b in start.path()] == log[1:], 'path does not list the steps', word=word)
            p2, q2 = K.insertion_tableaux(a, p=p, q=q)
            ctx.check(final.tableau == p2, 'insertion_tableaux and insert disagree', word=word)
            rest, record = q2.pop()
            ctx.check(rest == q, 'removing the newest recording letter does not give the older recording tableau', word=word)
            back, box = K(p2).previous(record)
            blog = [(back, box)]
            while not back.is_initial():
                back, box = back.previous()
                blog.append((back, box))
                ctx.check(len(blog) < 400, 'an inverse insertion does not end', word=word)
            blog.reverse()
            want = [(log[i][0], tuple(log[i + 1][1])) for i in range(len(log) - 1)]
            ctx.check(len(blog) == len(want), 'the inverse insertion has another number of steps', word=word)
            for (s, b), (t, c) in zip(blog, want):
                ctx.check(s == t, 'an inverse step leads to another state than the forward step left', word=word,
                          got=split_state(s), want=split_state(t))
                ctx.check(kind != 'hecke' or tuple(b) == c, 'an inverse step reports another box', word=word, got=b, path=[x for _, x in want])
            same, box = blog[0][0].previous()
            ctx.check(box is None and same == start, 'an initial state moved back', word=word)
            ctx.ev('backward', (kind, word[:k + 1]), trivial=len(want) < 2)
            p, q = p2, q2
        stored.append((p, q))
        whole = K.insertion_tableaux(*word)
        ctx.check(whole == (p, q) and K.insertion_tableaux(word) == (p, q), 'inserting a word at once and letter by letter disagree', word=word)
        cut = rng.randrange(len(word) + 1)
        first = K.insertion_tableaux(*word[:cut]) if cut else (Tableau(), Tableau())
        ctx.check(first == stored[cut], 'a prefix inserts to another pair', word=word, cut=cut)
        if cut < len(word):
            ctx.check(K.insertion_tableaux(*word[cut:], p=first[0], q=first[1]) == (p, q), 'continuing an insertion gives another pair',
                      word=word, cut=cut)
        ctx.equal(K.inverse_insertion(p, q), word, 'inverse insertion')
        ctx.ev('split', (kind, word, cut), trivial=len(word) < 2)


KINDS = {'trace': trace}
