import os
import pickle
import random
from vmon import catalog
from vmon.core import Violation

TITLE = 'Results do not depend on what was computed before'
RULE = ('history: calls to the whole library, each answered once by a process that has computed nothing else, then made again in one process '
        'in random orders, repeatedly, with enumerations suspended, resumed and abandoned and earlier results read again. Non-trivial = '
        'a call answered differently from its neighbours.')
REQUIRED = {'cold': 1500, 'again': 1500, 'resumed': 100, 'reread': 500}
ROUNDS = (24, 60)


def plan(tier, seed):
    rng = random.Random(seed + 701)
    return [[('history', rng.randrange(10 ** 9), 30 if tier == 'quick' else 45)] for _ in range(40)]


def cold(name, args):
    """The outcome in a process that has done nothing but import the library."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(catalog.outcome(name, args), f)
            os._exit(0)
        except BaseException:
            os._exit(9)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status or not data:
        raise Violation('a single call in a fresh process ended abnormally', name=name, args=args, status=status)
    return pickle.loads(data)


def history(ctx, salt, count):
    rng = random.Random(salt)
    calls = catalog.queries(rng, count)
    wanted = []
    for name, args in calls:
        wanted.append(cold(name, args))
        ctx.ev('cold', (name, args), trivial=wanted[-1] in (None, ()))
    kept, live = [], []
    for _ in range(count * 4):
        i = rng.randrange(len(calls))
        name, args = calls[i]
        act = rng.random()
        if act < .4:
            ctx.equal(catalog.outcome(name, args), wanted[i], 'outcome of a call in a used process', name=name, args=args)
            ctx.ev('again', (name, args), trivial=wanted[i] in (None, ()))
        elif act < .65:
            _, prepare, call = catalog.build()[name]
            if wanted[i] and isinstance(wanted[i], tuple) and wanted[i][0] == 'raised':
                continue
            value = call(*prepare(*args))
            if hasattr(value, '__next__'):
                live.append([i, value, []])
            else:
                kept.append((i, value))
        elif act < .85 and live:
            j = rng.randrange(len(live))
            i, gen, seen = live[j]
            if rng.random() < .15 and len(seen) > 1:
                del live[j]
                continue
            for _ in range(rng.randrange(1, 6)):
                try:
                    seen.append(catalog.canon(next(gen)))
                except StopIteration:
                    finish(ctx, calls[i], seen, wanted[i])
                    del live[j]
                    break
        elif kept:
            i, value = rng.choice(kept)
            ctx.equal(catalog.canon(value), wanted[i], 'an earlier result read again', name=calls[i][0], args=calls[i][1])
            ctx.ev('reread', calls[i])
    rng.shuffle(live)
    for i, gen, seen in live:
        seen += [catalog.canon(x) for x in gen]
        finish(ctx, calls[i], seen, wanted[i])
    for i, value in kept:
        if not hasattr(value, '__next__'):
            ctx.equal(catalog.canon(value), wanted[i], 'an earlier result read at the end', name=calls[i][0], args=calls[i][1])
            ctx.ev('reread', calls[i])


def finish(ctx, call, seen, want):
    ctx.equal(('all', tuple(sorted(seen, key=repr))), want, 'an enumeration that was suspended and resumed', name=call[0], args=call[1])
    ctx.ev('resumed', call)


KINDS = {'history': history}
