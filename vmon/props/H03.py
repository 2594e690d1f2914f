import os
import pickle
import random
import subprocess
import sys
from vmon import catalog
from vmon.core import Violation

TITLE = 'Results and printed forms are the same in every process'
RULE = ('process: the same calls to the whole library in processes with different hash seeds and memory layouts; values and the text of '
        'polynomials, vectors, tableaux and permutations are compared. Non-trivial = every call.')
REQUIRED = {'call': 1000, 'text': 150}
ROUNDS = (8, 30)


def plan(tier, seed):
    rng = random.Random(seed + 703)
    return [[('process', rng.randrange(10 ** 9), 120, rng.randrange(1, 10 ** 6))] for _ in range(16)]


def process(ctx, salt, count, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), VMON_PAD='x' * (hashseed % 977))
    p = subprocess.run([sys.executable, '-m', 'vmon.catalog', str(salt), str(count)], env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise Violation('the calls did not finish in another process', stderr=p.stderr.decode()[-1500:], hashseed=hashseed)
    other = pickle.loads(p.stdout)
    mine = catalog.transcript(salt, count)
    ctx.equal(len(other), len(mine), 'number of calls made')
    for (name, args, t, c), (_, args2, t2, c2) in zip(mine, other):
        assert args == args2, (args, args2)
        ctx.equal(c2, c, 'value in a process with another hash seed', name=name, args=args, hashseed=hashseed)
        ctx.equal(t2, t, 'text in a process with another hash seed', name=name, args=args, hashseed=hashseed)
        ctx.ev('call', (name, args))
        if t is not None:
            ctx.ev('text', (name, args))


KINDS = {'process': process}
