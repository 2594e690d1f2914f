import random
from vmon import families as F
from vmon.props import I01

TITLE = 'Symplectic Hecke insertion is a bijection onto pairs of shifted tableaux'
RULE = ('words: every symplectic Hecke word of a length over an alphabet, in shuffled order; pairs: every (increasing shifted, standard '
        'shifted set-valued marked) pair of a size, inserted backwards; records: random words with random admissible records in both '
        'conventions. Non-trivial = at least two letters.')
REQUIRED = {'forward': 1500, 'backward': 600, 'record': 600, 'census': 8}
ROUNDS = (12, 40)
KIND = 'symplectic'


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 37)
    steps = []
    sizes = [(3, 4), (5, 4), (3, 7), (5, 5), (7, 4)]
    more = [(5, 6), (7, 5), (9, 4)]
    for k, m in sizes + (more if deep else []):
        steps.append(('words', k, m, rng.randrange(10 ** 8)))
    for k, m in sizes[:4] + (more[:2] if deep else []):
        steps.append(('pairs', k, m, rng.randrange(10 ** 8)))
    for i in range(300 if deep else 60):
        steps.append(('records', rng.randrange(10 ** 8)))
    rng.shuffle(steps)
    return F.split(steps, 24)


def words(ctx, k, m, seed):
    I01.words(ctx, k, m, seed, KIND)


def pairs(ctx, k, m, seed):
    I01.pairs(ctx, k, m, seed, KIND)


def records(ctx, seed):
    I01.records(ctx, seed, KIND)


KINDS = {'words': words, 'pairs': pairs, 'records': records}
