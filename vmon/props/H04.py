import ast
import os
import random
import re
from vmon import ref, view, catalog, families as F
from vmon.core import REPO
from vmon.props import P06, S03

TITLE = 'The documented short names compute what the documentation says'
RULE = ('name: each name of the utils module against the definition of the polynomial it names; expand: each named expansion of a random '
        'combination; readme: the program of the README run statement by statement, every value checked. Non-trivial = a non-zero value.')
REQUIRED = {'name': 300, 'expand': 60, 'readme': 25, 'permutation': 40, 'ribbon': 20, 'serialize': 20}
ROUNDS = (12, 20)
NAMES = {'s': 's', 'schur': 's', 'P': 'P', 'schur_P': 'P', 'Q': 'Q', 'schur_Q': 'Q', 'S': 'S', 'schur_S': 'S', 'G': 'G', 'grothendieck': 'G',
         'GP': 'GP', 'grothendieck_P': 'GP', 'GQ': 'GQ', 'grothendieck_Q': 'GQ', 'GS': 'GS', 'grothendieck_S': 'GS', 'g': 'g',
         'dual_grothendieck': 'g', 'gp': 'gp', 'dual_grothendieck_P': 'gp', 'gq': 'gq', 'dual_grothendieck_Q': 'gq', 'gs': 'gs',
         'j': 'j', 'jp': 'jp', 'jq': 'jq', 'js': 'js'}
FLIPPED = {'mn_G': 'G', 'mn_GP': 'GP', 'mn_GQ': 'GQ', 'mp_g': 'g', 'mp_gp': 'gp', 'mp_gq': 'gq'}
BAR = {'G_doublebar': 'G', 'GP_doublebar': 'GP', 'GQ_doublebar': 'GQ', 'GS_doublebar': 'GS'}
EXPAND = {'schur_expansion': 's', 'G_expansion': 'G', 'g_expansion': 'g', 'j_expansion': 'j', 'gp_expansion': 'gp', 'gq_expansion': 'gq',
          'mp_g_expansion': 'mp_g', 'mp_gp_expansion': 'mp_gp', 'mp_gq_expansion': 'mp_gq', 'mn_G_expansion': 'mn_G',
          'mn_GP_expansion': 'mn_GP', 'mn_GQ_expansion': 'mn_GQ', 'jp_expansion': 'jp', 'jq_expansion': 'jq', 'GP_expansion': 'GP',
          'GQ_expansion': 'GQ', 'P_expansion': 'P', 'Q_expansion': 'Q'}


def plan(tier, seed):
    rng = random.Random(seed + 704)
    steps = [('name', name, rng.randrange(10 ** 9)) for name in list(NAMES) + list(FLIPPED) + list(BAR) for _ in range(5)]
    steps += [('expand', name, rng.randrange(10 ** 9)) for name in EXPAND for _ in range(3)]
    steps += [('permutation', kind, rng.randrange(10 ** 9)) for kind in ('ordinary', 'fpf', 'signed') for _ in range(8)]
    steps += [('ribbon', rng.randrange(10 ** 9)) for _ in range(20)]
    rng.shuffle(steps)
    return [[('readme', 3 if tier == 'quick' else rng.choice((3, 4)))]] + F.split(steps, 15)


def name(ctx, alias, salt):
    import utils
    rng = random.Random(salt)
    f = getattr(utils, alias)
    fam = NAMES.get(alias) or FLIPPED.get(alias) or BAR.get(alias)
    lam = rng.choice(F.shapes(fam, 5 if fam in F.STRICT else 4))
    mu = rng.choice(((), rng.choice(sorted(ref.subpartitions(lam, fam in F.STRICT)))))
    n = rng.randrange(0, 4)
    if alias in BAR:
        want = {}
        for nu, k in S03.corner_subsets(mu, fam in F.STRICT):
            for al, d in F.exact(fam, n, lam, nu).items():
                t = want.setdefault(al, {})
                for e, c in d.items():
                    t[e + k] = t.get(e + k, 0) + c
        ctx.equal(view.sym(f(n, lam, mu)), want, 'value of a documented name', name=alias, n=n, lam=lam, mu=mu)
        ctx.ev('name', (alias, n, lam, mu), trivial=not want)
        return
    if fam[0] == 'j':
        lam = rng.choice([x for x in F.shapes(fam, 3)])
        mu = ()
    got = F.observe_exact(ctx, fam, n, lam, mu, fn=f, flip=alias in FLIPPED)
    ctx.ev('name', (alias, n, lam, mu), trivial=not view.sym(got))
    if fam in ('G', 'GP', 'GQ', 'GS') and alias in NAMES:
        bound = sum(lam) - sum(mu) + rng.randrange(-1, 3)
        want = {al: d for al, d in F.exact(fam, n, lam, mu).items() if sum(al) <= bound}
        for cut in (f(n, lam, mu, bound), f(n, lam, mu, degree_bound=bound)):
            ctx.equal(view.sym(cut), want, 'degree-bounded value of a documented name', name=alias, n=n, lam=lam, mu=mu, bound=bound)


def expand(ctx, alias, salt):
    import utils
    from tableaux import Tableau
    rng = random.Random(salt)
    made = EXPAND[alias]
    fam = NAMES.get(made) or FLIPPED[made]
    n = rng.choice((2, 3))
    shapes = [x for x in F.shapes(fam, 4 if fam in F.STRICT else 3) if len(x) <= n]
    want, f = {}, 0
    for lam in rng.sample(shapes, 3):
        c = rng.choice((-2, -1, 1, 3))
        want[lam] = {0: c}
        f = f + getattr(utils, made)(n, lam) * c
    ctx.equal(view.vec(getattr(utils, alias)(f)), want, 'expansion by a documented name', name=alias, n=n)
    ctx.ev('expand', (alias, n, tuple(sorted(want))))
    rows = [(tuple(mu), k, catalog.canon(c)) for (mu, k), c in (f.serialize() if f else ())]
    ctx.equal(sorted(rows, key=repr), sorted(((m.index(), m.order(), catalog.canon(c)) for m, c in f.items()), key=repr),
              'serialized polynomial', name=made)
    t = rng.choice(list(Tableau.semistandard_setvalued(2, (2, 1))))
    ctx.equal(dict(t.serialize()), {(i, j): v for i, j, v in t}, 'serialized tableau')
    ctx.ev('serialize', (alias, salt))


def permutation(ctx, kind, salt):
    import utils
    from permutations import Permutation as W
    rng = random.Random(salt)
    z = (catalog.perm(rng, rng.choice((2, 3, 4))) if kind == 'ordinary' else catalog.involution(rng, rng.choice((2, 4)), fpf=True)
         if kind == 'fpf' else catalog.involution(rng, 2, sign=True))
    k = rng.choice((1, 2))
    fs = {'ordinary': ('G', 'grothendieck'), 'fpf': ('GP', 'grothendieck_P'), 'signed': ('GS', 'grothendieck_S')}[kind]
    for alias in fs:
        f = getattr(utils, alias)(k, W(*z))
        got = view.sym(f)
        for pts, b in zip(F.POINTS, F.BETAS):
            xs = pts[:k]
            ctx.equal(view.eval_sym(got, xs, b), P06.transfer(kind, z[:len(ref.strip(z))], xs, b), 'value of a documented name at a permutation',
                      name=alias, z=z, variables=k)
        top = rng.randrange(0, 5)
        ctx.equal(view.sym(getattr(utils, alias)(k, W(*z), degree_bound=top)), {al: d for al, d in got.items() if sum(al) <= top},
                  'degree-bounded value at a permutation', name=alias, z=z, bound=top)
        ctx.ev('permutation', (alias, z, k), trivial=not got)


def ribbon(ctx, salt):
    import utils
    rng = random.Random(salt)
    top = rng.choice((4, 4, 30))
    alpha = [rng.randrange(1, top) for _ in range(rng.randrange(1, rng.choice((5, 12))))]
    mu, nu = utils.shifted_ribbon(rng.choice((list, tuple))(alpha))
    ctx.equal(tuple(a - b for a, b in zip(mu, tuple(nu) + (0,))), tuple(alpha), 'rows of a ribbon', alpha=alpha)
    ctx.equal(tuple(nu), tuple(mu[1:]), 'neighbouring rows of a shifted ribbon share one diagonal', alpha=alpha)
    ctx.ev('ribbon', tuple(alpha))


TABLEAUX = {'semistandard': (False, {}), 'semistandard_setvalued': (False, dict(setvalued=True)), 'semistandard_rpp': (False, dict(rpp=True)),
            'semistandard_shifted': (True, dict(marked=True)), 'semistandard_shifted_setvalued': (True, dict(marked=True, setvalued=True)),
            'semistandard_shifted_rpp': (True, dict(marked=True, rpp=True))}


def readme(ctx, n):
    blocks = re.findall(r'```python3?\n(.*?)```', open(os.path.join(REPO, 'README.md')).read(), re.S)
    ctx.check(blocks, 'the README shows how to use the library')
    for block in blocks:
        env = {}
        own = {}
        for node in ast.parse(block).body:
            code = compile(ast.Module([node], []), 'README.md', 'exec')
            if isinstance(node, ast.Expr):
                value = eval(compile(ast.Expression(node.value), 'README.md', 'eval'), env)
            else:
                exec(code, env)
                target = node.targets[0].id if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) else None
                if target == 'n':
                    env['n'] = n
                value = env.get(target)
            expr = getattr(node, 'value', None)
            if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and expr.func.id in NAMES and expr.func.id not in own:
                args = [eval(compile(ast.Expression(a), 'README.md', 'eval'), env) for a in expr.args]
                ctx.equal(view.sym(value), F.exact(NAMES[expr.func.id], *args), 'value of a README statement', statement=ast.unparse(node))
                ctx.ev('readme', ast.unparse(node))
            elif isinstance(expr, ast.Call) and isinstance(expr.func, ast.Attribute) and expr.func.attr in TABLEAUX:
                shifted, opts = TABLEAUX[expr.func.attr]
                args = [eval(compile(ast.Expression(a), 'README.md', 'eval'), env) for a in expr.args]
                opts = dict(opts, **{k.arg: k.value.value for k in expr.keywords})
                value = list(value)
                env[node.targets[0].id] = value
                want = sum(ref.tableau_gf(ref.cells(args[1], (), shifted), args[0], **opts).values())
                ctx.equal((len(set(value)), len(value)), (want, want), 'number of tableaux of a README statement', statement=ast.unparse(node))
                ctx.ev('readme', ast.unparse(node), trivial=not want)
            elif isinstance(expr, ast.Compare):
                a, b = (eval(compile(ast.Expression(x), 'README.md', 'eval'), env) for x in (expr.left, expr.comparators[0]))
                ctx.equal(value, view.sym(a) == view.sym(b), 'comparison in the README', statement=ast.unparse(node))
                ctx.ev('readme', ast.unparse(node))
            else:
                ctx.ev('readme', ast.unparse(node))
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                own[node.targets[0].id] = True


KINDS = {'name': name, 'expand': expand, 'permutation': permutation, 'ribbon': ribbon, 'readme': readme}
