"""Small random changes to the code under test in scratch copies, run against the checks that execute the changed line.

mutate.py cover DIR                  record which check runs which lines
mutate.py run DIR COUNT SEED [file|-] [N]  make COUNT changes; survivors are appended to DIR/survivors.txt;
with N the change takes effect in one of N local states, with -K in those in which something has K or more elements"""
import ast
import glob
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile
import time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = sorted(os.path.basename(p)[:-3] for p in glob.glob(ROOT + '/vmon/props/[A-Z]*.py'))
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in'}


def cover(out):
    for pid in IDS:
        d = tempfile.mkdtemp()
        t = time.time()
        subprocess.run([ROOT + '/run.sh', pid, '--tier', 'quick'], env=dict(os.environ, VERIF_COVER=d), capture_output=True)
        t = time.time() - t
        seen = set()
        for f in glob.glob(d + '/*'):
            seen |= pickle.load(open(f, 'rb'))
        shutil.rmtree(d)
        pickle.dump((t, seen), open('%s/%s.cov' % (out, pid), 'wb'))


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for x in src.encode().split(b'\n'):
        starts.append(starts[-1] + len(x) + 1)
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    for n in ast.walk(tree):
        for m in ast.iter_child_nodes(n):
            m.parent = n
    for n in ast.walk(tree):
        if not hasattr(n, 'lineno'):
            continue
        p = n
        inside = False
        names = {}
        while hasattr(p, 'parent'):
            p = p.parent
            if isinstance(p, ast.Assert) or (isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == 'print'):
                break
            inside = inside or isinstance(p, ast.FunctionDef)
            if isinstance(p, ast.FunctionDef) and not names and isinstance(n, ast.Name):
                names = {a.arg: p for a in p.args.args} | {x.id: p for x in ast.walk(p) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        else:
            if not inside:
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
                yield n.lineno, span(n), '%s %s %s' % (text(n.left), SWAP[type(n.ops[0])], text(n.comparators[0]))
            elif isinstance(n, ast.BoolOp):
                op = ' or ' if isinstance(n.op, ast.And) else ' and '
                yield n.lineno, span(n), '(' + op.join(text(v) for v in n.values) + ')'
                for k in range(len(n.values)):
                    yield n.lineno, span(n), '(' + (' and ' if op == ' or ' else ' or ').join(text(v) for i, v in enumerate(n.values) if i != k) + ')'
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
                yield n.lineno, span(n), '%s %s %s' % (text(n.left), '-' if isinstance(n.op, ast.Add) else '+', text(n.right))
                yield n.lineno, span(n), '(%s)' % text(n.left)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
                yield n.lineno, span(n), '(%s)' % text(n.left)
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                yield n.lineno, span(n), '(%d)' % (n.value + 1)
                yield n.lineno, span(n), '(%d)' % (n.value - 1)
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                yield n.lineno, span(n), str(not n.value)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                yield n.lineno, span(n), '(%s)' % text(n.operand)
            elif isinstance(n, ast.If) and not n.orelse or isinstance(n, ast.While):
                yield n.lineno, span(n.test), 'False'
                if isinstance(n, ast.If):
                    yield n.lineno, span(n.test), 'True'
            elif isinstance(n, ast.IfExp):
                yield n.lineno, span(n), '(%s)' % text(n.body)
                yield n.lineno, span(n), '(%s)' % text(n.orelse)
            elif isinstance(n, (ast.AugAssign, ast.Continue, ast.Break)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                yield n.lineno, span(n), 'pass'
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'any', 'all', 'sorted', 'abs', 'reversed'):
                other = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'sorted': 'list', 'abs': '', 'reversed': 'list'}[n.func.id]
                yield n.lineno, span(n.func), other
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and names.get(n.id) is not None:
                near = sorted(k for k, at in names.items() if k != n.id and at is names[n.id])
                if near:
                    yield n.lineno, span(n), near[(span(n)[0] * 7) % len(near)]
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr == 'copy':
                yield n.lineno, span(n.parent), text(n.value)
            elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.BoolOp):
                yield n.lineno, span(n.value), 'True'
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in n.generators:
                    for c in g.ifs:
                        yield c.lineno, span(c), 'True'


PICK = """
def _vm_pick(names, _crc=__import__('zlib').crc32):
    text = repr([(k, v) for k, v in sorted(names.items()) if type(v) in (int, str, tuple, list, dict, bool)])
    return ' at 0x' not in text and _crc(text.encode()) %% %d == 0
"""
BIG = """
def _vm_pick(names):
    return any((len(v) >= %d if hasattr(v, '__len__') else type(v) is int and v >= %d) for k, v in names.items() if k != 'cls' and type(v) is not str)
"""


IDENTITY = """
def _vm_eq(a, b):
    return a is b if type(a) is int and type(b) is int else a == b
"""


def identity_mutants(src):
    """Comparisons of integers by identity, which is only right for small ones."""
    tree = ast.parse(src)
    starts = [0]
    for x in src.encode().split(b'\n'):
        starts.append(starts[-1] + len(x) + 1)
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in (ast.Eq, ast.NotEq):
            if isinstance(n.comparators[0], ast.Constant):
                continue
            l, r = (raw[slice(*span(x))].decode() for x in (n.left, n.comparators[0]))
            yield n.lineno, span(n), '(%s_vm_eq(%s, %s))' % ('not ' * isinstance(n.ops[0], ast.NotEq), l, r)


def run(out, count, seed, only=None, part=0):
    """With part = N each change takes effect for one in N of the local states in which the changed expression is evaluated,
    with part = -K in those in which something has K or more elements."""
    rng = random.Random(seed)
    cov = {pid: pickle.load(open('%s/%s.cov' % (out, pid), 'rb')) for pid in IDS if os.path.exists('%s/%s.cov' % (out, pid))}
    pool = []
    for path in sorted(glob.glob('/repo/*.py')):
        name = os.path.basename(path)
        if name in ('scrap.py',) or (only and name not in only.split(',')):
            continue
        src = open(path).read()
        for line, (a, b), new in (identity_mutants if part == 'is' else mutants)(src):
            pool.append((name, line, a, b, new))
    rng.shuffle(pool)
    print(len(pool), 'possible changes')
    tmp = tempfile.mkdtemp(prefix='mut.')
    copy = tmp + '/repo'
    os.mkdir(copy)
    for p in glob.glob('/repo/*.py') + ['/repo/README.md']:
        shutil.copy(p, copy)
    tally = {'caught': 0, 'survived': 0, 'uncovered': 0, 'broken': 0}
    try:
        for name, line, a, b, new in pool:
            if count <= 0:
                break
            raw = open('/repo/' + name, 'rb').read()
            extra = b''
            if part == 'is':
                extra = IDENTITY.encode()
            elif part:
                extra = (BIG % (-part, -part + 1) if part < 0 else PICK % part).encode()
                if new == 'pass' or not new.strip():
                    continue
                new = '((%s) if _vm_pick(locals()) else (%s))' % (new, raw[a:b].decode())
            mut = raw[:a] + new.encode() + raw[b:] + extra
            try:
                compile(mut, name, 'exec')
            except SyntaxError:
                continue
            count -= 1
            todo = sorted((t, pid) for pid, (t, seen) in cov.items() if (name, line) in seen)
            what = '%s:%d  %s  ->  %s' % (name, line, raw[a:b].decode().replace('\n', ' ')[:100], new[:100].replace('\n', ' '))
            if not todo:
                tally['uncovered'] += 1
                continue
            with open(copy + '/' + name, 'wb') as f:
                f.write(mut)
            verdict = None
            for t, pid in todo:
                env = dict(os.environ, VERIF_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick', VERIF_WALL=os.environ.get('MUT_WALL', '100'), VERIF_WORKERS=os.environ.get('MUT_WORKERS', '6'), VERIF_NOEVIDENCE='1')
                try:
                    r = subprocess.run([ROOT + '/run.sh', pid], env=env, capture_output=True, text=True, timeout=160)
                    if r.returncode:
                        verdict = pid if r.returncode == 1 else pid + '?'
                        break
                except subprocess.TimeoutExpired:
                    verdict = pid + '?'
                    break
            shutil.copy('/repo/' + name, copy)
            if verdict:
                tally['caught'] += 1
            else:
                tally['survived'] += 1
                with open(out + '/survivors.txt', 'a') as f:
                    f.write('%s   [%s]\n' % (what, ' '.join(p for _, p in todo)))
                with open(out + '/survivors.jsonl', 'a') as f:
                    f.write(json.dumps([name, line, raw[:a].decode() + '\0' + raw[a:b].decode() + '\0' + raw[b:].decode(), new, what, todo]) + '\n')
            with open(out + '/log.txt', 'a') as f:
                f.write('%s  %s\n' % (verdict, what))
    finally:
        shutil.rmtree(tmp)
    print(tally)


def again(path):
    """The recorded survivors against the checks as they are now."""
    tmp = tempfile.mkdtemp(prefix='mut.')
    copy = tmp + '/repo'
    os.mkdir(copy)
    for p in glob.glob('/repo/*.py') + ['/repo/README.md']:
        shutil.copy(p, copy)
    keep = []
    for row in open(path).read().splitlines():
        name, line, text, new, what, todo = json.loads(row)
        before, old, after = text.split('\0')
        body = before + new + after
        if '_vm_pick(locals())' in new:
            body += PICK_SOURCE(int(os.environ.get('MUT_PART', '-4')))
        if before + old + after != open('/repo/' + name).read():
            print('stale', what)
            continue
        open(copy + '/' + name, 'w').write(body)
        verdict = None
        for t, pid in todo:
            env = dict(os.environ, VERIF_REPO=copy, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick', VERIF_WALL='200', VERIF_NOEVIDENCE='1')
            r = subprocess.run([ROOT + '/run.sh', pid], env=env, capture_output=True, text=True)
            if r.returncode:
                verdict = pid
                break
        shutil.copy('/repo/' + name, copy)
        print(verdict, what, flush=True)
        if not verdict:
            keep.append(row)
    open(path, 'w').write(''.join(r + '\n' for r in keep))
    shutil.rmtree(tmp)


def PICK_SOURCE(part):
    return BIG % (-part, -part + 1) if part < 0 else PICK % part


if sys.argv[1] == 'again':
    again(sys.argv[2])
elif sys.argv[1] == 'cover':
    cover(sys.argv[2])
else:
    run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5] if len(sys.argv) > 5 and sys.argv[5] != '-' else None,
        (sys.argv[6] if sys.argv[6] == 'is' else int(sys.argv[6])) if len(sys.argv) > 6 else 0)
