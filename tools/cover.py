"""Lines of the code under test that no monitored execution reaches: cover.py [property ...] (quick tier)."""
import ast
import glob
import os
import pickle
import subprocess
import sys
import tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(p)[:-3] for p in glob.glob(ROOT + '/vmon/props/[A-Z]*.py'))
seen = set()
for pid in ids:
    with tempfile.TemporaryDirectory() as d:
        r = subprocess.run([ROOT + '/run.sh', pid, '--tier', 'quick'], env=dict(os.environ, VERIF_COVER=d), capture_output=True, text=True)
        print(r.stdout.strip().split('\n')[-1][:150], file=sys.stderr)
        for f in glob.glob(d + '/*'):
            seen |= pickle.load(open(f, 'rb'))
for path in sorted(glob.glob('/repo/*.py')):
    name = os.path.basename(path)
    mine = {n for f, n in seen if f == name}
    try:
        tree = ast.parse(open(path).read())
    except SyntaxError:
        print(name, "is not a module")
        continue

    def walk(node, prefix):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                q = prefix + ch.name
                if isinstance(ch, ast.FunctionDef):
                    body = {s.lineno for b in ch.body for s in ast.walk(b) if isinstance(s, ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.Global, ast.Nonlocal))
                            and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))}
                    miss = sorted(body - mine)
                    if miss:
                        print('%s %s:%d %d/%d missing %s' % (name, q, ch.lineno, len(miss), len(body), 'ALL' if len(miss) == len(body) else miss[:12]))
                walk(ch, q + '.')
            elif isinstance(ch, (ast.If, ast.Try, ast.For, ast.With)):
                walk(ch, prefix)
    walk(tree, '')
