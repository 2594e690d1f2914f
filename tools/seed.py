"""Confirm planted bugs in scratch copies: seed.py [--no-tests] id ...  (tests, demo with and without, and the property's own quick check)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def tests(copy, out):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8')
    env.pop('PYTHONPATH', None)
    runs = [('default', 100, ['-m', 'not slow', 'tests']),
            ('slow', 300, ['--runslow', '-m', 'slow'] + ['tests/test_%s.py' % x for x in (
                'conjectures_signed', 'conjectures_operators', 'conjectures_fpf', 'crystals', 'symmetric')])]
    ps = [subprocess.Popen(['timeout', '-k', '10', '800', PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '4', '--timeout=%d' % limit,
                            '--continue-on-collection-errors', '--tb=line', '--show-capture=no', '-W', 'ignore', '-o', 'junit_family=xunit2',
                            '-o', 'junit_logging=no', '--junitxml=%s/%s.xml' % (out, name)] + args, cwd=copy, env=env,
                           stdin=subprocess.DEVNULL, stdout=open('%s/%s.log' % (out, name), 'w'), stderr=subprocess.STDOUT)
          for name, limit, args in runs]
    for p in ps:
        p.wait()
    good = set()
    for name, _, _ in runs:
        for c in ET.parse('%s/%s.xml' % (out, name)).getroot().iter('testcase'):
            if not any(c.find(k) is not None for k in ('failure', 'error', 'skipped')):
                good.add(c.get('classname') + '::' + c.get('name'))
                good.add(c.get('classname').replace('.', '/') + '.py::' + c.get('name'))
    return sorted(STABLE - good)


def demo(d, copy):
    lay = tempfile.mkdtemp(prefix='demo.')
    for f in os.listdir(d):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
            shutil.copy(os.path.join(d, f), lay)
    r = subprocess.run(['bash', os.path.join(lay, 'demo.sh')], cwd=copy, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=300)
    shutil.rmtree(lay)
    return r.returncode, (r.stdout + r.stderr)[-300:]


with_tests = '--no-tests' not in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(ROOT + '/seeded'))
for bug in ids:
    d = os.path.join(ROOT, 'seeded', bug)
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='seed.')
    copy = tmp + '/repo'
    subprocess.run(['cp', '-a', '/repo', copy], check=True)
    row = [bug, meta['property']]
    try:
        row.append('demo0=%d' % demo(d, copy)[0])
        r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=copy, capture_output=True, text=True)
        if r.returncode:
            print(row, 'PATCH DOES NOT APPLY', r.stderr)
            continue
        code, text = demo(d, copy)
        row.append('demo1=%d' % code)
        env = dict(os.environ, VERIF_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick')
        r = subprocess.run([ROOT + '/run.sh', meta['property']], env=env, capture_output=True, text=True)
        row.append('CAUGHT' if 'VIOLATION property=' + meta['property'] in r.stdout and r.returncode == 1 else 'MISSED rc=%d' % r.returncode)
        row.append(r.stdout.strip().split('\n')[0][:110])
        if with_tests:
            row.append('tests lost: %s' % tests(copy, tmp))
    finally:
        shutil.rmtree(tmp)
    print(row, flush=True)
