"""Writes DESIGN.md from tools/design_head.md, the registry, the modules, the latest evidence and the planted bugs."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
import registry
from design_notes import ORACLE

out = [open(HERE + '/design_head.md').read().rstrip(), '', '## The properties one by one', '']
for pid, p in sorted(registry.P.items()):
    m = importlib.import_module('vmon.props.' + pid)
    out += ['### %s %s' % (pid, p['title']), '', p['statement'], '',
            '- **Ranges over:** %s.' % p['text'],
            '- **Workload and monitors:** %s' % m.RULE,
            '- **Oracle:** %s' % ORACLE[pid],
            '- **Why tests do not settle it:** %s' % p['why'],
            '- **Observed at least** (else the run is inconclusive): %s.' % ', '.join('%s %d' % kv for kv in m.REQUIRED.items())]
    try:
        e = json.load(open(ROOT + '/evidence/%s.json' % pid))
        if e['tier'] == 'quick':
            c = e['coverage']
            out += ['- **Cost, quick tier:** %.0f s wall, %.0f CPU-s, %d sessions, %d evaluations, %d distinct non-trivial states.' % (
                e['wall_s'] + .5, c['cpu_s'] + .5, c['sessions'], c['evaluations'], c['distinct_nontrivial'])]
    except OSError:
        pass
    out += ['']
out += ['## Planted bugs', '', 'Each lies in `seeded/<id>/`, survives the whole test suite, and was confirmed with `tools/seed.py`.', '',
        '| bug | property | what it needs | caught by |', '|---|---|---|---|']
caught = json.load(open(HERE + '/caught.json'))
for bug in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open(ROOT + '/seeded/%s/meta.json' % bug))
    out += ['| %s | %s | %s | %s |' % (bug, m['property'], m['needs'].replace('|', '/'), caught.get(bug, m['property']))]
open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
