"""Writes properties.jsonl and MANIFEST.json from tools/registry.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import registry

NOTE = ('Observes real executions of the library in freshly forked processes; an independent oracle judges every observed value; '
        'bounded by the shapes, words and histories the workload generates.')
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for pid, p in sorted(registry.P.items()):
        f.write(json.dumps({'id': pid, 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': p['mechanism'], 'where': ', '.join(p['files'])}]}}) + '\n')
checks = []
for pid, p in sorted(registry.P.items()):
    if not os.path.exists(os.path.join(ROOT, 'vmon', 'props', pid + '.py')):
        print('no module for', pid)
        continue
    checks.append({'property': pid, 'quick_cmd': './run.sh %s --tier quick' % pid, 'thorough_cmd': './run.sh %s --tier thorough' % pid,
                   'technique': 'runtime monitoring: online monitors with an independent oracle over generated workloads and histories',
                   'level': 'exploration', 'level_note': p['note'] or NOTE})
manifest = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': []}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
for name in sorted(os.listdir(os.path.join(ROOT, 'vmon', 'props'))):
    if name[0].isupper() and name[:-3] not in registry.P:
        print('module without a property:', name)
