"""Generate MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'TLA+ specification checked by TLC; traces of the real code validated against it'
NOTES = {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read(), NOTES)
NOTES = NOTES['NOTES']
checks, na = [], []
with open(os.path.join(HERE, 'properties.jsonl')) as f:
    props = [json.loads(x) for x in f]
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'harness', 'check_%s.py' % pid.lower())):
        checks.append({'property': pid, 'quick_cmd': 'bin/check %s' % pid,
                       'thorough_cmd': 'VERIF_TIER=thorough bin/check %s' % pid,
                       'evidence_file': 'evidence/%s.json' % pid,
                       'technique': TECH, 'level': 'model_checking',
                       'level_note': NOTES.get(pid, 'Small scope enumerated by TLC, larger scope by seeded random traces; every trace judged by TLC.')})
    else:
        na.append({'property': pid, 'reason': 'not built yet: no check of this property has been written so far'})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(na), 'not yet')
