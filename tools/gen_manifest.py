"""Writes /verif/MANIFEST.json from the checks that exist. Run from anywhere."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {}


def t(prop, technique, note):
    TECH[prop] = (technique, note)


exec(open(os.path.join(HERE, 'tools', 'manifest_texts.py')).read())

checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'tmv', 'checks', p.lower() + '.py')) and p in TECH:
        checks.append({
            'property': p,
            'quick_cmd': './run.sh {} --tier quick'.format(p),
            'thorough_cmd': './run.sh {} --tier thorough'.format(p),
            'technique': TECH[p][0], 'level': 'exploration', 'level_note': TECH[p][1]})
    else:
        missing.append({'property': p, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': missing,
     'notes': 'All machinery is Python in tmv/; it imports the code from /repo. No hooks in /repo: '
              'monitors wrap public calls and the simulators passed to the planners.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed,', len(missing), 'not claimed')
