"""Writes DESIGN.md from the texts, the modules of the checks and the results on planted bugs."""
import ast
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants(path):
    out = {}
    for st in ast.parse(open(path).read()).body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            try:
                out[st.targets[0].id] = ast.literal_eval(st.value)
            except ValueError:
                pass
    return out


def counts(path):
    return re.findall(r"ctx\.cases\('(\w+)', (?:ctx\.n\((\w+)[^,]*, ([^)]*)\)|(\w+))", open(path).read())


texts = {}


def t(pid, technique, limits):
    texts[pid] = technique, limits


exec(open(os.path.join(V, 'tools', 'manifest_texts.py')).read(), {'t': t})
results = {}
p = os.path.join(V, 'tools', 'seed_results.txt')
if os.path.exists(p):
    for line in open(p):
        w = line.split()
        results[w[0]] = w[1]
out = [open(os.path.join(V, 'tools', 'design_head.md')).read(), '\n## Properties\n']
for line in open(os.path.join(V, 'properties.jsonl')):
    prop = json.loads(line)
    i = prop['id']
    path = os.path.join(V, 'tmv', 'checks', i.lower() + '.py')
    out.append('### {}. {}\n'.format(i, prop['title']))
    if not os.path.exists(path):
        out.append('Not claimed.\n')
        continue
    c = constants(path)
    out.append('*Method.* {}.\n'.format(texts[i][0][0].upper() + texts[i][0][1:]))
    out.append('*Workload and oracle.* {}\n'.format(c['RULE'][0].upper() + c['RULE'][1:]))
    cases = ['{} ({}/{})'.format(n, q or same, th or same) for n, q, th, same in counts(path)]
    cases = [re.sub(r' \(\D.*', '', x) for x in cases]
    if cases:
        out.append('*Scenarios (cases quick/thorough).* {}.\n'.format(', '.join(cases)))
    out.append('*Bounds.* {}\n'.format(texts[i][1]))
    if c.get('ASSUMPTIONS'):
        out.append('*Assumptions.* {}.\n'.format('; '.join(c['ASSUMPTIONS'])))
out.append('## Planted bugs and what catches them\n')
out.append('Each lies in seeded/<id>/ with a demonstration. "Caught" is the quick check of the property named in its '
           'meta.json exiting with 1.\n')
out.append('| bug | property | needs | caught |\n|---|---|---|---|')
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    out.append('| {} | {} | {} | {} |'.format(d, m['property'], str(m['needs']).replace('|', '/').replace('\n', ' '),
                                             results.get(d, '?')))
out.append('')
out.append(open(os.path.join(V, 'tools', 'design_misses.md')).read())
out.append(open(os.path.join(V, 'tools', 'design_tail.md')).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
