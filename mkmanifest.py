#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the rule modules present in sa/rules."""
import json, os, re
R = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
NA = json.load(open(os.path.join(R, 'not_applicable.json')))
LEVEL = json.load(open(os.path.join(R, 'levels.json'))) if os.path.exists(os.path.join(R, 'levels.json')) else {}
checks, na = [], []
for p in props:
    i = p['id']
    m = os.path.join(R, 'sa/rules', i.lower() + '.py')
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(m):
        src = open(m).read()
        doc = re.match(r'"""(.*?)"""', src, re.S).group(1).strip()
        rule = re.search(r"^RULE = '(.*)'", src, re.M)
        checks.append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s thorough' % i,
                       'technique': 'abstract interpretation of compiler IR (MIR): ' + (rule.group(1) if rule else doc.split('\n')[0]),
                       'level': 'other',
                       'level_note': LEVEL.get(i, ' '.join(doc.split('\n\n', 1)[-1].split()))})
    else:
        na.append({'property': i, 'reason': 'no rule has been built for it yet'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
