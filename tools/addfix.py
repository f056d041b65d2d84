#!/usr/bin/env python3
"""addfix.py PROP COMMIT text : record a repaired defect in known_findings.json"""
import json, sys
prop, commit, text = sys.argv[1:4]
p = '/verif/known_findings.json'
d = json.load(open(p))
d['findings'].append(dict(property=prop, status='fixed', commit=commit, line='fixed: property=%s %s %s' % (prop, commit, text)))
with open(p, 'w') as f:
    f.write('{\n "findings": [\n')
    f.write(',\n'.join('  ' + json.dumps(x) for x in d['findings']))
    f.write('\n ]\n}\n')
