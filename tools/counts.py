#!/usr/bin/env python3
"""Write the number of cases of the last quick runs into the table of DESIGN.md."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, 'DESIGN.md')
text = open(path).read()
for f in sorted(glob.glob(os.path.join(here, 'evidence', 'C*.json'))):
    d = json.load(open(f))
    if d['tier'] != 'quick' or d['violations']:
        continue
    n = d['coverage']['evaluations']
    text = re.sub(r'(?m)^(\| %s \|.*\| )\d+(: [^|]*\|)$' % d['property'], lambda m: m[1] + str(n) + m[2], text)
open(path, 'w').write(text)
