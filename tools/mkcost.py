#!/usr/bin/env python3
# Record the cost of the last quick runs (evidence/) for DESIGN.md.
import json, glob, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
o = {}
for f in sorted(glob.glob('evidence/C*.json')):
    if f.count('.') > 1: continue
    e = json.load(open(f)); es = e['coverage']['entries']
    s = lambda k: sum(x.get(k, 0) for x in es)
    o[os.path.basename(f)[:-5]] = {'wall': round(s('wall_s')), 'paths': s('paths'), 'assertions': s('assertions_checked'), 'queries': s('queries'), 'solver': round(s('solver_s'))}
json.dump(o, open('tools/design/cost.json', 'w'), indent=1)
