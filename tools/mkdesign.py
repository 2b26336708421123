#!/usr/bin/env python3
# Write DESIGN.md from tools/design, checks.json, properties.jsonl, evidence and seeded.
import json, os, glob
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
os.chdir(root)
D = 'tools/design/'
props = [json.loads(l) for l in open('properties.jsonl')]
checks = json.load(open('checks.json'))
txt = json.load(open(D + 'props.json'))
cost = json.load(open(D + 'cost.json'))
out = [open(D + 'head.md').read()]
for p in props:
    i = p['id']
    c = checks[i]
    out.append(f"\n### {i} {p['title']}\n\n*How decided.* {txt[i]['how']}\n\n*Oracle.* {txt[i]['oracle']}\n\n*Bounds (quick).*\n")
    for e in c['entries']:
        out.append(f"- `{e['entry']}`: {e['what']}\n")
    out.append(f"\n*Outside.* {'; '.join(c['outside'])}.\n\n*Why beyond tests.* {p['why_tests_cant']}\n")
    k = cost.get(i)
    if k:
        out.append(f"\n*Cost.* {k['wall']} s wall, {k['paths']} paths, {k['assertions']} assertions, {k['queries']} solver queries ({k['solver']} s of solver time).\n")
tail = open(D + 'tail.md').read()
missed = json.load(open(D + 'missed.json'))
rows = ['| id | property | needs | breaks |', '|----|----|----|----|']
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append(f"| {d.split('/')[1]} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
tail = tail.replace('@SEEDS@', '\n'.join(rows))
tail = tail.replace('@MISSED@', '\n'.join(f'- `{k}`: {v}' for k, v in missed.items()))
for k in ('MUTANTS', 'REFS'):
    f = D + k.lower() + '.txt'
    tail = tail.replace(f'@{k}@', open(f).read().strip('\n') if os.path.exists(f) else '')
out.append(tail)
open('DESIGN.md', 'w').write(''.join(out))
