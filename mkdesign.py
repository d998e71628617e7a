#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md, properties.jsonl and the planted bugs."""
import json, os, re
os.chdir('/verif')
props = [json.loads(l) for l in open('properties.jsonl') if l.strip()]
tech = json.load(open('checks.json'))
meth = {}
for l in re.split(r'^## ', open('design/methods.md').read(), flags=re.M)[1:]:
    k, b = l.split('\n', 1)
    meth[k.strip()] = b.strip()
out = [open('design/head.md').read().rstrip(), '']
for p in props:
    assert p['id'] in meth, p['id']
    out += [f"### {p['id']}  {p['title']}", '', f"Technique: {tech[p['id']]['technique']}. Where: {', '.join(p['anchors']['files'])}.", '', meth[p['id']], '']
out.append(open('design/tail1.md').read().strip())
out += ['', '## Planted bugs', '',
 'Each was written from the text of its property and the code alone, compiles, passes the tests and comes with',
 'a demonstration. "Caught by" is the quick check at seed 1. "At first" tells whether the check caught it when it was planted;',
 'where it did not, the check was strengthened as described.', '',
 '| bug | property | what it breaks | needs | at first | caught by |', '|---|---|---|---|---|---|']
res = json.load(open('design/caught.json'))
for b in sorted(os.listdir('seeded')) if os.path.isdir('seeded') else []:
    m = json.load(open(f'seeded/{b}/meta.json'))
    r = res.get(b, ['?', '?'])
    out.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {r[0]} | {r[1]} |")
out.append(''); out.append(open('design/tail2.md').read().strip())
open('DESIGN.md', 'w').write('\n'.join(out) + '\n')
