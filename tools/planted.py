#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# What was missing when a change was first tried.
MISSED = {
    'p05-nested-context': 'corruption "two left contexts"',
    'p06-recursive-context': '2 MiB stack, framed long texts',
    'p09-size-cap': '`huge` raised to 12 million symbols',
    'p10-sixteen-bits': '`rare`',
    'p27-trusts-hint': 'inexact iterators',
    'p10-fixpoint': '`chain`',
    'p26-same-length': 'files of the same length',
    'p26-short-write': 'file size limit',
    'p14-listed-twice': 'listings of the builder',
    'p29-swallowed-error': 'inner interpretations that refuse',
    'p07-unordered-long': 'long contexts',
}
rows = {}
for d in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.setdefault(m['property'], []).append((d, m))
out = ['| Caught by | Change | Needs |', '| --- | --- | --- |']
for p in sorted(rows):
    for d, m in rows[p]:
        more = f' (first missed: {MISSED[d]})' if d in MISSED else ''
        out.append(f"| {p} | {d[4:]} | {m['needs'].replace('|', '/')}{more} |")
text = open(f'{V}/DESIGN.md').read()
table = '\n'.join(out)
if 'PLANTED\n' in text:
    text = text.replace('PLANTED\n', f'<!-- planted -->\n{table}\n<!-- /planted -->\n')
else:
    text = re.sub(r'<!-- planted -->\n.*\n<!-- /planted -->\n', lambda _: f'<!-- planted -->\n{table}\n<!-- /planted -->\n', text, flags=re.S)
open(f'{V}/DESIGN.md', 'w').write(text)
print(sum(map(len, rows.values())), 'changes')
