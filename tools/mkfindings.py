#!/usr/bin/env python3
"""Writes known_findings.txt: the fix commits of /repo, and the findings in FINDINGS (below)."""
import os, re, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
FINDINGS = []   # (property, regex of the key, text)
import sys; sys.path.insert(0, HERE + '/../lib')
from families import FAMILIES
FAM = {n: f for f, l in FAMILIES.items() for n in (l if isinstance(l, (list, tuple, set, dict)) else [])}
RULES = [(r'before they were set', 'C23'), (r'failed alloc|failed ti_buffer|leak the stream|as what it is', 'C07'), (r'codegen', 'C12'), (r'binding', 'C11'), (r'ring buffer', 'C10'),
         (r'validate|accepted periods|for an invalid option|accepted others', 'C06'), (r'_ref (threw|read|wrote|allocated|truncated|of |did|took)|_ref\b', 'C22'),
         (r'(wrote one output too many|wrote five|left out the last|read past|read before|read and wrote|counted fractional|uninitialised|outside its)', 'C03'), (r'_stream', 'C01')]
L = []
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.split('\n'):
    m = re.match(r'(\w+) fix: (.*)', l)
    if not m: continue
    p = next((p for r, p in RULES if re.search(r, m.group(2))), None)
    if not p:
        w = m.group(2).split()
        p = next((FAM[x] for x in w if x in FAM), 'C14')
    L.append('fixed: property=%s %s %s' % (p, m.group(1), m.group(2)))
with open(HERE + '/../known_findings.txt', 'w') as f:
    f.write('# Defects of 3jane/tindicators found by the checks: repaired ones, and ones that are only recorded.\n')
    for p, r, t in FINDINGS: f.write('finding: property=%s match=%s %s\n' % (p, r, t))
    f.write('\n'.join(L) + '\n')
