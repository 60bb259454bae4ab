#!/usr/bin/env python3
"""Refresh the generated parts of DESIGN.md: table of planted bugs, number of repairs."""
import json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
t = open('DESIGN.md').read()
rows = ['| seed | property | needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir('seeded')) if os.path.isdir('seeded') else []:
    m = json.load(open(f'seeded/{s}/meta.json'))
    rows.append(f"| {s} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'] + ' quick')} |")
n = sum(1 for l in open('known_findings.txt') if l.startswith('fixed:'))
t = t.replace('@@NFIX@@', str(n)).replace('@@SEEDS@@', '<!-- seeds -->\n<!-- /seeds -->')
t = re.sub(r'examined; \d+ were repaired', f'examined; {n} were repaired', t)
t = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', t, flags=re.S)
open('DESIGN.md', 'w').write(t)
