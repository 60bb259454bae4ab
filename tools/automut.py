#!/usr/bin/env python3
"""automut.py COVFILE PROP SHORTPATH OUT N FUNC...: writes N small mutants of the covered lines (llvm-cov show output) of the named functions, evenly spread."""
import re, sys
cov, prop, short, out, n = sys.argv[1:6]
funcs = sys.argv[6:]
lines = {}
cur = None
where = []
for l in open(cov):
    m = re.match(r'\s*(\d+)\|\s*([\d.kMGTE]*)\|(.*)', l)
    if not m:
        continue
    k, c, t = int(m[1]), m[2], m[3]
    lines[k] = t
    if re.match(r'^[A-Za-z].*::~?\w+\(', t) and not t.rstrip().endswith(';'):
        cur = t
    elif re.match(r'^\w', t) and '::' in t and '(' not in t:
        cur = t
    if cur and c not in ('', '0') and any(f in cur for f in funcs):
        where.append(k)
OPS = [(r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r' \* ', ' / '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\bMIN\(', 'MAX('), (r'\bMAX\(', 'MIN('), (r'= -', '= '), (r'\bcos\(', 'sin('), (r'\b0\.0\b', '0.1'), (r'\b1\b', '2')]
cand = []
for k in where:
    t = lines[k]
    if 'LOG_' in t or t.strip().startswith('//') or 'for (' in t and False:
        continue
    code = t.split('//')[0]
    for a, b in OPS:
        for m in re.finditer(a, code):
            cand.append((k, code[:m.start()] + b + code[m.end():]))
            break
    if re.match(r'^\s+[\w\.\->\[\]\*\(\)]+\s*(=|\+=|-=|\|=|&=)\s.*;\s*$', code) and not re.match(r'^\s+(const |auto |int |double |bool |unsigned |size_t |idx_t |id_t |std::)', code):
        cand.append((k, re.match(r'^\s*', code)[0] + ';'))
    elif re.match(r'^\s+[\w\.\->:]+\(.*\);\s*$', code):
        cand.append((k, re.match(r'^\s*', code)[0] + ';'))
    elif re.match(r'^\s+if \(.*\)\s*$', code):
        c = re.match(r'^(\s+if \()(.*)(\)\s*)$', code)
        cand.append((k, c[1] + '!(' + c[2] + ')' + c[3]))
        cand.append((k, c[1] + 'false' + c[3]))
n = int(n)
step = max(1.0, len(cand) / n)
sel = [cand[int(i * step)] for i in range(min(n, len(cand)))]
src = [lines[k] for k in sorted(lines)]
with open(out, 'w') as f:
    f.write('MUT = [\n')
    for k, new in sel:
        # unique by occurrence number of the exact line
        old = '\n' + lines[k] + '\n'
        nth = sum(1 for j in range(1, k) if lines.get(j) == lines[k])
        f.write('    (%r, %r, %r, %r, %r, %d),\n' % ('%s-%d %s' % (prop, k, new.strip()[:70]), prop, short, old, '\n' + new + '\n', nth))
    f.write(']\n')
print(len(cand), 'candidates', len(sel), 'selected')
