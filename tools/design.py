#!/usr/bin/env python3
"""assembles DESIGN.md: hand written text below + table of planted bugs from seeded/*/meta.json and of properties from properties.jsonl"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(os.path.join(V, 'tools/design_head.md')).read()
sys.path.insert(0, os.path.join(V, 'sa'))
import prog
out = []
for l in HEAD.split('\n'):
    m = re.match(r'\| (P\d\d) \|', l)
    if m and l.count('|') == 3:
        src = open(os.path.join(V, 'rules', m.group(1) + '.py')).read()
        tus = eval(re.search(r'^TUS = (\[.*?\])', src, re.M | re.S).group(1))
        uses = re.search(r'^USES = (\[.*\])$', src, re.M)
        also = '; rests on %s' % ', '.join('%s (%s)' % (d, ', '.join(x.split('::', 1)[-1] for x in n)) for d, n in eval(uses.group(1))) if uses else ''
        l += ' %s |' % (', '.join(os.path.basename(prog.TUS[t]) if prog.TUS[t][0] != '@' else '`%s`' % prog.TUS[t][2:] for t in tus) + also)
    out.append(l)
HEAD = '\n'.join(out)
TAIL = open(os.path.join(V, 'tools/design_tail.md')).read()
notes = {}
for l in open(os.path.join(V, 'tools/seed_notes.txt')):
    if ':' in l:
        a, b = l.split(':', 1)
        notes[a.strip()] = b.strip()
rows = ['| planted change | needs | breaks | caught by | note |', '|---|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f))
    n = f.split('/')[-2]
    rows.append('| %s | %s | %s | %s | %s |' % (n, d['needs'], d['what_it_breaks'], d['property'], notes.get(n, 'first run')))
open(os.path.join(V, 'DESIGN.md'), 'w').write(HEAD + '\n## Planted bugs\n\n' + open(os.path.join(V, 'tools/design_seeds.md')).read() + '\n' + '\n'.join(rows) + '\n\n' + TAIL)
