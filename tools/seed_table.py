#!/usr/bin/env python3
# Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json
import json, glob, os, re, collections
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    by[json.load(open(m))['property']].append(os.path.basename(os.path.dirname(m)))
t = '| property | planted bugs |\n|---|---|\n' + ''.join('| %s | %s |\n' % (k, ', '.join(v)) for k, v in sorted(by.items()))
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'\| property \| planted bugs \|\n(\|.*\n)*', lambda m: t, s)
open(p, 'w').write(s)
