#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# bugs that the check missed when they were planted, and what was strengthened
LATER = {
 'action-trimmed': 'exact symbolic TrimSpace',
 'fault-text-trimmed': 'exact symbolic TrimSpace',
 'error-text-cut': 'long texts (spec.Long), symbolic slicing',
 'message-type-rounded': 'CheckTypes over every number',
 'limit-one-decimal': 'model of the rounding in FormatFloat',
 'identity-basename': 'Index/LastIndex/slicing of symbolic strings',
 'identity-folded-soap': 'models with real values for case folding',
 'spaces-collapsed': 'documents followed on representatives, blanks inside texts',
 'credentials-dropped': 'usual headers, real credentials',
 'log-reads-body': 'length of byte texts, long texts in C26 CheckJSON',
}
p = os.path.join(root, 'tools', 'later.json')
if os.path.exists(p):
    LATER.update(json.load(open(p)))
rows = ['| bug | property | needs | caught |', '|---|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f)); n = f.split('/')[-2]
    c = 'after strengthening: ' + LATER[n] if n in LATER else 'first'
    if n in LATER and LATER[n].startswith('NOT'): c = LATER[n]
    rows.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/'), c))
d = os.path.join(root, 'DESIGN.md')
s = open(d).read()
t = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
s = s.replace('SEEDED_TABLE', t) if 'SEEDED_TABLE' in s else re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: t, s, flags=re.S)
open(d, 'w').write(s)
