"""Write DESIGN.md from tools/design.md, the findings and the planted bugs."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = json.load(open(V + '/tools/missed.json'))


def rows():
    out = ['| id | property | what the change does | needs | outcome |', '|---|---|---|---|---|']
    for d in sorted(os.listdir(V + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
        out.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'],
                                                  MISSED.get(d, 'caught')))
    return '\n'.join(out)


def fixed():
    out = []
    for l in open(V + '/known-findings.txt'):
        if l.startswith('fixed:'):
            _, p, c, t = l.split(None, 3)
            out.append('* %s (%s): %s' % (p.split('=')[1], c, t.strip()))
    return '\n'.join(out)


s = open(V + '/tools/design.md').read()
s = s.replace('\nFIXED\n', '\n' + fixed() + '\n').replace('\nSEEDS\n', '\n' + rows() + '\n')
s = s.replace('\nLIMITS\n', '\n' + open(V + '/tools/limits.md').read().strip() + '\n')
open(V + '/DESIGN.md', 'w').write(s)
