"""Rewrites the generated parts of DESIGN.md (property table, planted bugs)."""
import glob, importlib, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def put(s, tag, body):
    a, b = '<!-- %s -->' % tag, '<!-- end %s -->' % tag
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + '\n\n' + body.strip() + '\n\n' + s[j:]


props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
out = []
for p in props:
    m = importlib.import_module('props.' + p['id'])
    out.append('### %s %s\n' % (p['id'], p['title']))
    doc = (m.__doc__ or '').strip().split('\n\n', 1)
    if len(doc) > 1:
        out.append(' '.join(doc[1].split()) + '\n')
    out.append('* Code: ' + ', '.join(m.FUNCTIONS))
    out.append('* Bounds, quick: ' + m.BOUNDS['quick'])
    out.append('* Bounds, thorough: ' + m.BOUNDS['thorough'])
    for a in getattr(m, 'ASSUMPTIONS', None) or []:
        out.append('* Assumed: ' + a)
    if p['id'] != 'C28':
        out.append('* Harnesses: ' + ', '.join(h.name for h in m.HARNESSES))
    out.append('')
bugs = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(HERE + '/tools/caught.json'))
for d in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(d))
    j = json.load(open(d))
    bugs.append('| %s | %s | %s | %s |' % (n, j['property'], j['needs'], caught.get(n, '')))
f = HERE + '/DESIGN.md'
s = open(f).read()
s = put(s, 'properties', '\n'.join(out))
s = put(s, 'planted', '\n'.join(bugs))
open(f, 'w').write(s)
