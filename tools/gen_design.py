"""DESIGN.md from tools/design/*.md, the properties, the rules (as reported in evidence), the findings and the planted bugs."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(V + '/properties.jsonl')]
man = {c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']}
out = [open(V + '/tools/design/head.md').read(), '## 3. The properties and the rules that decide them\n']
extra = {}
for line in open(V + '/tools/design/notes.md'):
    if line[:1] == 'C' and ':' in line:
        k, t = line.split(':', 1)
        extra[k] = t.strip()
for p in props:
    i = p['id']
    if i not in man:
        continue
    out.append('### {} {}\n\n{}\n'.format(i, p['title'], p['statement'].strip()))
    if i in extra:
        out.append('*How:* {}\n'.format(extra[i]))
    ev = json.load(open('{}/evidence/{}.json'.format(V, i)))['coverage']
    out.append('\n'.join('* `{}` {}'.format(k, r['text']) for k, r in ev['rules'].items()) + '\n')
f = json.load(open(V + '/known-findings.json'))
out.append('## 4. Known findings\n\n' + '\n'.join('* **{}** `{}`: {}'.format(x['property'], x['key'], x['what']) for x in f['known']) + '\n')
out.append('## 5. Defects repaired in /repo (one `fix:` commit each)\n\nEach was reported by the check of the property and shown against the real code before it was repaired.\n\n' +
           '\n'.join('* ' + x.replace('fixed: property=', '') for x in f['fixed']) + '\n')
rows = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| `{}` | {} | {} | {} |'.format(m.split('/')[-2], d['property'], d['what_it_breaks'], d['needs']))
out.append('## 6. Planted bugs\n\nEvery one of these is reported by the check of its property (and by no check before the patch is applied).\n\n'
           '| bug | caught by | what it breaks | what it needs |\n| --- | --- | --- | --- |\n' + '\n'.join(rows) + '\n')
out.append(open(V + '/tools/design/tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
