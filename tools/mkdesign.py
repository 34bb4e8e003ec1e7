"""Fills the generated parts of DESIGN.md: functions under contract per property, planted bugs and what caught them."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyvc.registry import Registry
import contracts.load as L
R = Registry(); L.load(R)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
app = []
for p in props:
    d = {}
    for k, c in R.contracts.items():
        if p['id'] in c.props and not c.trusted and not c.inline:
            m, f = k.split(':')
            d.setdefault(m.replace('pydantic_xml.', '').replace('serializers.factories.', 'factories.'), []).append(f)
    app.append(f"* **{p['id']}** {p['title']}: " + '; '.join(f'`{m}`: ' + ', '.join(f) for m, f in d.items()) + '.')
fns = [k for k, c in R.contracts.items() if not c.trusted and not c.inline]
app.append(f'\n{len(fns)} functions under contract in total; abstract operations assumed at call sites: ' + ', '.join(sorted(R.imeths)) + '.')
rows = []
res = json.load(open(os.path.join(HERE, 'tools', 'seeded_results.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'seeded_results.json')) else {}
for s in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', s, 'meta.json')))
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {res.get(s, 'not run yet')} |")
p = os.path.join(HERE, 'DESIGN.md')
t = open(p).read()


def fill(t, name, body):
    blk = f'<!-- {name} -->\n{body}\n<!-- /{name} -->'
    pat = re.compile(f'<!-- {name} -->.*?<!-- /{name} -->', re.S)
    return pat.sub(lambda _: blk, t) if pat.search(t) else t.replace(name + '\n', blk + '\n')


t = fill(t, 'APPENDIX', '\n'.join(app))
t = fill(t, 'SEEDED-TABLE', '| bug | property | what it breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows))
open(p, 'w').write(t)
