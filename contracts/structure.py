"""Syntactic side conditions the extraction relies on (checked on every run)."""
import ast
import os


def check(root):
    out = []
    pk = os.path.join(root, 'pydantic_xml')
    trees = {}
    for d, _, fs in os.walk(pk):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                try:
                    trees[os.path.relpath(p, root)] = ast.parse(open(p).read())
                except SyntaxError as e:
                    out.append({'name': f'parse {p}', 'status': 'failed', 'props': '*', 'detail': str(e)})
    bad = []
    for p, t in trees.items():
        for cls in ast.walk(t):
            if not isinstance(cls, ast.ClassDef):
                continue
        for fn in ast.walk(t):
            if isinstance(fn, ast.FunctionDef) and fn.name != '__init__':
                for n in ast.walk(fn):
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
                    for x in tg:
                        for y in ast.walk(x):
                            if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr in ('_state', '_sourceline'):
                                bad.append(f'{p}:{y.lineno} stores {y.attr}')
    out.append({'name': 'the state object and source line of an element are only set by its constructor',
                'status': 'failed' if bad else 'ok', 'props': '*', 'detail': '; '.join(bad)})
    base = {}
    t = trees.get('pydantic_xml/element/element.py')
    if t is not None:
        for c in t.body:
            if isinstance(c, ast.ClassDef) and c.name == 'XmlElement':
                base = {f.name: f for f in c.body if isinstance(f, ast.FunctionDef)}
    abstract = {'from_native', 'to_native', 'make_element', 'get_sourceline'}
    bad = []
    for p in ('pydantic_xml/element/native/lxml.py', 'pydantic_xml/element/native/std.py'):
        for c in (trees[p].body if p in trees else []):
            if isinstance(c, ast.ClassDef) and c.name == 'XmlElement':
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and f.name in base and f.name not in abstract:
                        bad.append(f'{p}: overrides {f.name}')
    out.append({'name': 'the back ends do not override operations verified on the base element',
                'status': 'failed' if bad else 'ok', 'props': '*', 'detail': '; '.join(bad)})
    bad = []
    for p, t in trees.items():
        if p == 'pydantic_xml/element/element.py' or p.startswith('pydantic_xml/element/native/'):
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute) and n.attr in ('_state', 'next_element_idx'):
                bad.append(f'{p}:{n.lineno} uses {n.attr}')
    out.append({'name': 'no module outside the element package touches the state of an element',
                'status': 'failed' if bad else 'ok', 'props': '*', 'detail': '; '.join(bad)})
    return out
