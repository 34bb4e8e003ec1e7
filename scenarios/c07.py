"""C07: homogeneous collections: order, length, every item error."""
from typing import Dict, FrozenSet, List, Optional, Set, Tuple, Union

import pydantic as pd

from . import ref
from .lib import LXML, MODES, SearchMode, eq, etree, px, raises, same_xml, true


class Item(px.BaseXmlModel, tag='i'):
    v: int = px.attr()
    w: Optional[int] = px.element(default=None)


def prim(seq, mode, ty):
    class M(px.BaseXmlModel, tag='m', search_mode=mode):
        xs: List[ty] = px.element(tag='x', default=[])
        y: Optional[str] = px.element(default=None)
    doc = '<m>' + ''.join(f'<{t}>{v}</{t}>' for t, v in seq) + '</m>'
    tags = [t for t, _ in seq]
    vals = []
    if mode == SearchMode.STRICT:
        for t, v in seq:
            if t != 'x' or not v:
                break
            vals.append(v)
    else:
        for t, v in seq:
            if t == 'x':
                if not v:
                    break
                vals.append(v)
    bad = [i for i, v in enumerate(vals) if ty is int and not v.lstrip('-').isdigit()]
    try:
        m = M.from_xml(doc)
    except pd.ValidationError as e:
        eq([(x['loc'], x['type'], x['input']) for x in e.errors()], [(('xs', i), 'int_parsing', vals[i]) for i in bad], doc)
        true(bad, f'{doc} rejected')
    else:
        true(not bad, f'{doc} accepted')
        eq(m.xs, [ty(v) for v in vals], doc)


def models(seq, mode):
    class M(px.BaseXmlModel, tag='m', search_mode=mode):
        xs: Optional[List[Item]] = None
        y: Optional[str] = px.element(default=None)
    doc = '<m>' + ''.join('<y>z</y>' if s is None else f'<i v="{s[0]}">' + (f'<w>{s[1]}</w>' if s[1] is not None else '') + '</i>' for s in seq) + '</m>'
    items = []
    for s in seq:
        if s is None:
            if mode == SearchMode.STRICT:
                break
            continue
        items.append(s)
    errs = []
    for i, (v, w) in enumerate(items):
        if not v.isdigit():
            errs.append((('xs', i, 'v'), 'int_parsing', v))
        if w is not None and not w.isdigit():
            errs.append((('xs', i, 'w'), 'int_parsing', w))
    try:
        m = M.from_xml(doc)
    except pd.ValidationError as e:
        eq([(x['loc'], x['type'], x['input']) for x in e.errors()], errs, doc)
        true(errs, f'{doc} rejected')
    else:
        eq(errs, [], f'{doc} accepted')
        eq([(x.v, x.w) for x in m.xs or []], [(int(v), int(w) if w is not None else None) for v, w in items], doc)


def write(vals, flags, kind):
    if kind == 'prim':
        class M(px.BaseXmlModel, tag='m'):
            xs: Optional[List[Optional[int]]] = px.element(tag='x')
    elif kind == 'model':
        class M(px.BaseXmlModel, tag='m'):
            xs: Optional[List[Optional[Item]]] = px.element(tag='x')
    elif kind == 'dict':
        class M(px.BaseXmlModel, tag='m'):
            xs: Optional[List[Optional[Dict[str, int]]]] = px.element(tag='x')
    mk = {'prim': lambda v: v, 'model': lambda v: None if v is None else Item(v=v), 'dict': lambda v: None if v is None else {'a': v}}[kind]
    m = M(xs=None if vals is None else [mk(v) for v in vals])
    got = etree.fromstring(m.to_xml(**flags))
    want = []
    for v in vals or []:
        if v is None:
            if flags.get('skip_empty') or flags.get('exclude_none') or kind == 'model':
                continue
            want.append(None)
        else:
            want.append(str(v))
    rd = {'prim': lambda e: e.text, 'model': lambda e: e.get('v'), 'dict': lambda e: e.get('a')}[kind]
    eq([rd(e) or None for e in got], want, f'{vals} {flags} {kind}')
    true(all(e.tag == 'x' for e in got), 'names')


def kinds(ann, doc, want, out):
    class M(px.BaseXmlModel, tag='m'):
        xs: ann = px.element(tag='x')
    m = M.from_xml(doc)
    eq(m.xs, want, doc)
    eq(type(m.xs), type(want), 'type')
    same_xml(m.to_xml(), out or doc, 'written back')


def nested_errors():
    """Errors of items keep type, message, input and the whole inner location."""
    class In(px.BaseXmlModel, tag='in'):
        xs: List[Item]

    class M(px.BaseXmlModel, tag='m'):
        ins: List[In]
    e = raises(pd.ValidationError, lambda: M.from_xml('<m><in><i v="1"/><i v="a"/></in><in><i v="2"/></in><in><i v="b"><w>c</w></i><i/></in></m>'))
    eq([(x['loc'], x['type'], x['input'] if x['type'] != 'missing' else None) for x in e.errors()],
       [(('ins', 0, 'xs', 1, 'v'), 'int_parsing', 'a'), (('ins', 2, 'xs', 0, 'v'), 'int_parsing', 'b'), (('ins', 2, 'xs', 0, 'w'), 'int_parsing', 'c'),
        (('ins', 2, 'xs', 1, 'v'), 'missing', None)], 'all errors of all items')
    eq(e.title, 'M', 'title')


def position():
    """After a collection the following siblings are still available, also after the last item."""
    class M(px.BaseXmlModel, tag='m'):
        a: List[int] = px.element(tag='x')
        s: str = px.element()
        b: List[int] = px.element(tag='x')
        c: Optional[List[Item]] = None
        d: str = px.element()
    m = M.from_xml('<m><x>1</x><x>2</x><s>t</s><x>3</x><i v="1"/><d>e</d></m>')
    eq((m.a, m.s, m.b, len(m.c), m.d), ([1, 2], 't', [3], 1, 'e'), 'positions')


def absent():
    class M(px.BaseXmlModel, tag='m'):
        a: Optional[List[int]] = px.element(tag='x', default=None)
        b: List[int] = px.element(tag='y', default_factory=lambda: [7])
        c: List[Item] = []
    m = M.from_xml('<m/>')
    eq((m.a, m.b, m.c), (None, [7], []), 'defaults for no items')

    class R(px.BaseXmlModel, tag='m'):
        a: List[int] = px.element(tag='x')
    e = raises(pd.ValidationError, lambda: R.from_xml('<m/>'))
    eq([(x['loc'], x['type']) for x in e.errors()], [(('a',), 'missing')], 'required collection')
    same_xml(R(a=[]).to_xml(), '<m/>', 'no items, nothing written')
    same_xml(R(a=[]).to_xml(skip_empty=True), '<m/>', 'no items, nothing written')


def tuples():
    class M(px.BaseXmlModel, tag='m'):
        a: List[Tuple[int, str]] = px.element(tag='x')
    m = M.from_xml('<m><x>1</x><x>a</x><x>2</x><x>b</x></m>')
    eq(m.a, [(1, 'a'), (2, 'b')], 'list of tuples')
    same_xml(m.to_xml(), '<m><x>1</x><x>a</x><x>2</x><x>b</x></m>', 'written')


def root_list(n):
    class R(px.RootXmlModel[List[Item]], tag='r'):
        pass
    r = R([Item(v=i) for i in range(n)])
    doc = '<r>' + ''.join(f'<i v="{i}"><w/></i>' for i in range(n)) + '</r>'
    same_xml(r.to_xml(), doc, 'written')
    if n:
        eq([x.v for x in R.from_xml(doc).root], list(range(n)), 'read')
        e = raises(pd.ValidationError, lambda: R.from_xml('<r>' + '<i v="0"/>' * n + '<i v="x"/><i v="1"/><i/></r>'))
        eq([x['loc'] for x in e.errors()], [(n, 'v'), (n + 2, 'v')], 'locations in a root model')


def big(n):
    class M(px.BaseXmlModel, tag='m'):
        a: List[int] = px.element(tag='x')
        s: str = px.element()
    m = M.from_xml('<m>' + ''.join(f'<x>{i}</x>' for i in range(n)) + '<s>e</s></m>')
    eq(m.a, list(range(n)), f'{n} items')
    same_xml(m.to_xml(), '<m>' + ''.join(f'<x>{i}</x>' for i in range(n)) + '<s>e</s></m>', 'written')
    e = raises(pd.ValidationError, lambda: M.from_xml('<m>' + ''.join(f'<x>{i if i % 3 else "q"}</x>' for i in range(n)) + '<s>e</s></m>'))
    eq([x['loc'] for x in e.errors()], [('a', i) for i in range(0, n, 3)], 'every error')


def cases(rng, tier):
    k = 4 if tier == 'thorough' else 1
    for i in range(300 * k):
        seq = [(rng.choice('xxxyz'), rng.choice(['1', '2', '-3', 'q', '0', '1', ''])) for _ in range(rng.randint(0, 6))]
        yield f'prim/{i}', lambda x=(seq, rng.choice(MODES), rng.choice([int, str])): prim(*x)
        ms = [rng.choice([None] + [(a, b) for a in ('1', '2', 'q') for b in (None, '3', 'z')]) for _ in range(rng.randint(0, 5))]
        yield f'models/{i}', lambda x=(ms, rng.choice(MODES)): models(*x)
    FL = [{}, {'skip_empty': True}, {'exclude_none': True}, {'skip_empty': True, 'exclude_none': True}]
    n = 0
    for kind in ('prim', 'model', 'dict'):
        for vals in (None, [], [1], [None], [0], [1, None, 2], [None, None], [3, 1, 2, 1], [None, 0, None, 5]):
            for fl in FL:
                yield f'write/{n}', lambda x=(vals, fl, kind): write(*x)
                n += 1
    yield 'kinds/list', lambda: kinds(List[int], '<m><x>3</x><x>1</x><x>3</x></m>', [3, 1, 3], None)
    yield 'kinds/set', lambda: kinds(Set[int], '<m><x>3</x><x>3</x></m>', {3}, '<m><x>3</x></m>')
    yield 'kinds/frozenset', lambda: kinds(FrozenSet[str], '<m><x>3</x></m>', frozenset({'3'}), None)
    yield 'kinds/tuple', lambda: kinds(Tuple[int, ...], '<m><x>3</x><x>1</x></m>', (3, 1), None)
    yield 'kinds/dict', lambda: kinds(List[Dict[str, int]], '<m><x a="1"/><x b="2" c="3"/></m>', [{'a': 1}, {'b': 2, 'c': 3}], None)
    for f in (nested_errors, position, absent, tuples):
        yield f.__name__ + '/0', f
    for n in (0, 1, 3):
        yield f'root/{n}', lambda n=n: root_list(n)
    for n in (1, 2, 50, 300):
        yield f'big/{n}', lambda n=n: big(n)
    kinds_ = ['list', 'list', 'list', 'elem', 'sub', 'delem', 'union']
    yield from ref.read_cases('random', rng, 120 * k, lambda r: ref.Gen(r, kinds_, extra='mixed').model())
    yield from ref.write_cases('randomw', rng, 80 * k, lambda r: ref.Gen(r, kinds_, nillable=True).model())
