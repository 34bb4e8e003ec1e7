"""C05: unions of models: alternatives in declaration order, isolated from each other."""
import itertools
from typing import List, Optional, Tuple, Union

import pydantic as pd

from . import ref
from .lib import LXML, MODES, SearchMode, eq, etree, px, raises, same_xml, true


def alts(spec, mode):
    """Models made of (name, tag, attribute requirements, child requirement, extra)"""
    out = []
    for name, tag, attr, kid, extra in spec:
        ann, body = {}, {'__module__': __name__, 'model_config': {'extra': extra}}
        if attr:
            ann[attr] = int
            body[attr] = px.attr(name=attr)
        if kid:
            ann['kid'] = int
            body['kid'] = px.element(tag=kid)
        body['__annotations__'] = ann
        out.append(type(px.BaseXmlModel)(name, (px.BaseXmlModel,), body, tag=tag, search_mode=mode))
    return out


ATTRS = [None, 'a', 'b']
DOCS = ['<m><u a="1"/><k>9</k></m>', '<m><u a="x"/><k>9</k></m>', '<m><u b="2"/><k>9</k></m>', '<m><u a="1" b="2"><c>3</c></u><k>9</k></m>',
        '<m><v a="1"/><k>9</k></m>', '<m><k>9</k></m>', '<m><u/><v a="1"/><k>9</k></m>', '<m><u a="x" b="y"><c>z</c></u><k>9</k></m>',
        '<m><v b="1"/><u a="1"/><k>9</k></m>', '<m><u a="x"/><u a="1"/><k>9</k></m>', '<m><u b="1"><c>3</c></u><k>9</k></m>']


def meaning(spec, el, mode):
    """First alternative that yields a value, by definition of the alternatives; -> name, errors by name"""
    errs = {}
    for name, tag, attr, kid, extra in spec:
        kids = list(el)
        if mode == SearchMode.STRICT:
            hit = kids[0] if kids and kids[0].tag == tag else None
        else:
            hit = next((k for k in kids if k.tag == tag), None)
        if hit is None:
            continue
        e = []
        if attr:
            v = hit.get(attr)
            if v is None:
                e.append(((attr,), 'missing'))
            elif not v.isdigit():
                e.append(((attr,), 'int_parsing'))
        got = None
        if kid:
            c = [k for k in hit]
            if mode == SearchMode.STRICT:
                got = c[0] if c and c[0].tag == kid else None
            else:
                got = next((k for k in c if k.tag == kid), None)
            if got is None or not got.text:
                e.append((('kid',), 'missing'))
            elif not got.text.isdigit():
                e.append((('kid',), 'int_parsing'))
        if extra == 'forbid':
            x = [(('@' + a,), 'extra_forbidden') for a in hit.attrib if a != attr]
            x += [((c.tag,), 'extra_forbidden') for c in hit if c is not got and c.text]
            if x:
                e = x
        if not e:
            return name, {}
        errs[name] = e
    return None, errs


def choose(spec, mode, doc):
    cls = alts(spec, mode)

    class Host(px.BaseXmlModel, tag='m', search_mode=mode):
        u: Optional[Union[tuple(cls)]] = None
        k: Optional[int] = px.element(default=None)
    root = etree.fromstring(doc)
    want, errs = meaning(spec, root, mode)
    try:
        got = Host.from_xml_tree(root)
    except pd.ValidationError as e:
        true(want is None and errs, f'{doc}: rejected: {e.errors()}')
        eq(sorted((x['loc'], x['type']) for x in e.errors()), sorted((('u', n, *l), t) for n, es in errs.items() for l, t in es), f'errors of {doc}')
        return
    true(want is not None or not errs, f'{doc}: accepted as {got!r}, expected errors {errs}')
    eq(type(got.u).__name__ if got.u is not None else None, want, f'{doc}: alternative')
    used = want is not None
    kids = [k.tag for k in root]
    if mode == SearchMode.STRICT:
        eq(got.k, 9 if (kids[1:2] if used else kids[:1]) == ['k'] else None, 'what follows is still there')
    else:
        eq(got.k, 9, 'what follows is still there')


def consumption(order):
    """A rejected alternative has consumed text, attributes and children before failing: the next one sees them all."""
    class A(px.BaseXmlModel, tag='u'):
        t: str
        a: str = px.attr()
        x: str = px.element()
        z: int = px.element()

    class B(px.BaseXmlModel, tag='u'):
        model_config = {'extra': 'forbid'}
        t: str
        a: str = px.attr()
        x: str = px.element()
        z: str = px.element()

    class C(px.BaseXmlModel, tag='u'):
        t: str
        a: int = px.attr()
    cls = {'A': A, 'B': B, 'C': C}

    class Host(px.BaseXmlModel, tag='m'):
        model_config = {'extra': 'forbid'}
        u: Union[tuple(cls[o] for o in order)]
    got = Host.from_xml('<m><u a="1q">t<x>1</x><z>nan</z></u></m>')
    eq(got.u, B(t='t', a='1q', x='1', z='nan'), f'order {order}')


def rest(order, doc, want):
    """What remains after an accepted alternative is what that alternative left."""
    class A(px.BaseXmlModel, tag='u'):
        a: int = px.attr()
        c: int = px.element()

    class B(px.BaseXmlModel, tag='u'):
        b: int = px.attr()
    cls = {'A': A, 'B': B}

    class Host(px.BaseXmlModel, tag='m', search_mode=SearchMode.UNORDERED):
        model_config = {'extra': 'forbid'}
        u: Union[tuple(cls[o] for o in order)]
    try:
        Host.from_xml(doc)
        got = []
    except pd.ValidationError as e:
        got = sorted((x['loc'], x['type']) for x in e.errors())
    eq(got, sorted(want), f'{doc} {order}')


def lists(mode):
    class A(px.BaseXmlModel, tag='a'):
        v: int

    class B(px.BaseXmlModel, tag='b'):
        v: int

    class C(px.BaseXmlModel, tag='a'):
        v: str

    class Host(px.BaseXmlModel, tag='m', search_mode=mode):
        items: List[Union[A, B, C]]
        k: Optional[int] = px.element(default=None)
    h = Host.from_xml('<m><a>1</a><b>2</b><a>x</a><b>3</b><a>4</a><k>7</k></m>')
    if mode == SearchMode.STRICT:
        eq(h.items, [A(v=1), B(v=2), C(v='x'), B(v=3), A(v=4)], 'items in order')
        eq(h.k, 7, 'what follows')
    e = raises(pd.ValidationError, lambda: Host.from_xml('<m><b>1</b><b>x</b><b>2</b><b>y</b></m>'), 'two bad items')


    eq(sorted({x['loc'][1] for x in e.errors()}), [1, 3], 'bad items')


def all_errors(order):
    class A(px.BaseXmlModel, tag='u'):
        a: int = px.attr()
        b: int = px.attr()

    class B(px.BaseXmlModel, tag='u'):
        c: int = px.element()

    class C(px.BaseXmlModel, tag='other'):
        c: int = px.element()
    cls = {'A': A, 'B': B, 'C': C}

    class Host(px.BaseXmlModel, tag='m'):
        u: Union[tuple(cls[o] for o in order)]
    e = raises(pd.ValidationError, lambda: Host.from_xml('<m><u a="x"><c>y</c></u></m>'))
    w = {'A': [(('u', 'A', 'a'), 'int_parsing', 'x'), (('u', 'A', 'b'), 'missing', None)], 'B': [(('u', 'B', 'c'), 'int_parsing', 'y')], 'C': []}
    eq([(x['loc'], x['type'], x['input'] if x['type'] != 'missing' else None) for x in e.errors()], [r for o in order for r in w[o]], f'errors of {order}')
    eq(e.title, 'Host', 'title')


def write_subclass():
    class A(px.BaseXmlModel, tag='a'):
        v: int = px.attr()

    class B(px.BaseXmlModel, tag='b'):
        v: int = px.attr()

    class A2(A, tag='a2'):
        pass

    class Host(px.BaseXmlModel, tag='m'):
        u: Optional[Union[A, B]] = None
        l: Optional[List[Union[B, A]]] = None
    h = Host(u=B(v=1), l=[A(v=2), B(v=3)])
    same_xml(h.to_xml(), '<m><b v="1"/><a v="2"/><b v="3"/></m>', 'each by its own alternative')
    h = Host.model_construct(u=A2(v=5), l=None)
    same_xml(h.to_xml(), '<m><a v="5"/></m>', 'subclass instance')
    same_xml(Host().to_xml(), '<m/>', 'nothing')
    same_xml(Host(u=A(v=1)).to_xml(), '<m><a v="1"/></m>', 'first')


def primitive_union():
    class Host(px.BaseXmlModel, tag='m'):
        t: Union[int, float]
        a: Union[int, str] = px.attr()
        e: Optional[Union[bool, float]] = px.element(default=None)
    h = Host.from_xml('<m a="x">1.5<e>true</e></m>')
    eq((h.t, h.a, h.e), (1.5, 'x', True), 'primitive unions')
    same_xml(h.to_xml(), '<m a="x">1.5<e>true</e></m>', 'written back')
    same_xml(Host(t=1, a=2).to_xml(exclude_none=True), '<m a="2">1</m>', 'flags pass')


def snapshot_isolation(first_fails_deep):
    """Everything below is restored too: grand-children consumed by a rejected alternative."""
    class G(px.BaseXmlModel, tag='g'):
        v: str
        w: Optional[str] = px.attr(default=None)

    class A(px.BaseXmlModel, tag='u'):
        gs: List[G]
        n: int = px.attr()

    class B(px.BaseXmlModel, tag='u'):
        model_config = {'extra': 'forbid'}
        gs: List[G]
        n: str = px.attr()

    class Host(px.BaseXmlModel, tag='m'):
        us: List[Union[A, B]]
    h = Host.from_xml('<m><u n="x"><g w="1">a</g><g>b</g></u><u n="1"><g w="2">c</g></u><u n="y"><g>d</g></u></m>')
    eq([type(u).__name__ for u in h.us], ['B', 'A', 'B'], 'chosen')
    eq([[(g.v, g.w) for g in u.gs] for u in h.us], [[('a', '1'), ('b', None)], [('c', '2')], [('d', None)]], 'content')


def cases(rng, tier):
    k = 4 if tier == 'thorough' else 1
    base = [('A', 'u', 'a', None, 'ignore'), ('B', 'u', 'b', 'c', 'ignore'), ('C', 'v', 'a', None, 'ignore'), ('D', 'u', None, None, 'forbid'),
            ('E', 'u', 'a', 'c', 'forbid'), ('F', 'u', None, None, 'ignore')]
    n = 0
    for spec in itertools.permutations(base, 2):
        for mode in MODES:
            for d in DOCS:
                yield f'choose/{n}', lambda x=(spec, mode, d): choose(*x)
                n += 1
    for i in range(150 * k):
        spec = rng.sample(base, rng.randint(3, 5))
        yield f'choose3/{i}', lambda x=(spec, rng.choice(MODES), rng.choice(DOCS)): choose(*x)
    for o in ('AB', 'BA', 'ACB', 'CAB', 'CB', 'ABC'):
        yield f'consumption/{o}', lambda o=o: consumption(o)
    for i, r in enumerate([('AB', '<m><u b="1" a="2"/></m>', [(('u', '@a'), 'extra_forbidden')]), ('BA', '<m><u b="1" a="2"><c>1</c></u></m>', [(('u', '@a'), 'extra_forbidden'), (('u', 'c'), 'extra_forbidden')]),
                           ('AB', '<m><u b="1" a="2"><c>1</c></u></m>', [(('u', '@b'), 'extra_forbidden')]), ('AB', '<m z="1"><u b="1"/></m>', [(('@z',), 'extra_forbidden')]),
                           ('AB', '<m><u a="1"><c>1</c></u><u b="5"/></m>', [(('u', '@b'), 'extra_forbidden')])]):
        yield f'rest/{i}', lambda r=r: rest(*r)
    for m in MODES:
        yield f'lists/{m.value}', lambda m=m: lists(m)
    for o in ('AB', 'BA', 'ABC', 'CAB', 'BCA'):
        yield f'errors/{o}', lambda o=o: all_errors(o)
    yield 'write/0', write_subclass
    yield 'primitive/0', primitive_union
    yield 'deep/0', lambda: snapshot_isolation(True)
    kinds = ['attr', 'text', 'elem', 'union', 'union', 'list', 'sub', 'wrap']
    yield from ref.read_cases('random', rng, 200 * k, lambda r: ref.Gen(r, kinds, extra='mixed').model())
    yield from ref.write_cases('randomw', rng, 60 * k, lambda r: ref.Gen(r, kinds).model())
