"""C06: tagged unions follow the discriminator."""
import itertools
from typing import Annotated, List, Literal, Optional, Union

import pydantic as pd
from pydantic import Field

from .lib import LXML, MODES, SearchMode, eq, etree, px, raises, same_xml, true

NS = {'p': 'http://p'}


def build(spec, mode, ns=False):
    """spec: (class name, tag, discriminator values)"""
    out = []
    for name, tag, vals in spec:
        kw = dict(tag=tag, search_mode=mode)
        body = {'__module__': __name__, '__annotations__': {'type': Literal[tuple(vals)], 'n': Optional[int]},
                'type': px.attr(name='kind', **({'ns': 'p'} if ns else {})), 'n': px.element(tag='n', default=None)}
        if ns:
            kw['nsmap'] = NS
        out.append(type(px.BaseXmlModel)(name, (px.BaseXmlModel,), body, **kw))
    return out


def host(cls, mode, ns=False):
    U = Union[tuple(cls)]

    class Host(px.BaseXmlModel, tag='m', search_mode=mode):
        u: Annotated[Optional[U], Field(discriminator='type')] = None
        k: Optional[int] = px.element(default=None)

    class LHost(px.BaseXmlModel, tag='m', search_mode=mode):
        u: Optional[List[Annotated[U, Field(discriminator='type')]]] = None
        k: Optional[int] = px.element(default=None)
    return Host, LHost


def expected(spec, kids, mode, att='kind'):
    """first (alternative, tag) in declaration order whose element is found and names it"""
    for name, tag, vals in spec:
        for v in vals:
            if mode == SearchMode.STRICT:
                hit = kids[0] if kids and kids[0].tag == tag else None
            else:
                hit = next((k for k in kids if k.tag == tag), None)
            if hit is not None and hit.get(att) == v:
                return name, v, hit
    return None


SPECS = [
    [('A', 'e', ['a']), ('B', 'e', ['b'])],
    [('A', 'e', ['a', 'a2']), ('B', 'e', ['b'])],
    [('A', 'x', ['a']), ('B', 'y', ['b'])],
    [('B', 'y', ['b']), ('A', 'x', ['a', 'c']), ('C', 'y', ['d'])],
    [('A', 'e', ['a']), ('B', 'f', ['b']), ('C', 'e', ['c'])],
]


def read(spec, mode, doc, ns):
    cls = build(spec, mode, ns)
    Host, _ = host(cls, mode, ns)
    att = '{http://p}kind' if ns else 'kind'
    root = etree.fromstring(doc if not ns else doc.replace('kind=', 'p:kind=').replace('<m>', '<m xmlns:p="http://p">'))
    w = expected(spec, list(root), mode, att)
    h = Host.from_xml_tree(root)
    if w is None:
        eq(h.u, None, f'{doc}: nothing selected')
        if mode == SearchMode.STRICT:
            eq(h.k, 9 if root[0].tag == 'k' else None, 'the document is untouched')
        else:
            eq(h.k, 9, 'the document is untouched')
    else:
        eq((type(h.u).__name__, h.u.type), w[:2], f'{doc}: selected')
        n = w[2].find('n')
        eq(h.u.n, int(n.text) if n is not None else None, 'content')


DOCS = []
for t in ('e', 'f', 'x', 'y'):
    for v in ('a', 'a2', 'b', 'c', 'd', 'zz', '', None):
        a = '' if v is None else f' kind="{v}"'
        DOCS.append(f'<m><{t}{a}><n>3</n></{t}><k>9</k></m>')
DOCS += ['<m><k>9</k></m>', '<m><e kind="b"/><e kind="a"/><k>9</k></m>', '<m><x kind="b"/><y kind="b"/><k>9</k></m>', '<m><y kind="d"/><x kind="a"/><k>9</k></m>']


def many(spec, mode, seq):
    """A list of tagged values in any order, followed by another field."""
    cls = build(spec, mode)
    _, L = host(cls, mode)
    tag = {v: (name, t) for name, t, vs in spec for v in vs}
    doc = '<m>' + ''.join(f'<{tag[v][1]} kind="{v}"><n>{i}</n></{tag[v][1]}>' for i, v in enumerate(seq)) + '<k>9</k></m>'
    h = L.from_xml(doc)
    root = etree.fromstring(doc)
    # the reference: repeat the single selection, consuming in the mode's way
    kids, want = list(root), []
    while True:
        w = expected(spec, kids, mode)
        if w is None:
            break
        want.append((w[0], w[1], int(w[2].find('n').text)))
        i = kids.index(w[2])
        if mode == SearchMode.UNORDERED:
            kids[i] = kids[0]
            kids = kids[1:]
        else:
            kids = kids[i + 1:]
    eq([(type(u).__name__, u.type, u.n) for u in h.u or []], want, doc)
    if mode == SearchMode.STRICT and len(want) == len(seq):
        eq(h.k, 9, 'what follows')


def isolation():
    """A rejected alternative changes nothing; the selected element alone is consumed."""
    class A(px.BaseXmlModel, tag='e'):
        type: Literal['a'] = px.attr()

    class B(px.BaseXmlModel, tag='e'):
        type: Literal['b'] = px.attr()
        v: int

    class H(px.BaseXmlModel, tag='m'):
        model_config = {'extra': 'forbid'}
        u: Optional[Union[A, B]] = Field(default=None, discriminator='type')
    eq(H.from_xml('<m><e type="b">3</e></m>').u.v, 3, 'B')
    e = raises(pd.ValidationError, lambda: H.from_xml('<m><e type="c">3</e></m>'), 'unknown tag left in the document')
    eq(sorted((x['loc'], x['type'], x['input']) for x in e.errors()), [(('e',), 'extra_forbidden', '3'), (('e', '@type'), 'extra_forbidden', 'c')], 'left untouched')
    e = raises(pd.ValidationError, lambda: H.from_xml('<m><e type="b">x</e></m>'), 'bad content')
    eq([(x['loc'], x['type']) for x in e.errors()], [(('u', 'v'), 'int_parsing')], 'only the selected alternative is tried')


def write(spec, flags):
    cls = build(spec, SearchMode.STRICT)
    Host, L = host(cls, SearchMode.STRICT)
    for c, (name, tag, vals) in zip(cls, spec):
        for v in vals:
            same_xml(Host(u=c(type=v, n=4)).to_xml(**flags, ), '<m><%s kind="%s"><n>4</n></%s>%s</m>' % (tag, v, tag, '' if flags.get('exclude_none') or flags.get('skip_empty') or flags.get('exclude_unset') else '<k/>'), f'{name} {v} {flags}')
    same_xml(Host(u=None).to_xml(exclude_none=True), '<m/>', 'no value')
    same_xml(Host(u=None).to_xml(), '<m><k/></m>', 'no value')
    vals = [c(type=v, n=i) for i, (c, s) in enumerate(zip(cls, spec)) for v in s[2]]
    got = etree.fromstring(L(u=vals).to_xml(exclude_none=True))
    eq([(k.tag, k.get('kind'), k.find('n').text) for k in got], [(s[1], v, str(i)) for i, s in enumerate(spec) for v in s[2]], 'list written in order')
    back = L.from_xml(etree.tostring(got))
    if all(s[1] == spec[0][1] for s in spec):
        eq(back.u, vals, 'round trip')


def aliasing():
    """The discriminator is looked up by its attribute name, also when it differs from the field name or comes by alias."""
    class A(px.BaseXmlModel, tag='e'):
        type: Literal['a'] = px.attr(name='t-y')

    class B(px.BaseXmlModel, tag='e'):
        type: Literal['b'] = px.attr(name='t-y')

    class H(px.BaseXmlModel, tag='m'):
        u: Union[A, B] = Field(discriminator='type')
    eq(type(H.from_xml('<m><e t-y="b"/></m>').u), B, 'by attribute name')
    same_xml(H(u=A(type='a')).to_xml(), '<m><e t-y="a"/></m>', 'written')
    raises(pd.ValidationError, lambda: H.from_xml('<m><e type="b"/></m>'), 'field name is not the attribute name')


def refused():
    class A(px.BaseXmlModel, tag='e'):
        type: Literal['a'] = px.element()

    class B(px.BaseXmlModel, tag='e'):
        type: Literal['b'] = px.attr()

    def define():
        class H(px.BaseXmlModel, tag='m'):
            u: Union[A, B] = Field(discriminator='type')
    raises(px.errors.BaseError, define, 'discriminator must be an attribute')


def renamed(tag):
    """An explicit element name given by the field applies to every alternative."""
    class A(px.BaseXmlModel, tag='e'):
        type: Literal['a'] = px.attr()

    class B(px.BaseXmlModel, tag='f'):
        type: Literal['b'] = px.attr()

    class H(px.BaseXmlModel, tag='m'):
        u: Union[A, B] = px.element(tag=tag, discriminator='type')
    for v, c in (('a', A), ('b', B)):
        eq(type(H.from_xml(f'<m><{tag} type="{v}"/></m>').u), c, v)
        same_xml(H(u=c(type=v)).to_xml(), f'<m><{tag} type="{v}"/></m>', v)


def optional_disc():
    class A(px.BaseXmlModel, tag='e'):
        type: Literal['a'] = px.attr(default='a')
        v: Optional[int] = px.attr(default=None)

    class B(px.BaseXmlModel, tag='e'):
        type: Literal['b'] = px.attr(default='b')

    class H(px.BaseXmlModel, tag='m'):
        u: Optional[Union[A, B]] = Field(default=None, discriminator='type')
    same_xml(H(u=A(v=1)).to_xml(), '<m><e type="a" v="1"/></m>', 'defaulted tag')
    eq(H.from_xml('<m><e v="1"/></m>').u, None, 'no discriminator attribute: nothing selected')
    same_xml(H(u=A(v=1)).to_xml(exclude_unset=True), '<m><e v="1"/></m>', 'exclude_unset reaches the alternative')


def bodies(tags, mode):
    """Alternatives with bodies of their own: each is written and read by its own fields only."""
    class A(px.BaseXmlModel, tag=tags[0], search_mode=mode):
        kind: Literal['a'] = px.attr()
        x: int = px.attr()

    class B(px.BaseXmlModel, tag=tags[1], search_mode=mode):
        kind: Literal['b', 'bb'] = px.attr()
        y: List[int] = px.element(tag='y')

    class C(px.BaseXmlModel, tag=tags[2], search_mode=mode):
        kind: Literal['c'] = px.attr()
        x: str

    class H(px.BaseXmlModel, tag='m', search_mode=mode):
        u: Union[A, B, C] = Field(discriminator='kind')
        v: Optional[Union[C, B, A]] = Field(default=None, discriminator='kind')

    class L(px.BaseXmlModel, tag='m', search_mode=mode):
        u: List[Annotated[Union[A, B, C], Field(discriminator='kind')]] = px.element(default=[])
    vals = [A(kind='a', x=3), B(kind='b', y=[1, 2]), C(kind='c', x='t'), B(kind='bb', y=[])]
    text = ['<%s kind="a" x="3"/>' % tags[0], '<%s kind="b"><y>1</y><y>2</y></%s>' % (tags[1], tags[1]), '<%s kind="c">t</%s>' % (tags[2], tags[2]), '<%s kind="bb"/>' % tags[1]]
    for v, t in zip(vals, text):
        same_xml(H(u=v).to_xml(exclude_none=True), f'<m>{t}</m>', 'written by its own alternative')
        same_xml(H.model_construct(u=v, v=None).to_xml(exclude_none=True), f'<m>{t}</m>', 'constructed')
        if 'bb' not in t:
            eq(H.from_xml(f'<m>{t}</m>').u, v, 'read back')
        for v2, t2 in zip(vals, text):
            same_xml(H(u=v, v=v2).to_xml(), f'<m>{t}{t2}</m>', 'two fields')
    for k in range(4):
        for pick in itertools.permutations(range(4), k):
            same_xml(L(u=[vals[i] for i in pick]).to_xml(), '<m>' + ''.join(text[i] for i in pick) + '</m>', 'list')


def cases(rng, tier):
    n = 0
    for i, tags in enumerate([('e', 'e', 'e'), ('e', 'f', 'g'), ('e', 'f', 'e'), ('e', 'e', 'f')]):
        for mode in MODES:
            yield f'bodies/{i}-{mode.name}', lambda x=(tags, mode): bodies(*x)
    for spec in SPECS:
        for mode in MODES:
            for d in DOCS:
                for ns in (False, True):
                    yield f'read/{n}', lambda x=(spec, mode, d, ns): read(*x)
                    n += 1
    for i in range(400 if tier == 'thorough' else 120):
        spec = rng.choice(SPECS)
        seq = [rng.choice([v for s in spec for v in s[2]]) for _ in range(rng.randint(0, 5))]
        yield f'many/{i}', lambda x=(spec, rng.choice(MODES), seq): many(*x)
    yield 'isolation/0', isolation
    for i, spec in enumerate(SPECS):
        for j, fl in enumerate([{}, {'exclude_none': True}, {'skip_empty': True}, {'exclude_unset': True}]):
            yield f'write/{i}-{j}', lambda x=(spec, fl): write(*x)
    yield 'alias/0', aliasing
    yield 'refused/0', refused
    for t in ('e', 'q'):
        yield f'renamed/{t}', lambda t=t: renamed(t)
    yield 'default/0', optional_disc
