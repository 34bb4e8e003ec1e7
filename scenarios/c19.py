"""C19: root handling is exact at the public entry points."""
import random
from typing import Any, Dict, Generic, List, NamedTuple, Optional, Tuple, TypeVar, Union

import pydantic as pd

from .lib import BACKEND, LXML, MODES, SearchMode, eq, etree, px, raises, same_xml, true

Meta = type(px.BaseXmlModel)
NSS = [None, '', 'a', 'b']
NSMAPS = [None, {'': 'urn:d'}, {'a': 'urn:a', 'b': 'urn:b'}, {'': 'urn:d', 'a': 'urn:a', 'b': 'urn:a'}]


def expected(tag, ns, nsmap):
    uri = (nsmap or {}).get(ns if ns is not None else '') if nsmap else None
    return f'{{{uri}}}{tag}' if uri else tag


def root_name(tag, ns, nsmap, root_model, seed):
    """Only a root with exactly the resolved name is accepted; any other one is refused before any validator runs."""
    if ns is not None and nsmap and ns not in nsmap:
        return
    rng = random.Random(seed)
    ran = []

    def check(cls, v):
        ran.append(v)
        return v

    def before(cls, v):
        ran.append(v)
        return v

    def hook(cls, element, field_name):
        ran.append(field_name)
        return None
    body = {'__module__': __name__, 'mv': pd.model_validator(mode='before')(classmethod(before))}
    kw = {k: v for k, v in dict(tag=tag, ns=ns, nsmap=nsmap).items() if v is not None}
    if root_model:
        M = type(px.RootXmlModel)('M', (px.RootXmlModel[Optional[int]],), {**body, '__annotations__': {'root': Optional[int]}, 'root': None}, **kw)
    else:
        M = Meta('M', (px.BaseXmlModel,), {**body, '__annotations__': {'x': Optional[int], 'h': Optional[int]}, 'x': px.attr(default=None), 'h': px.element(default=None),
                                           'fv': pd.field_validator('x', mode='before')(classmethod(check)), 'hk': px.xml_field_validator('h')(hook)}, **kw)
    name = expected(tag or 'M', ns, nsmap)
    others = [tag or 'M', (tag or 'M').upper() + 'x', (tag or 'M').swapcase(), '{urn:d}' + (tag or 'M'), '{urn:a}' + (tag or 'M'), '{urn:zz}' + (tag or 'M'), (tag or 'M')[:-1] or 'q', (tag or 'M') + '1']
    for other in others:
        for content in range(2):
            e = etree.Element(other)
            if content:
                e.set('x', '1')
                e.text = '5'
                etree.SubElement(e, name).set('x', '2')      # a match further down is no root
            for call in (lambda: M.from_xml_tree(e), lambda: M.from_xml(etree.tostring(e)), lambda: M.from_xml(etree.tostring(e, encoding='unicode'))):
                ran.clear()
                if other == name:
                    call()
                    true(ran, 'validators ran')
                else:
                    err = raises(px.errors.ParsingError, call, f'root {other} for {name}')
                    true(not isinstance(err, pd.ValidationError), 'a parsing error')
                    eq(ran, [], 'no validator runs')
    e = etree.Element(name)
    M.from_xml_tree(e)
    eq(M().to_xml_tree().tag, name, 'written root name')
    eq(etree.fromstring(M().to_xml()).tag, name, 'written root name')
    if LXML and nsmap:
        eq(dict(M().to_xml_tree().nsmap), {k or None: v for k, v in nsmap.items()}, 'namespace declarations of the root')


# -------------------------------------------------------------------------------------------------- context
def spy(log):
    def check(v, info):
        log.append((v, info.context))
        return v
    return check


def build_nested(log, mode):
    from typing import Annotated
    I = Annotated[Optional[str], pd.AfterValidator(spy(log))]
    P = Annotated[str, pd.AfterValidator(spy(log))]

    class Leaf(px.BaseXmlModel, tag='leaf', search_mode=mode):
        t: I = None
        a: I = px.attr(default=None)
        e: I = px.element(default=None)

    class Tag1(px.BaseXmlModel, tag='t1', search_mode=mode):
        kind: str = px.attr(default='one')
        t: I = None

    class NT(NamedTuple):
        x: I
        y: I

    class Root(px.RootXmlModel):
        root: I = None

    class Deep(px.RootXmlModel[List[Leaf]], tag='deep', search_mode=mode):
        pass

    from typing import Literal

    class Ka(px.BaseXmlModel, tag='k', search_mode=mode):
        kind: Literal['a'] = px.attr()
        e: I = px.element(default=None)

    class Kb(px.BaseXmlModel, tag='k', search_mode=mode):
        kind: Literal['b'] = px.attr()
        e: I = px.element(default=None)

    class M(px.BaseXmlModel, tag='m', search_mode=mode):
        txt: I = None
        sub: Leaf = px.element(tag='leaf')
        subs: List[Leaf] = px.element(tag='leafs')
        ls: List[P] = px.element(tag='ls')
        tup: Tuple[I, I] = px.element(tag='tup')
        nt: NT = px.element(tag='nt')
        w: I = px.wrapped('w/x', px.element(tag='y'))
        ws: Leaf = px.wrapped('v', px.element(tag='leaf'))
        r: Root = px.element(tag='r')
        d: Deep
        u: Union[Tag1, Leaf]
        k: Union[Ka, Kb] = px.element(tag='k', discriminator='kind')
        pu: Optional[Union[int, P]] = px.element(tag='pu', default=None)
        lu: List[Union[Tag1, Leaf]] = px.wrapped('lu')
        tl: List[Tuple[I, I]] = px.element(tag='tl')
    return M


DOC = ('<m>{v}<leaf a="{v}">{v}<e>{v}</e></leaf><leafs>{v}</leafs><leafs><e>{v}</e></leafs><ls>{p}</ls><ls>{p}</ls><tup>{v}</tup><tup>{v}</tup>'
       '<nt>{v}</nt><nt>{v}</nt><w><x><y>{v}</y></x></w><v><leaf a="{v}">{v}<e>{v}</e></leaf></v><r>{v}</r><deep><leaf>{v}<e>{v}</e></leaf><leaf><e>{v}</e></leaf></deep>'
       '<t1>{v}</t1><k kind="b"><e>{v}</e></k><pu>{v}</pu><lu><t1>{v}</t1><leaf>{v}<e>{v}</e></leaf></lu><tl>{v}</tl><tl>{v}</tl></m>')


def context(mode, ctx, empty_as_string, src):
    """The validation context reaches every nested validator unchanged, as the same object."""
    log = []
    M = build_nested(log, mode)
    doc = DOC.format(v='Q', p='P')
    data = etree.fromstring(doc) if src == 'tree' else doc if src == 'str' else doc.encode()
    (M.from_xml_tree if src == 'tree' else M.from_xml)(data, context=ctx, empty_as_string=empty_as_string)
    true(len(log) >= 25, f'{len(log)} validators ran')
    for v, c in log:
        true(c is ctx, f'context of {v}: {c!r}')
    log.clear()
    (M.from_xml_tree if src == 'tree' else M.from_xml)(data)
    true(all(c is None for _, c in log), 'no context by default')


def empties(mode, empty, src):
    """Empty content is read as missing or as an empty string everywhere, by the caller's choice."""
    log = []
    M = build_nested(log, mode)
    doc = DOC.format(v='', p='')
    if not empty:
        doc = DOC.format(v='', p='P')
    data = etree.fromstring(doc) if src == 'tree' else doc if src == 'str' else doc.encode()
    m = (M.from_xml_tree if src == 'tree' else M.from_xml)(data, empty_as_string=empty) if empty else None
    if not empty:
        # tuples of nothing are missing: every required collection of empty items is reported, nothing else
        for kw in ({}, {'empty_as_string': False}):
            e = raises(pd.ValidationError, lambda: (M.from_xml_tree if src == 'tree' else M.from_xml)(data, **kw))
            eq(sorted({x['loc'][0] for x in e.errors()}), ['nt', 'tl', 'tup', 'w'], 'missing')
        return
    z = ''
    leaf = dict(t=z, a=z, e=z)
    got = m.model_dump()
    exp = dict(txt=z, sub=leaf, subs=[dict(t=z, a=None, e=None), dict(t=z, a=None, e=z)], ls=[z, z], tup=(z, z), nt=(z, z), w=z, ws=leaf, r=z,
               d=[dict(t=z, a=None, e=z), dict(t=z, a=None, e=z)], u=dict(kind='one', t=z), k=dict(kind='b', e=z), pu=z,
               lu=[dict(kind='one', t=z), dict(t=z, a=None, e=z)], tl=[(z, z)])
    for k in exp:
        eq(got[k], exp[k], k)


# ---------------------------------------------------------------------------------------- variants and flags
def make(seed):
    rng = random.Random(seed)

    class S(px.BaseXmlModel, tag='s'):
        v: Optional[int] = px.attr(default=None)
        t: Optional[str] = None
    kinds = {'attr': (Optional[int], lambda: px.attr(default=None), lambda: rng.randint(0, 9)), 'elem': (Optional[str], lambda: px.element(default=None), lambda: rng.choice(['', 'x', 'ü<&'])),
             'sub': (Optional[S], lambda: px.element(default=None), lambda: S(**rng.choice([{}, {'v': 1}, {'v': None}, {'t': 'é'}]))),
             'list': (Optional[List[S]], lambda: px.element(default=None), lambda: [S(), S(v=2)]), 'wrap': (Optional[int], lambda: px.wrapped('w', px.element(), default=None), lambda: 4),
             'map': (Optional[Dict[str, str]], lambda: px.element(default=None), lambda: rng.choice([{}, {'q': 'ß'}]))}
    n = rng.randint(0, 5)
    spec = [rng.choice(list(kinds)) for _ in range(n)]
    ann = {f'f{i}': kinds[k][0] for i, k in enumerate(spec)}
    body = {f'f{i}': kinds[k][1]() for i, k in enumerate(spec)}
    nsmap = rng.choice(NSMAPS)
    kw = dict(tag='m', search_mode=rng.choice(MODES))
    if nsmap:
        kw['nsmap'] = nsmap
        kw['ns'] = rng.choice(list(nsmap))
    M = Meta('M', (px.BaseXmlModel,), {'__module__': __name__, '__annotations__': ann, **body}, **kw)
    vals = {f'f{i}': rng.choice([None, kinds[k][2](), kinds[k][2]()]) for i, k in enumerate(spec) if rng.random() < .8}
    return M, M(**vals), spec, rng


def flat(e):
    return (e.tag, dict(e.attrib), e.text or '', [flat(c) for c in e])


def variants(seed):
    """to_xml(flags, kw) is the text of to_xml_tree(flags); from_xml is from_xml_tree of the parsed text; flags do not leak between calls."""
    M, m, spec, rng = make(seed)
    flags = [dict(zip(('skip_empty', 'exclude_none', 'exclude_unset'), b)) for b in [(x & 1 > 0, x & 2 > 0, x & 4 > 0) for x in range(8)]]
    rng.shuffle(flags)
    base = flat(m.to_xml_tree())
    for f in flags:
        t = m.to_xml_tree(**f)
        for kw in ({}, {'encoding': 'utf-8'}, {'encoding': 'unicode'}, {'encoding': 'utf-8', 'xml_declaration': True}, {'encoding': 'iso-8859-1'}):
            s, ref = m.to_xml(**f, **kw), etree.tostring(t, **kw)
            eq(type(s), type(ref), f'type of the text for {kw}')
            eq(s, ref, f'{spec} {f} {kw}')
        on = {k: v for k, v in f.items() if v}
        eq(flat(m.to_xml_tree(**on)), flat(t), 'flags default to off')
        eq(flat(m.to_xml_tree(**f)), flat(t), 'writing twice')
    eq(flat(m.to_xml_tree()), base, 'writing again without flags')
    eq(t.getparent() if LXML else None, None, 'a root element')
    text = m.to_xml()
    for e in (False, True):
        def read(f):
            try:
                return f().model_dump()
            except pd.ValidationError as x:
                return [(y['type'], y['loc']) for y in x.errors(include_url=False)]
        a = read(lambda: M.from_xml_tree(etree.fromstring(text), empty_as_string=e))
        eq(read(lambda: M.from_xml(text, empty_as_string=e)), a, 'bytes')
        eq(read(lambda: M.from_xml(m.to_xml(encoding='unicode'), empty_as_string=e)), a, 'str')
        eq(read(lambda: M.from_xml(m.to_xml(encoding='iso-8859-1', xml_declaration=True), empty_as_string=e)), a, 'another encoding')
        eq(read(lambda: M.from_xml(source=text, empty_as_string=e, context={'k': 1})), a, 'with context')


def flags_alone():
    """Each flag does its own thing at the entry points."""
    class S(px.BaseXmlModel, tag='s'):
        a: Optional[int] = px.attr(default=None)
        e: Optional[int] = px.element(default=None)

    class M(px.BaseXmlModel, tag='m'):
        a: Optional[int] = px.attr(default=None)
        e: Optional[int] = px.element(default=None)
        s: Optional[S] = px.element(default=None)
        d: int = px.element(default=7)
    m = M(a=None, s=S(e=None))
    for via in (lambda **f: m.to_xml(**f), lambda **f: m.to_xml_tree(**f)):
        same_xml(via(), '<m a=""><e/><s a=""><e/></s><d>7</d></m>')
        same_xml(via(skip_empty=True), '<m><d>7</d></m>')
        same_xml(via(exclude_none=True), '<m><s/><d>7</d></m>')
        same_xml(via(exclude_unset=True), '<m a=""><s><e/></s></m>')
        same_xml(via(exclude_none=True, exclude_unset=True), '<m><s/></m>')
        same_xml(via(skip_empty=True, exclude_unset=True), '<m/>')
    raises(TypeError, lambda: m.to_xml_tree(True), 'flags by name only')


def parser_kwargs():
    """Keyword arguments of from_xml go to the xml parser."""
    class M(px.BaseXmlModel, tag='m'):
        x: str = px.element()
        y: Optional[str] = None
    seen = []

    def parser():
        if LXML:
            return etree.XMLParser(remove_blank_text=True)
        return etree.XMLParser()
    m = M.from_xml('<m> <x>1</x></m>', parser=parser())
    eq((m.x, m.y), ('1', None if LXML else ' '), 'parser used')
    raises(TypeError, lambda: M.from_xml('<m><x>1</x></m>', no_such_option=1), 'unknown option')
    raises(TypeError, lambda: M(x='1').to_xml(no_such_option=1), 'unknown option')
    raises(SyntaxError, lambda: M.from_xml('<m><x>'), 'not well-formed')      # ParseError / XMLSyntaxError


def sub_tree_root():
    """A sub-element can be the root of a document of its own and is read from that element on."""
    class M(px.BaseXmlModel, tag='m'):
        x: List[int] = px.element()
    t = etree.fromstring('<a><m><x>1</x><x>2</x></m><m><x>3</x></m></a>')
    eq([M.from_xml_tree(c).x for c in t], [[1, 2], [3]], 'sub trees')
    raises(px.errors.ParsingError, lambda: M.from_xml_tree(t))


def own_class_name():
    class Foo(px.BaseXmlModel):
        x: int = px.attr()

    class Bar(Foo, tag='bar'):
        pass

    class Baz(Bar):
        pass
    for C, n in ((Foo, 'Foo'), (Bar, 'bar'), (Baz, 'bar')):
        eq(C(x=1).to_xml_tree().tag, n, 'name')
        eq(type(C.from_xml(f'<{n} x="1"/>')), C, 'an object of the class asked')
        raises(px.errors.ParsingError, lambda: C.from_xml('<qux x="1"/>'))
    # used as a field the name may differ; the root name stays
    class H(px.BaseXmlModel, tag='h'):
        f: Foo = px.element(tag='g')
    eq(H.from_xml('<h><g x="1"/></h>').f.to_xml_tree().tag, 'Foo', 'root name of a model that was read under another name')


def subclass_instances():
    """An object is written by its own class's serializer at the root."""
    class A(px.BaseXmlModel, tag='a'):
        x: int = px.attr(default=1)

    class B(A, tag='b'):
        y: int = px.attr(default=2)
    same_xml(B().to_xml(), '<b x="1" y="2"/>')


def generic_root():
    T = TypeVar('T')

    class G(px.BaseXmlModel, Generic[T], tag='g'):
        v: T = px.element()
    eq(G[int].from_xml('<g><v>3</v></g>').v, 3, 'generic')
    same_xml(G[int](v=3).to_xml(), '<g><v>3</v></g>')
    raises(AssertionError, lambda: G.from_xml('<g><v>3</v></g>'), 'an unparametrized generic model is not usable')


def forward_refs():
    class L(px.BaseXmlModel, tag='l'):
        v: int = px.attr()
        n: Optional['L'] = px.element(tag='l', default=None)
    L.model_rebuild(_types_namespace={'L': L})
    doc = '<l v="1"><l v="2"><l v="3"/></l></l>'
    m = L.from_xml(doc)
    eq(m.model_dump(), {'v': 1, 'n': {'v': 2, 'n': {'v': 3, 'n': None}}}, 'read')
    same_xml(m.to_xml(exclude_none=True), doc)


def cases(rng, tier):
    k = 5 if tier == 'thorough' else 1
    for f in (flags_alone, parser_kwargs, sub_tree_root, own_class_name, subclass_instances, generic_root, forward_refs):
        yield f.__name__ + '/0', f
    i = 0
    for tag in (None, 'm', 'Foo-x'):
        for ns in NSS:
            for nsmap in NSMAPS:
                for r in (False, True):
                    i += 1
                    yield f'root_name/{i}', lambda x=(tag, ns, nsmap, r, i): root_name(*x)
    i = 0
    for mode in MODES:
        for src in ('tree', 'str', 'bytes'):
            for ctx in ({'a': 1}, {}):
                for e in (False, True):
                    i += 1
                    yield f'context/{i}', lambda x=(mode, ctx, e, src): context(*x)
            for e in (False, True):
                i += 1
                yield f'empties/{i}', lambda x=(mode, e, src): empties(*x)
    for i in range(100 * k):
        yield f'variants/{i}', lambda s=rng.randrange(1 << 30): variants(s)
