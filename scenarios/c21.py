"""C21: xml metadata of a field merges attribute by attribute, later wins."""
import copy
import itertools
import random
from typing import Annotated, Dict, List, Optional

import pydantic as pd

from .lib import LXML, MODES, SearchMode, eq, etree, px, raises, same_xml, true
from pydantic_xml.fields import XmlEntityInfo, extract_field_xml_entity_info
from pydantic_xml.typedefs import EntityLocation

Meta = type(px.BaseXmlModel)
ATTRS = ('location', 'path', 'ns', 'nsmap', 'nillable', 'wrapped')


def expected(infos):
    r = {}
    for a in ATTRS:
        given = [getattr(i, a) for i in infos if getattr(i, a) is not None]
        if a == 'nsmap':
            m = {}
            for g in given:
                m.update(g)
            r[a] = m if given else None
        else:
            r[a] = given[-1] if given else None
    return r


def snap(i):
    return None if i is None else {a: (dict(getattr(i, a)) if a == 'nsmap' and getattr(i, a) is not None else snap(getattr(i, a)) if a == 'wrapped' else getattr(i, a)) for a in ATTRS}


def values(x):
    return {a: (dict(getattr(x, a)) if a == 'nsmap' and getattr(x, a) is not None else getattr(x, a)) for a in ATTRS}


W = [XmlEntityInfo(EntityLocation.ELEMENT, path='in1', ns='i'), XmlEntityInfo(EntityLocation.ATTRIBUTE, path='in2')]


def rand_info(rng, maps):
    return XmlEntityInfo(rng.choice([None, *EntityLocation]), path=rng.choice([None, None, '', 'p', 'q', 'r/s']), ns=rng.choice([None, None, '', 'a', 'b']), nsmap=rng.choice([None, None, *maps]),
                         nillable=rng.choice([None, None, True, False]), wrapped=rng.choice([None, None, *W]))


def merge(seed):
    """Any list of declarations, directly merged."""
    rng = random.Random(seed)
    maps = [{}, {'': 'd'}, {'a': '1'}, {'a': '2', 'b': '3'}, {'': 'e', 'b': '4', 'c': '5'}]
    infos = [rand_info(rng, maps) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 6]))]
    before, m0 = [snap(i) for i in infos], copy.deepcopy(maps)
    r = XmlEntityInfo.merge(*infos)
    e = expected(infos)
    eq(values(r), e, f'{before}')
    true(r.wrapped is e['wrapped'], 'the very same inner declaration')
    eq([snap(i) for i in infos], before, 'declarations unchanged')
    eq(maps, m0, 'maps unchanged')
    # merging merged declarations changes nothing
    if infos:
        k = rng.randrange(len(infos) + 1)
        r2 = XmlEntityInfo.merge(XmlEntityInfo.merge(*infos[:k]), XmlEntityInfo.merge(*infos[k:])) if k else r
        eq(values(r2), e, 'piecewise')
    eq(values(XmlEntityInfo.merge(r)), e, 'again')
    # through a field
    f = pd.fields.FieldInfo(default=None)
    f.metadata.extend(x for i in infos for x in (['noise', i, 5] if rng.random() < .3 else [i]))
    meta = list(f.metadata)
    x = extract_field_xml_entity_info(f)
    if infos:
        eq(values(x), e, 'extracted')
    else:
        eq(x, None, 'no declaration')
    eq(len(f.metadata), len(meta), 'metadata unchanged')
    true(all(a is b for a, b in zip(f.metadata, meta)), 'metadata unchanged')
    eq([snap(i) for i in infos], before, 'declarations unchanged')


def pairs(attr, va, vb):
    """Every pair of values of one attribute; all other attributes come from whoever gives them."""
    a, b = {'location': None, attr: va}, {'location': None, attr: vb}
    r = XmlEntityInfo.merge(XmlEntityInfo(**a), XmlEntityInfo(**b))
    e = expected([XmlEntityInfo(**a), XmlEntityInfo(**b)])
    eq(values(r), e, f'{attr}: {va!r}, {vb!r}')


# -------------------------------------------------------------------------------- the effect on a model's field
NSM = {'a': 'urn:a', 'b': 'urn:b', '': 'urn:d'}


def field(seed):
    """Annotated chains: each step gives some of name, namespace, map, nillable; the field behaves like the merged declaration."""
    rng = random.Random(seed)
    steps, last_default = [], None
    n = rng.randint(1, 3)
    for i in range(n):
        steps.append(dict(tag=rng.choice([None, 'p', 'q']), ns=rng.choice([None, None, 'a', 'b', 'c', '']), nsmap=rng.choice([None, {'a': 'urn:a2'}, {'c': 'urn:c'}, {'c': 'urn:c2', 'b': 'urn:b2'}, {'': 'urn:d2'}]),
                          nillable=rng.choice([None, None, True, False])))
    eff = {k: ([s[k] for s in steps if s[k] is not None] or [None])[-1] for k in ('tag', 'ns', 'nillable')}
    nsmap = {}
    for s_ in steps:
        nsmap.update(s_['nsmap'] or {})
    if all(s_['nsmap'] is None for s_ in steps):
        nsmap = None
    full = {**NSM, **(nsmap or {})}
    own = [copy.deepcopy(s_) for s_ in steps]
    if eff['ns'] is not None and eff['ns'] not in full:
        return
    T = Optional[int]
    metas = [px.element(**s_) for s_ in steps]
    as_default = n == 1 and rng.random() < .5      # the order of an annotation's and an assigned declaration is pydantic's business
    if as_default:
        ann = Annotated.__class_getitem__((T, *metas[:-1])) if len(metas) > 1 else T
        body = {'x': metas[-1]}
    else:
        ann, body = Annotated.__class_getitem__((T, *metas)), {}
    body.update({'__module__': __name__, '__annotations__': {'x': ann}})
    M = Meta('M', (px.BaseXmlModel,), body, tag='m', nsmap=NSM, ns=rng.choice(['a', 'b', '']))
    ref = Meta('M', (px.BaseXmlModel,), {'__module__': __name__, '__annotations__': {'x': T}, 'x': px.element(tag=eff['tag'], ns=eff['ns'], nsmap=nsmap, nillable=eff['nillable'])},
               tag='m', nsmap=NSM, ns=M.__xml_ns__)
    ns = full.get(eff['ns'] if eff['ns'] is not None else M.__xml_ns__)
    name = f"{{{ns}}}{eff['tag'] or 'x'}"
    t = M(x=5).to_xml_tree()
    eq([c.tag for c in t], [name], f'{own} in {M.__xml_ns__!r}')
    for v in (5, None):
        same_xml(M(x=v).to_xml_tree(), ref(x=v).to_xml_tree(), f'{own}')
    nil = M(x=None).to_xml_tree()[0]
    eq(nil.get('{http://www.w3.org/2001/XMLSchema-instance}nil'), 'true' if eff['nillable'] else None, f'nillable {own}')
    eq(M.from_xml_tree(t).x, 5, 'read back')
    eq(steps, own, 'maps given unchanged')
    # the same alias used by another field, and the same declaration objects used again, are not affected
    M2 = Meta('M2', (px.BaseXmlModel,), {'__module__': __name__, '__annotations__': {'x': ann, 'y': Annotated[ann, px.element(tag='yy')]}, **({'x': metas[-1]} if as_default else {})}, tag='m', nsmap=NSM, ns=M.__xml_ns__)
    eq([c.tag.split('}')[1] for c in M2(x=1, y=2).to_xml_tree()], [eff['tag'] or 'x', 'yy'], 'shared alias')
    M3 = Meta('M3', (px.BaseXmlModel,), body | {'__annotations__': {'x': ann}}, tag='m', nsmap=NSM, ns=M.__xml_ns__)
    same_xml(M3(x=5).to_xml_tree(), M(x=5).to_xml_tree(), 'declared again')


def kinds(seq):
    """The kind of entity is the one given last; its name may come from earlier."""
    make = {'a': lambda n: px.attr(name=n), 'e': lambda n: px.element(tag=n), 'w': lambda n: px.wrapped(n or 'w', px.element(tag='in'))}
    names = [n for _, n in seq]
    ann = Annotated.__class_getitem__((Optional[int], *(make[k](n) for k, n in seq)))
    M = Meta('M', (px.BaseXmlModel,), {'__module__': __name__, '__annotations__': {'x': ann}}, tag='m')
    last = seq[-1][0]
    given = [n or ('w' if k == 'w' else None) for k, n in seq]
    name = ([g for g in given if g] or ['x'])[-1]
    doc = f'<m {name}="5"/>' if last == 'a' else f'<m><{name}>5</{name}></m>' if last == 'e' else f'<m><{name}><in>5</in></{name}></m>'
    same_xml(M(x=5).to_xml(), doc, f'{seq}')
    eq(M.from_xml(doc).x, 5, f'{seq}')


def wrapped_ns(inner, outer, kind, model_ns):
    """A wrapped declaration does not take the namespace settings of what it wraps."""
    if kind == 'a' and inner.get('ns') in ('', 'c'):
        return                  # refused for another reason
    ent = px.element(tag='in', **inner) if kind == 'e' else px.attr(name='in', **{k: v for k, v in inner.items() if k == 'ns'}) if kind == 'a' else px.wrapped('mid', px.element(tag='in', **inner)) if kind == 'w' else px.wrapped('mid', px.element(tag='in'), **inner)
    before = [snap(i) for i in ent.metadata]
    f = px.wrapped('w', ent, **outer)
    i = extract_field_xml_entity_info(f)
    eq((i.location, i.path, i.ns, i.nsmap), (EntityLocation.WRAPPED, 'w', outer.get('ns'), outer.get('nsmap')), 'outer settings')
    eq([snap(x) for x in ent.metadata], before, 'the wrapped declaration is unchanged')
    eq(snap(i.wrapped), before[0], 'and kept as it is')
    eq(len(f.metadata), 1, 'one declaration')
    kw = dict(ns=model_ns) if model_ns is not None else {}
    M = Meta('M', (px.BaseXmlModel,), {'__module__': __name__, '__annotations__': {'x': Optional[int]}, 'x': f}, tag='m', nsmap=NSM, **kw)
    t = M(x=5).to_xml_tree()
    own = {**NSM, **outer.get('nsmap', {})}
    ns = own[outer['ns'] if 'ns' in outer else model_ns if model_ns is not None else '']
    eq(t[0].tag, f'{{{ns}}}w', f'name of the wrapper: inner {inner}, outer {outer}, model {model_ns!r}')
    eq(M.from_xml_tree(t).x, 5, 'read back')


def wrapped_default():
    """Field settings of the wrapped declaration other than the xml ones are kept; what the wrapper gives wins."""
    class M(px.BaseXmlModel, tag='m'):
        a: int = px.wrapped('w', px.element(default=3))
        b: int = px.wrapped('w', px.element(), default=4)
        c: int = px.wrapped('w', px.element(ge=5))
        d: int = px.wrapped('w', px.element(exclude=True), default=1)
        f: List[int] = px.wrapped('w', px.element(default_factory=list))
    m = M.from_xml('<m><w><c>5</c></w></m>')
    eq(m.model_dump(), dict(a=3, b=4, c=5, f=[]), 'defaults')
    raises(pd.ValidationError, lambda: M(c=4), 'constraints')
    same_xml(m.to_xml(), '<m><w><a>3</a><b>4</b><c>5</c></w></m>')


def same_entity_twice():
    """One declaration object may be wrapped more than once."""
    e = px.element(tag='e', nsmap={'a': 'u'}, ns='a')

    class M(px.BaseXmlModel, tag='m'):
        x: int = px.wrapped('v', e)
        y: int = px.wrapped('w', e)
        z: int = e
    d = '<m xmlns:a="u"><v><a:e>1</a:e></v><w><a:e>2</a:e></w><a:e>3</a:e></m>'
    m = M.from_xml(d)
    eq((m.x, m.y, m.z), (1, 2, 3), 'read')
    same_xml(m.to_xml(), d)


def model_maps():
    """Declaring models and fields never alters the namespace maps handed in."""
    a, b, c = {'a': 'u1', '': 'd'}, {'b': 'u2', 'a': 'u3'}, {'c': 'u4', '': 'dd'}
    orig = copy.deepcopy([a, b, c])

    class S(px.BaseXmlModel, tag='s', nsmap=b, ns='b'):
        v: int = px.element(ns='c', nsmap=c)

    class M(px.BaseXmlModel, tag='m', nsmap=a, ns='a'):
        s: Annotated[S, px.element(nsmap=c)] = px.element(ns='b', nsmap=b)
        t: Optional[int] = px.wrapped('w', px.element(ns='c', nsmap=c), nsmap=b, ns='b', default=None)
        r: Optional[S] = px.element(default=None)

    class N(M, nsmap=c):
        pass
    m = N(s=S(v=1), t=2, r=S(v=2))
    d = m.to_xml()
    eq(N.from_xml(d), m, 'round trip')
    eq([a, b, c], orig, 'maps')
    eq(M.__xml_nsmap__, {'a': 'u1', '': 'd'}, 'the map of the base')


def inheritance():
    """A field redefined in a subclass takes the subclass's declaration only there."""
    class B(px.BaseXmlModel, tag='b'):
        x: int = px.element(tag='bx')

    class C(B, tag='c'):
        x: int = px.attr(name='cx')

    class D(C, tag='d'):
        pass
    same_xml(B(x=1).to_xml(), '<b><bx>1</bx></b>')
    same_xml(C(x=1).to_xml(), '<c cx="1"/>')
    same_xml(D(x=1).to_xml(), '<d cx="1"/>')
    same_xml(B(x=1).to_xml(), '<b><bx>1</bx></b>')


def cases(rng, tier):
    k = 6 if tier == 'thorough' else 1
    for f in (wrapped_default, same_entity_twice, model_maps, inheritance):
        yield f.__name__ + '/0', f
    vals = {'location': [None, *EntityLocation], 'path': [None, '', 'p', 'q'], 'ns': [None, '', 'a', 'b'], 'nsmap': [None, {}, {'a': '1'}, {'a': '2', 'b': '3'}, {'': 'd'}], 'nillable': [None, True, False], 'wrapped': [None, *W]}
    for a, vs in vals.items():
        for i, (x, y) in enumerate(itertools.product(vs, vs)):
            yield f'pairs/{a}{i}', lambda z=(a, x, y): pairs(*z)
    for i in range(400 * k):
        yield f'merge/{i}', lambda s=rng.randrange(1 << 30): merge(s)
    for i in range(200 * k):
        yield f'field/{i}', lambda s=rng.randrange(1 << 30): field(s)
    i = 0
    for n in (1, 2, 3):
        for seq in itertools.product(itertools.product('aew', (None, 'p', 'q')), repeat=n):
            i += 1
            if n < 3 or k > 1 or rng.random() < .1:
                yield f'kinds/{i}', lambda s=seq: kinds(s)
    inner = [{}, {'ns': 'a'}, {'ns': ''}, {'nsmap': {'a': 'urn:z'}}, {'ns': 'c', 'nsmap': {'c': 'urn:c'}}, {'ns': 'a', 'nsmap': {'a': 'urn:y', '': 'urn:x'}}]
    outer = [{}, {'ns': 'b'}, {'nsmap': {'a': 'urn:q'}}, {'ns': 'a', 'nsmap': {'a': 'urn:r'}}]
    for i, (a, b, kd, mn) in enumerate(itertools.product(inner, outer, 'eawv', (None, 'a', 'b', ''))):
        yield f'wrapped_ns/{i}', lambda z=(a, b, kd, mn): wrapped_ns(*z)
