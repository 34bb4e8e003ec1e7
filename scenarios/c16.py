"""C16: mappings are bound to the attribute set of their element."""
import enum
from typing import Dict, List, Mapping, NamedTuple, Optional, Tuple, TypedDict, Union

import pydantic as pd

from . import ref
from .lib import LXML, MODES, SearchMode, eq, etree, px, raises, same_xml, true

try:
    from typing_extensions import TypedDict          # required by pydantic on this version of python
except ImportError:
    pass


class Color(enum.Enum):
    RED = 'red'


class TD(TypedDict):
    k1: int
    k2: str


NSMAP = {'p': 'http://p', 'q': 'http://q', '': 'http://d'}
PLACES = ['own', 'elem', 'wrapped', 'welem', 'list', 'tuple']


def holder(place, ty, ns_attrs, mns, fns, mode=SearchMode.STRICT):
    """a model holding a mapping; returns (class, wrap a value, unwrap)"""
    kw = dict(tag='m', ns_attrs=ns_attrs, ns=mns, nsmap=NSMAP if mns or fns else None, search_mode=mode)
    t = Optional[ty]
    if place == 'own':
        class M(px.BaseXmlModel, **kw):
            x: t = None
    elif place == 'elem':
        class M(px.BaseXmlModel, **kw):
            x: t = px.element(ns=fns, default=None)
            z: Optional[int] = px.element(default=None, ns='')
    elif place == 'wrapped':
        class M(px.BaseXmlModel, **kw):
            x: t = px.wrapped('w', ns=fns, default=None)
    elif place == 'welem':
        class M(px.BaseXmlModel, **kw):
            x: t = px.wrapped('w', px.element(ns=fns), default=None)
    elif place == 'list':
        class M(px.BaseXmlModel, **kw):
            x: Optional[List[ty]] = px.element(tag='x', ns=fns, default=None)
    else:
        class M(px.BaseXmlModel, **kw):
            x: Optional[Tuple[ty, int]] = px.element(tag='x', ns=fns, default=None)
    return M


def qn(ns, n):
    u = NSMAP.get(ns)
    return '{%s}%s' % (u, n) if u else n


def doc(place, at, ns_attrs, mns, fns):
    used = bool(mns or fns)
    e = lambda ns, n: qn(ns if ns is not None else '', n) if used else n
    near = fns if fns is not None else mns
    ans = {'own': mns, 'elem': near, 'wrapped': near, 'welem': near, 'list': near, 'tuple': near}[place]
    at = {(qn(ans, k) if used and ns_attrs and ans else k): v for k, v in at.items()}
    if place == 'own':
        return etree.Element(e(mns, 'm'), at)
    r = etree.Element(e(mns, 'm'))
    if place in ('elem', 'list', 'tuple'):
        etree.SubElement(r, e(near, 'x'), at)
        if place == 'tuple':
            etree.SubElement(r, e(near, 'x')).text = '5'
    elif place == 'wrapped':
        etree.SubElement(r, e(near, 'w'), at)
    else:
        etree.SubElement(etree.SubElement(r, e(mns, 'w')), e(near, 'x'), at)
    return r


def canon(e):
    return (e.tag, dict(e.attrib), e.text or '', [canon(c) for c in e], e.tail or '')


def both(place, ty, v, txt, ns_attrs, mns, fns):
    M = holder(place, ty, ns_attrs, mns, fns)
    val = [v] if place == 'list' else (v, 5) if place == 'tuple' else v
    want = doc(place, txt, ns_attrs, mns, fns)
    d = f'{place} {ty} {v} ns_attrs={ns_attrs} model ns={mns} field ns={fns}'
    if not (place == 'elem'):
        eq(canon(M(x=val).to_xml_tree()), canon(want), d + ' written')
    else:
        got = canon(M(x=val).to_xml_tree(exclude_none=True)) if mns or fns else None
        if got:
            eq(got, canon(want), d + ' written')
    r = M.from_xml_tree(want).x
    if not txt and place in ('own', 'wrapped', 'elem', 'welem', 'list', 'tuple'):
        true(not r or r in ([None], (None, 5), {}), d + ' empty') if place != 'tuple' else None
    else:
        eq(r, val, d + ' read')


def all_attributes(at):
    """All attributes of the element are read, whatever their names are; all of them are consumed."""
    class M(px.BaseXmlModel, tag='m'):
        model_config = {'extra': 'forbid'}
        a: Optional[Dict[str, str]] = None
        b: Optional[Dict[str, str]] = px.element(default=None)
        c: Optional[Dict[str, str]] = px.wrapped('w', default=None)
        again: Optional[Dict[str, str]] = None
    m = etree.Element('m', at)
    etree.SubElement(m, 'b', at)
    etree.SubElement(m, 'w', at)
    r = M.from_xml_tree(m)
    eq((r.a or {}, r.b or {}, r.c or {}, r.again), (at, at, at, None), str(at))

    class N(px.BaseXmlModel, tag='m', ns_attrs=True):
        model_config = {'extra': 'forbid'}
        a: Optional[Dict[str, str]] = None
    eq(N.from_xml_tree(etree.Element('m', at)).a or {}, {k.split('}')[-1]: v for k, v in at.items()}, f'{at} without namespaces')


def beside_attributes():
    """Attributes bound by earlier fields are gone; later ones find nothing."""
    class M(px.BaseXmlModel, tag='m'):
        a: Optional[str] = px.attr(default=None)
        r: Optional[Dict[str, str]] = None
        b: Optional[str] = px.attr(default=None)
    r = M.from_xml('<m a="1" b="2" c="3"/>')
    eq((r.a, r.r, r.b), ('1', {'b': '2', 'c': '3'}, None), 'order')
    t = M(a='1', r={'c': '3'}, b='2').to_xml_tree()
    eq(dict(t.attrib), {'a': '1', 'b': '2', 'c': '3'}, 'written')


def missing():
    class M(px.BaseXmlModel, tag='m'):
        a: Optional[Dict[str, int]] = None
        w: Optional[Dict[str, int]] = px.wrapped('w', default=None)
    same_xml(M().to_xml(), '<m/>')
    same_xml(M(a={}, w={}).to_xml(), '<m><w/></m>')
    same_xml(M(a={}, w={}).to_xml(skip_empty=True), '<m/>')
    same_xml(M(a={'x': 1}).to_xml(exclude_none=True), '<m x="1"/>')
    r = M.from_xml('<m/>')
    eq((r.a or None, r.w), (None, None), 'absent')

    class E(px.BaseXmlModel, tag='m'):
        e: Optional[Dict[str, int]] = px.element(default=None)
        f: Dict[str, int] = px.element(default={'d': 1})
    r = E.from_xml('<m/>')
    eq((r.e, r.f), (None, {'d': 1}), 'absent elements')
    r = E.from_xml('<m><f/></m>')
    true(not r.e, 'empty')


def errors():
    class M(px.BaseXmlModel, tag='m'):
        e: Dict[str, int] = px.element()
        f: Dict[int, int] = px.element()
        g: TD = px.element()
    e = raises(pd.ValidationError, lambda: M.from_xml('<m>\n<e a="1" b="x"/>\n<f a="1" b="2"/>\n<g k1="q"/></m>'))
    eq(sorted([(x['loc'], x['type']) for x in e.errors()]), sorted([(('e', 'b'), 'int_parsing'), (('f', 'a', '[key]'), 'int_parsing'), (('f', 'b', '[key]'), 'int_parsing'),
                                                      (('g', 'k1'), 'int_parsing'), (('g', 'k2'), 'missing')]), 'items')


def search(mode):
    class M(px.BaseXmlModel, tag='m', search_mode=mode):
        x: Optional[Dict[str, int]] = px.element(default=None)
        y: Optional[Dict[str, int]] = px.element(default=None)
    r = M.from_xml('<m><j k="9"/><y k="1"/><x k="2"/></m>')
    eq((r.x, r.y), {SearchMode.STRICT: (None, None), SearchMode.ORDERED: ({'k': 2}, None), SearchMode.UNORDERED: ({'k': 2}, {'k': 1})}[mode], str(mode))


def order_and_values():
    class M(px.BaseXmlModel, tag='m'):
        x: Dict[str, str] = px.element()

        @pd.field_serializer('x')
        def sx(self, x):
            return {'z': True, 'a': False, 'm': 3, 'b': 2.5, 'c': 'Text'}
    v = {'z': ''}
    t = M(x=v).to_xml_tree()
    eq(list(t[0].attrib.items()), [('z', 'true'), ('a', 'false'), ('m', '3'), ('b', '2.5'), ('c', 'Text')], 'order and values')

    class K(px.BaseXmlModel, tag='m'):
        x: Dict[str, Optional[int]] = px.element()
        y: Dict[Color, Color] = px.element()
    for skip in (False, True):
        for none in (False, True):
            t = K(x={'n': None, 'm': 0}, y={Color.RED: Color.RED}).to_xml_tree(skip_empty=skip, exclude_none=none)
            eq((dict(t[0].attrib), dict(t[1].attrib)), ({'n': '', 'm': '0'}, {'red': 'red'}), f'encoded keys and values, {skip} {none}')

    class B(px.BaseXmlModel, tag='m'):
        x: Dict[str, str]
        y: Dict[str, bytes] = px.wrapped('w')
    for skip in (False, True):
        for none in (False, True):
            t = B(x={'a': '', 'b': 'None', 'nil': ' '}, y={'a': b''}).to_xml_tree(skip_empty=skip, exclude_none=none)
            eq((dict(t.attrib), dict(t[0].attrib)), ({'a': '', 'b': 'None', 'nil': ' '}, {'a': ''}), f'every entry is written, {skip} {none}')


def cases(rng, tier):
    k = 4 if tier == 'thorough' else 1
    vals = [(Dict[str, int], {'k1': 1, 'k2': -2}, {'k1': '1', 'k2': '-2'}), (Dict[str, str], {'a': '', 'b': ' x '}, {'a': '', 'b': ' x '}),
            (Dict[str, bool], {'t': True, 'f': False}, {'t': 'true', 'f': 'false'}), (Dict[str, float], {'x': 1.5}, {'x': '1.5'}),
            (TD, {'k1': 3, 'k2': 'z'}, {'k1': '3', 'k2': 'z'}), (Mapping[str, int], {'k': 0}, {'k': '0'}), (Dict[Color, int], {Color.RED: 1}, {'red': '1'}),
            (Dict[str, int], {f'k{i}': i for i in range(30)}, {f'k{i}': str(i) for i in range(30)})]
    n = 0
    for place in PLACES:
        for ns_attrs in (False, True):
            for mns, fns in ((None, None), ('p', None), (None, 'q'), ('p', 'q'), ('', None), ('p', ''), ('', 'q')):
                if place == 'own' and fns is not None:
                    continue
                for ty, v, txt in vals:
                    yield f'both/{n}', lambda x=(place, ty, v, txt, ns_attrs, mns, fns): both(*x)
                    n += 1
    names = ['a', 'b', 'nil', '{http://p}a', '{http://q}b', '{http://www.w3.org/2001/XMLSchema-instance}nil', '{http://p}c-d.e', 'é']
    for i in range(80 * k):
        ks = [x for x in names if rng.random() < .35]
        loc = {}
        for x in ks:
            loc.setdefault(x.split('}')[-1], x)
        at = {x: rng.choice(['', '1', 'true', ' v ', 'é']) for x in loc.values()}
        yield f'all/{i}', lambda at=at: all_attributes(at)
    for f in (beside_attributes, missing, errors, order_and_values):
        yield f.__name__ + '/0', f
    for m in MODES:
        yield f'search/{m.value}', lambda m=m: search(m)
    kinds = ['delem', 'delem', 'dattr', 'attr', 'elem', 'wrap', 'list', 'sub']
    yield from ref.read_cases('random', rng, 150 * k, lambda r: ref.Gen(r, kinds, extra='mixed').model())
    yield from ref.write_cases('randomw', rng, 150 * k, lambda r: ref.Gen(r, kinds).model())
