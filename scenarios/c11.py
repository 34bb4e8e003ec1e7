"""C11: nillable entities use the nil marker on both sides."""
import itertools
from typing import Dict, List, Optional, Tuple, Union

import pydantic as pd

from . import ref
from .lib import LXML, MODES, SearchMode, eq, etree, px, raises, same_xml, true

XSI = 'http://www.w3.org/2001/XMLSchema-instance'
NIL = f'{{{XSI}}}nil'
D = f'xmlns:xsi="{XSI}"'


class S(px.BaseXmlModel, tag='s'):
    v: int = px.attr()
    e: Optional[str] = px.element(default=None)


def has_nil(el):
    return el.get(NIL)


def prim_write(ty, val, nillable, flags):
    class M(px.BaseXmlModel, tag='m'):
        x: Optional[ty] = px.element(nillable=nillable, default=None)
    got = etree.fromstring(M(x=val).to_xml(**flags))
    if val is None and (flags.get('exclude_none') or flags.get('skip_empty')):
        if flags.get('exclude_none'):
            eq(len(got), 0, 'missing value excluded')
        return
    if flags.get('skip_empty') and val == '':
        return
    eq(len(got), 1, f'{val!r} written')
    eq(has_nil(got[0]), 'true' if val is None and nillable else None, f'{val!r} nillable={nillable} {flags}')
    eq(got[0].text or '', '' if val is None else str(val).lower() if isinstance(val, bool) else str(val), 'text')


def sub_write(val, nillable, flags):
    class M(px.BaseXmlModel, tag='m'):
        x: Optional[S] = px.element(tag='x', nillable=nillable)
    got = etree.fromstring(M(x=val).to_xml(**flags))
    if val is None:
        if flags.get('exclude_none') or not nillable:
            eq(len(got), 0, 'nothing')
        elif not flags.get('skip_empty'):
            eq((len(got), has_nil(got[0]), len(got[0]), len(got[0].attrib)), (1, 'true', 0, 1), 'nil element')
    else:
        eq(has_nil(got[0]), None, 'never marked')
        eq(got[0].get('v'), str(val.v), 'content')


def prim_read(ty, nillable, mark, text, want):
    class M(px.BaseXmlModel, tag='m'):
        model_config = {'extra': 'forbid'}
        x: Optional[ty] = px.element(nillable=nillable, default=None)
        y: Optional[int] = px.element(default=None)
    doc = f'<m {D}><x{mark}>{text}</x><y>4</y></m>'
    if isinstance(want, list):
        e = raises(pd.ValidationError, lambda: M.from_xml(doc), doc)
        eq(sorted((x['loc'], x['type']) for x in e.errors()), sorted(want), doc)
    else:
        try:
            m = M.from_xml(doc)
        except pd.ValidationError as e:
            raise AssertionError(f'{doc}: {e.errors()}')
        eq(m.x, want, doc)
        eq(m.y, 4, 'what follows')


def sub_read(nillable, mark, want):
    class M(px.BaseXmlModel, tag='m'):
        x: Optional[S] = px.element(tag='x', nillable=nillable, default=None)
        y: Optional[int] = px.element(default=None)
    doc = f'<m {D}><x{mark} v="1"><e>t</e></x><y>4</y></m>'
    m = M.from_xml(doc)
    eq(m.x, want, doc)
    eq(m.y, 4, 'what follows')
    if want is None:      # the content is not looked at
        bad = f'<m {D}><x{mark} v="not a number"/><y>4</y></m>'
        eq(M.from_xml(bad).x, None, bad)
        eq(M.from_xml(f'<m {D}><x{mark}/><y>4</y></m>').x, None, 'no content')


def marker_consumed():
    class I(px.BaseXmlModel, tag='i'):
        a: Optional[int] = px.attr(default=None)

    class M(px.BaseXmlModel, tag='m'):
        model_config = {'extra': 'forbid'}
        x: Optional[int] = px.element(nillable=True, default=None)
        s: Optional[I] = px.element(tag='s', nillable=True, default=None)
        l: Optional[List[I]] = px.element(tag='l', nillable=True, default=None)
    eq(M.from_xml(f'<m {D}><x xsi:nil="true"/><s xsi:nil="true"/></m>').model_dump(), {'x': None, 's': None, 'l': None}, 'markers are not extra data')
    eq(M.from_xml(f'<m {D}><x xsi:nil="false">3</x><s xsi:nil="false" a="2"/></m>').model_dump(), {'x': 3, 's': {'a': 2}, 'l': None}, 'false marker consumed too')
    e = raises(pd.ValidationError, lambda: M.from_xml(f'<m {D}><x xsi:nil="true">3</x></m>'))
    eq([(x['loc'], x['input']) for x in e.errors()], [(('x',), '3')], 'content of a nil element is not bound')


def collections():
    class M(px.BaseXmlModel, tag='m'):
        l: List[Optional[int]] = px.element(tag='l', nillable=True)
        t: Tuple[Optional[int], Optional[int], Optional[str]] = px.element(tag='t', nillable=True)
        w: Optional[int] = px.wrapped('w', px.element(tag='v', nillable=True))
    m = M(l=[1, None, 2], t=(None, 3, None), w=5)
    nil = ' xsi:nil="true"'
    same_xml(m.to_xml(), f'<m {D}><l>1</l><l{nil}/><l>2</l><t{nil}/><t>3</t><t{nil}/><w><v>5</v></w></m>', 'items')
    same_xml(m.to_xml(exclude_none=True), '<m><l>1</l><l>2</l><t>3</t><w><v>5</v></w></m>', 'excluded')

    class T(px.BaseXmlModel, tag='m'):
        t: Tuple[Optional[int], Optional[int], Optional[str]] = px.element(tag='t', nillable=True)
        w: Optional[int] = px.wrapped('w', px.element(tag='v', nillable=True), default=None)
    r = T.from_xml(f'<m {D}><t{nil}/><t>3</t><t{nil}>zz</t><w><v{nil}>7</v></w></m>')
    eq((r.t, r.w), ((None, 3, None), None), 'read')


def text_nil():
    """A wrapped nillable text marks the wrapper element it is the text of."""
    class R(px.RootXmlModel, tag='r'):
        root: Optional[int] = px.element(tag='x', nillable=True, default=None)
    same_xml(R(None).to_xml(), f'<r {D}><x xsi:nil="true"/></r>', 'root model')
    eq(R.from_xml(f'<r {D}><x xsi:nil="true">8</x></r>').root, None, 'read')


def attr_never():
    class M(px.BaseXmlModel, tag='m'):
        a: Optional[int] = px.attr()
        e: Optional[int] = px.element()
        d: Optional[Dict[str, int]] = px.element(tag='d')
        t: Optional[str] = None
    got = M(a=None, e=None, d=None).to_xml()
    true(b'nil' not in (got if isinstance(got, bytes) else got.encode()), f'not nillable: {got}')


def computed():
    class M(px.BaseXmlModel, tag='m'):
        @px.computed_element(tag='c', nillable=True)
        def c(self) -> Optional[int]:
            return None

        @px.computed_element(tag='d')
        def d(self) -> Optional[int]:
            return None
    same_xml(M().to_xml(), f'<m {D}><c xsi:nil="true"/><d/></m>', 'computed')
    same_xml(M().to_xml(exclude_none=True), '<m/>', 'excluded')


def not_nillable_text():
    """A marker on an element bound to a non nillable primitive is plain data."""
    class M(px.BaseXmlModel, tag='m'):
        x: Optional[int] = px.element()
    eq(M.from_xml(f'<m {D}><x xsi:nil="true">3</x></m>').x, 3, 'not nillable: content is read')


def empty_as_string():
    class M(px.BaseXmlModel, tag='m'):
        x: Optional[str] = px.element(nillable=True, default=None)
    eq(M.from_xml(f'<m {D}><x xsi:nil="true"/></m>', empty_as_string=True).x, None, 'nil stays missing')
    eq(M.from_xml(f'<m {D}><x/></m>', empty_as_string=True).x, '', 'empty is a string')
    eq(M.from_xml(f'<m {D}><x xsi:nil="false"/></m>', empty_as_string=True).x, '', 'not nil')


def roundtrip(vals):
    class M(px.BaseXmlModel, tag='m'):
        a: Optional[int] = px.element(nillable=True, default=None)
        b: Optional[str] = px.element(nillable=True, default=None)
        c: Optional[bool] = px.element(nillable=True, default=None)
        s: Optional[S] = px.element(nillable=True, default=None)
    m = M(a=vals[0], b=vals[1], c=vals[2], s=None if vals[3] is None else S(v=vals[3]))
    back = M.from_xml(m.to_xml())
    eq((back.a, back.b, back.c, back.s and back.s.v), vals, 'round trip')


def cases(rng, tier):
    k = 4 if tier == 'thorough' else 1
    FL = [{}, {'exclude_none': True}, {'skip_empty': True}, {'exclude_unset': True}, {'exclude_none': True, 'skip_empty': True}]
    n = 0
    for (ty, vals), nl, fl in itertools.product([(int, (None, 0, 3)), (str, (None, '', 'a', 'nil')), (bool, (None, False, True))], (None, False, True), FL):
        for v in vals:
            yield f'primw/{n}', lambda x=(ty, v, nl, fl): prim_write(*x)
            n += 1
    for v, nl, fl in itertools.product((None, S(v=0), S(v=3)), (None, False, True), FL):
        yield f'subw/{n}', lambda x=(v, nl, fl): sub_write(*x)
        n += 1
    T, Fm, O = ' xsi:nil="true"', ' xsi:nil="false"', ' xsi:nil="yes"'
    for i, r in enumerate([(int, True, T, '', None), (int, True, Fm, '7', 7), (int, True, '', '7', 7), (int, True, '', 'q', [(('x',), 'int_parsing')]),
                           (int, False, '', '7', 7), (int, None, '', '7', 7), (str, True, T, '', None), (str, True, Fm, 'a', 'a'), (int, True, O, '7', 7),
                           (int, True, T, '7', [(('x',), 'extra_forbidden')]), (str, True, T, 'a', [(('x',), 'extra_forbidden')])]):
        yield f'primr/{i}', lambda r=r: prim_read(*r)
    for nl in (True, False, None):
        for i, (mk, w) in enumerate([(T, None), (Fm, S(v=1, e='t')), ('', S(v=1, e='t')), (O, S(v=1, e='t'))]):
            yield f'subr/{nl}-{i}', lambda x=(nl, mk, w): sub_read(*x)
    for f in (marker_consumed, collections, text_nil, attr_never, computed, not_nillable_text, empty_as_string):
        yield f.__name__ + '/0', f
    for i, v in enumerate(itertools.product((None, 0, 5), (None, 'x'), (None, False, True), (None, 4))):
        yield f'roundtrip/{i}', lambda v=v: roundtrip(v)
    kinds = ['elem', 'elem', 'sub', 'list', 'tuple', 'wrap', 'text']
    yield from ref.read_cases('random', rng, 120 * k, lambda r: ref.Gen(r, kinds, extra='mixed', nillable=True).model())
    yield from ref.write_cases('randomw', rng, 120 * k, lambda r: ref.Gen(r, kinds, nillable=True).model())
