"""C15: primitive values round-trip between text, attributes and elements."""
import datetime as dt
import decimal
import enum
import fractions
import ipaddress
import itertools
import pathlib
import uuid
from typing import Annotated, Any, List, Literal, Optional, Tuple, Union

import pydantic as pd

from . import ref
from .lib import LXML, MODES, SearchMode, eq, etree, px, raises, same_xml, true


class Color(enum.Enum):
    RED = 'red'
    BLUE = 'b l u e'


class Num(enum.IntEnum):
    ONE = 1
    TWO = 2


class StrE(str, enum.Enum):
    A = 'a'
    B = ''


UTC = dt.timezone.utc
# (type, value, canonical text)
VALUES = [
    (int, 0, '0'), (int, -5, '-5'), (int, 10 ** 30, '1' + '0' * 30), (int, 1, '1'),
    (float, 0.0, '0.0'), (float, -1.5, '-1.5'), (float, 1e300, '1e+300'), (float, 1e-7, '1e-07'), (float, 3.0, '3.0'),
    (str, 'a', 'a'), (str, ' a  b ', ' a  b '), (str, 'é<&>"\'', 'é<&>"\''), (str, 'True', 'True'), (str, 'None', 'None'), (str, '0', '0'), (str, '{x}y', '{x}y'),
    (bool, True, 'true'), (bool, False, 'false'),
    (bytes, b'ab', 'ab'),
    (decimal.Decimal, decimal.Decimal('1.20'), '1.20'), (decimal.Decimal, decimal.Decimal('1E+5'), '1E+5'), (decimal.Decimal, decimal.Decimal('0'), '0'),
    (dt.date, dt.date(2020, 2, 29), '2020-02-29'), (dt.time, dt.time(1, 2, 3), '01:02:03'), (dt.datetime, dt.datetime(2020, 1, 2, 3, 4, 5), '2020-01-02T03:04:05'),
    (dt.datetime, dt.datetime(2020, 1, 2, 3, 4, 5, tzinfo=UTC), '2020-01-02T03:04:05Z'), (dt.timedelta, dt.timedelta(days=1, seconds=1), 'P1DT1S'),
    (uuid.UUID, uuid.UUID(int=5), '00000000-0000-0000-0000-000000000005'),
    (Color, Color.RED, 'red'), (Color, Color.BLUE, 'b l u e'), (Num, Num.TWO, '2'), (StrE, StrE.A, 'a'),
    (Literal['x', 'y'], 'y', 'y'), (pathlib.Path, pathlib.Path('a/b'), 'a/b'), (ipaddress.IPv4Address, ipaddress.IPv4Address('1.2.3.4'), '1.2.3.4'),
    (pd.HttpUrl, pd.HttpUrl('http://a.b/c?d=e'), 'http://a.b/c?d=e'),
    (Union[int, float], 3, '3'), (Union[int, float], 2.5, '2.5'), (Union[bool, int], True, 'true'), (pd.Json[Any], {'a': [1, None]}, None),
    (pd.SecretStr, pd.SecretStr('q'), '**********'),
    (pd.conint(gt=1), 5, '5'), (Annotated[str, pd.Field(min_length=1)], 'zz', 'zz'),
]


def holders(ty):
    """the same type at every place a primitive can be bound to"""
    t = Optional[ty]

    class A(px.BaseXmlModel, tag='m'):
        before: Optional[int] = px.attr(default=None)
        x: t = px.attr(default=None)

    class T(px.BaseXmlModel, tag='m'):
        before: Optional[int] = px.attr(default=None)
        x: t = None

    class E(px.BaseXmlModel, tag='m'):
        before: Optional[int] = px.attr(default=None)
        x: t = px.element(default=None)

    class WA(px.BaseXmlModel, tag='m'):
        before: Optional[int] = px.attr(default=None)
        x: t = px.wrapped('w', px.attr(), default=None)

    class WT(px.BaseXmlModel, tag='m'):
        before: Optional[int] = px.attr(default=None)
        x: t = px.wrapped('w', default=None)

    class WE(px.BaseXmlModel, tag='m'):
        before: Optional[int] = px.attr(default=None)
        x: t = px.wrapped('w', px.element(), default=None)

    class RE(px.RootXmlModel, tag='m'):
        root: t = px.element(tag='x', default=None)

    class RT(px.RootXmlModel, tag='m'):
        root: t = None
    return dict(A=A, T=T, E=E, WA=WA, WT=WT, WE=WE, RE=RE, RT=RT)


def tree(where, txt):
    m = etree.Element('m', {} if where[0] == 'R' else {'before': '7'})
    if where == 'A':
        m.set('x', txt)
    elif where in ('T', 'RT'):
        m.text = txt
    elif where in ('E', 'RE'):
        etree.SubElement(m, 'x').text = txt
    else:
        w = etree.SubElement(m, 'w')
        if where == 'WA':
            w.set('x', txt)
        elif where == 'WT':
            w.text = txt
        else:
            etree.SubElement(w, 'x').text = txt
    return m


def canon(e):
    return (e.tag, dict(e.attrib), e.text or '', [canon(c) for c in e], e.tail or '')


def value(where, m):
    return m.root if where[0] == 'R' else m.x


def make(where, cls, v):
    return cls(v) if where[0] == 'R' else cls(before=7, x=v)


def roundtrip(ty, v, txt):
    for where, cls in holders(ty).items():
        if ty is pd.Json[Any]:
            m = make(where, cls, '{"a": [1, null]}')
            eq(value(where, m), v, 'json value')
            continue
        m = make(where, cls, v)
        out = m.to_xml_tree()
        eq(canon(out), canon(tree(where, txt)), f'{where} {ty} {v!r} written')
        if ty is pd.SecretStr:
            continue
        back = cls.from_xml_tree(tree(where, txt))
        got = value(where, back)
        eq(got, v, f'{where} {ty} {txt!r} read')
        true(type(got) is type(v), f'{where}: {type(got)} instead of {type(v)}')
        got = value(where, cls.from_xml(m.to_xml()))
        if not (isinstance(v, str) and v != v.strip()):
            eq(got, v, f'{where} {ty} {v!r} through a string')


def missing(ty):
    """A missing value is written as empty (attribute, text, element) and read back as missing."""
    for where, cls in holders(ty).items():
        m = make(where, cls, None)
        out = m.to_xml_tree()
        if where[0] == 'W':
            # nothing is written below a wrapper without a value
            eq(canon(out), canon(etree.Element('m', {'before': '7'})), f'{where} {ty}')
        else:
            eq(canon(out), canon(tree(where, '')), f'{where} {ty} missing')
        if where not in ('A', 'WA') or ty is str:
            got = value(where, cls.from_xml_tree(tree(where, '')))
            eq(got, '' if where in ('A', 'WA') else None, f'{where} {ty} empty')
        bare = etree.Element('m', {} if where[0] == 'R' else {'before': '7'})
        eq(value(where, cls.from_xml_tree(bare)), None, f'{where} {ty} absent')
        if where[0] == 'W':
            etree.SubElement(bare, 'w')
            eq(value(where, cls.from_xml_tree(bare)), None, f'{where} {ty} absent in the wrapper')


def empty_as_string(txt, where):
    cls = holders(str)[where]
    for flag in (False, True):
        got = value(where, cls.from_xml_tree(tree(where, txt), empty_as_string=flag))
        want = txt if txt else ('' if where in ('A', 'WA') else '' if flag else None)
        eq(got, want, f'{where} {txt!r} empty_as_string={flag}')
        bare = etree.Element('m', {} if where[0] == 'R' else {'before': '7'})
        if where != 'T' and where != 'RT':
            eq(value(where, cls.from_xml_tree(bare, empty_as_string=flag)), None, f'{where} absent')


def exact_text(txt):
    """The raw text is read exactly as it stands, whatever it looks like."""
    class M(px.BaseXmlModel, tag='m'):
        a: str = px.attr()
        e: str = px.element()
        t: str
    m = etree.Element('m', {'a': txt})
    m.text = txt
    etree.SubElement(m, 'e').text = txt
    r = M.from_xml_tree(m)
    eq((r.a, r.e, r.t), (txt, txt, txt), repr(txt))
    o = r.to_xml_tree()
    eq((o.get('a'), o[0].text, o.text), (txt, txt, txt), repr(txt))


def others_untouched():
    """Writing one entity never touches another one, in any order of fields."""
    def mk(order):
        ann = {'a': Optional[int], 'b': Optional[int], 't': Optional[int], 'e': Optional[int], 'f': Optional[int]}
        body = {'__module__': __name__, '__annotations__': {k: ann[k] for k in order}, 't': None, 'a': px.attr(default=None), 'b': px.attr(default=None),
                'e': px.element(default=None), 'f': px.element(default=None)}
        return type(px.BaseXmlModel)('M', (px.BaseXmlModel,), body, tag='m')
    for order in itertools.permutations('abtef'):
        m = mk(order)(a=1, b=2, t=3, e=4, f=5)
        t = m.to_xml_tree()
        eq((dict(t.attrib), t.text, [(c.tag, c.text) for c in t]), ({'a': '1', 'b': '2'}, '3', [(x, {'e': '4', 'f': '5'}[x]) for x in order if x in 'ef']), str(order))
        r = mk(order).from_xml_tree(t)
        eq((r.a, r.b, r.t, r.e, r.f), (1, 2, 3, 4, 5), str(order))


def same_text_twice():
    """What one field read is not there for another one bound to the same place."""
    class M(px.BaseXmlModel, tag='m'):
        t: Optional[str] = None
        u: Optional[str] = px.wrapped('w', default=None)
        v: Optional[str] = px.wrapped('w', default=None)
        x: Optional[str] = px.attr(name='k', default=None)
        y: Optional[str] = px.attr(name='k', default=None)
        e: Optional[str] = px.element(tag='e', default=None)
        f: Optional[str] = px.element(tag='e', default=None)
    r = M.from_xml('<m k="1">2<w>3</w><e>4</e></m>')
    eq((r.x, r.y, r.t, r.u, r.v, r.e, r.f), ('1', None, '2', '3', None, '4', None), 'consumed once')


def default_kept():
    class M(px.BaseXmlModel, tag='m'):
        a: Optional[int] = px.attr(default=5)
        t: Optional[int] = 6
        e: Optional[int] = px.element(default=7)
    r = M.from_xml('<m/>')
    eq((r.a, r.t, r.e), (5, 6, 7), 'absent')
    eq(r.model_fields_set, set(), 'unset')
    r = M.from_xml('<m a="0">0<e>0</e></m>')
    eq((r.a, r.t, r.e), (0, 0, 0), 'zero')
    r = M.from_xml('<m><e/></m>')
    eq((r.e, r.model_fields_set), (7, set()), 'empty is missing')


def json_fields():
    class M(px.BaseXmlModel, tag='m'):
        j: pd.Json[List[int]] = px.element()
    eq(M.from_xml('<m><j>[1, 2]</j></m>').j, [1, 2], 'json')


def serialized_form():
    """The text written is the one pydantic encodes the value into."""
    class M(px.BaseXmlModel, tag='m'):
        a: int = px.attr()
        e: List[float] = px.element(tag='e')
        b: bytes = px.element()

        @pd.field_serializer('a')
        def sa(self, v):
            return f'<{v}>'

        @pd.field_serializer('e')
        def se(self, v):
            return [x > 1 for x in v]
    t = M(a=1, e=[0.5, 2], b=b'q').to_xml_tree()
    eq((t.get('a'), [c.text for c in t]), ('<1>', ['false', 'true', 'q']), 'encoded')


def unusual_numbers(mode):
    """Values that do not equal themselves, or equal something they are not, are written like any other."""
    class M(px.BaseXmlModel, tag='m'):
        model_config = pd.ConfigDict(ser_json_inf_nan=mode)
        a: float = px.attr()
        b: float
        c: float = px.element()
        d: List[float] = px.element(default=[])
        w: float = px.wrapped('v', px.element())

    class R(px.RootXmlModel, tag='m'):
        model_config = pd.ConfigDict(ser_json_inf_nan=mode)
        root: float
    for x, txt in ((float('nan'), ('nan', 'NaN')), (float('inf'), ('inf', 'Infinity')), (float('-inf'), ('-inf', '-Infinity')), (0.0, ('0.0',)), (-0.0, ('-0.0',)), (1.0, ('1.0',))):
        for fl in ({}, {'skip_empty': True}, {'exclude_none': True}, {'exclude_unset': True}):
            t = M(a=x, b=x, c=x, d=[x, x], w=x).to_xml_tree(**fl)
            txts = [t.get('a'), t.text] + [c.text for c in t if c.tag != 'v'] + [t.find('v')[0].text]
            true(len(txts) == 6 and all(y in txt for y in txts), f'{x} {fl}: {txts}')
            true(R(x).to_xml_tree(**fl).text in txt, f'{x} {fl} as a root')
        back = M.from_xml_tree(t)
        true(all((y == x or y != y and x != x) and str(y) == str(x) for y in [back.a, back.b, back.c, *back.d, back.w]), f'{x}: read back {back}')


def cases(rng, tier):
    for m in ('constants', 'strings'):
        yield f'unusual/{m}', lambda m=m: unusual_numbers(m)
    k = 4 if tier == 'thorough' else 1
    for i, (ty, v, txt) in enumerate(VALUES):
        yield f'values/{i}', lambda x=(ty, v, txt): roundtrip(*x)
    for i, ty in enumerate([int, str, bool, float, Color, dt.date, decimal.Decimal, uuid.UUID, Union[int, float], bytes]):
        yield f'missing/{i}', lambda ty=ty: missing(ty)
    for i, (txt, w) in enumerate(itertools.product(['', ' ', 'a', '\n', '0'], ['A', 'T', 'E', 'WA', 'WT', 'WE', 'RE', 'RT'])):
        yield f'empty_as_string/{i}', lambda x=(txt, w): empty_as_string(*x)
    alphabet = ['a', ' ', '\n', '\t', 'é', '漢', '&', '<', '"', "'", '0', '{', '}', ']]>', '%s', '\\', '😀']
    for i in range(120 * k):
        yield f'text/{i}', lambda t=''.join(rng.choice(alphabet) for _ in range(rng.randint(1, 6))): exact_text(t)
    for i in range(60 * k):
        n = rng.randint(-10 ** rng.randint(1, 25), 10 ** rng.randint(1, 25))
        yield f'int/{i}', lambda n=n: roundtrip(int, n, str(n))
        x = rng.choice([rng.uniform(-1, 1), rng.uniform(-1e9, 1e9), rng.random() * 10 ** rng.randint(-200, 200)])
        yield f'float/{i}', lambda x=x: roundtrip(float, x, str(x))
    for f in (others_untouched, same_text_twice, default_kept, json_fields, serialized_form):
        yield f.__name__ + '/0', f
    kinds = ['elem', 'attr', 'text', 'wrap']
    yield from ref.read_cases('random', rng, 120 * k, lambda r: ref.Gen(r, kinds, extra='mixed', nillable=False).model())
    yield from ref.write_cases('randomw', rng, 120 * k, lambda r: ref.Gen(r, kinds).model())
