"""C10: serialization flags drop exactly what they promise."""
import datetime
import decimal
import enum
import itertools
from typing import Annotated, Dict, List, NamedTuple, Optional, Tuple, Union

import pydantic as pd
from pydantic import Field

from . import ref
from .lib import LXML, MODES, SearchMode, eq, etree, px, raises, same_xml, true

ALL = ['attr', 'text', 'elem', 'sub', 'list', 'tuple', 'wrap', 'delem', 'dattr', 'union']
FLAGS = [dict(zip(('skip_empty', 'exclude_none', 'exclude_unset'), f)) for f in itertools.product((False, True), repeat=3)]


def known_f11():
    class M(px.BaseXmlModel):
        a: List[Optional[str]] = px.wrapped('w', px.element('x'))
    same_xml(M(a=[None]).to_xml(skip_empty=True), '<M/>', 'an empty wrapper is left behind')


def exclude_none():
    class S(px.BaseXmlModel, tag='s'):
        a: Optional[int] = px.attr(default=None)
        e: Optional[int] = px.element(default=None)

    class M(px.BaseXmlModel, tag='m'):
        t: Optional[str] = None
        a: Optional[int] = px.attr(default=None)
        b: Optional[str] = px.attr(default='')
        e: Optional[int] = px.element(default=None)
        f: Optional[str] = px.element(default='')
        s: Optional[S] = None
        l: Optional[List[Optional[int]]] = px.element(tag='l', default=None)
        d: Optional[Dict[str, int]] = px.element(tag='d', default=None)
        w: Optional[int] = px.wrapped('w', px.element(tag='v'), default=None)
        tu: Optional[Tuple[Optional[int], Optional[int]]] = px.element(tag='tu', default=None)
    same_xml(M().to_xml(), '<m a="" b=""><e/><f/><d/></m>', 'nothing excluded')
    same_xml(M().to_xml(exclude_none=True), '<m b=""><f/></m>', 'missing values excluded, empty ones kept')
    m = M(t='', a=0, e=0, s=S(), l=[1, None, 2], d={}, w=0, tu=(None, 3))
    same_xml(m.to_xml(exclude_none=True), '<m a="0" b=""><e>0</e><f/><s/><l>1</l><l>2</l><d/><w><v>0</v></w><tu>3</tu></m>', 'falsy values are not missing')
    same_xml(m.to_xml(), '<m a="0" b=""><e>0</e><f/><s a=""><e/></s><l>1</l><l/><l>2</l><d/><w><v>0</v></w><tu/><tu>3</tu></m>', 'all')


def skip_empty():
    class S(px.BaseXmlModel, tag='s'):
        a: Optional[int] = px.attr(default=None)
        e: Optional[str] = px.element(default=None)

    class M(px.BaseXmlModel, tag='m'):
        a: Optional[int] = px.attr(default=None)
        b: Optional[str] = px.attr(default='')
        e: Optional[int] = px.element(default=None)
        f: Optional[str] = px.element(default='')
        s: Optional[S] = None
        l: Optional[List[Optional[str]]] = px.element(tag='l', default=None)
        d: Optional[Dict[str, int]] = px.element(tag='d', default=None)
        ss: Optional[List[S]] = px.element(tag='ss', default=None)
        tu: Optional[Tuple[Optional[str], Optional[str]]] = px.element(tag='tu', default=None)
    same_xml(M().to_xml(skip_empty=True), '<m b=""/>', 'empty sub-elements and missing values dropped')
    m = M(a=0, e=0, f='x', s=S(e=''), l=['a', '', None, 'b'], d={}, ss=[S(), S(a=0), S(e=''), S(e='y')], tu=('', 'z'))
    same_xml(m.to_xml(skip_empty=True), '<m a="0" b=""><e>0</e><f>x</f><l>a</l><l>b</l><ss a="0"/><ss><e>y</e></ss><tu>z</tu></m>', 'exactly the empty ones')
    same_xml(M(d={'k': 0}, s=S(a=1)).to_xml(skip_empty=True), '<m b=""><s a="1"/><d k="0"/></m>', 'attributes are content')


def exclude_unset():
    class S(px.BaseXmlModel, tag='s'):
        a: int = px.attr(default=1)
        e: Optional[int] = px.element(default=2)

    class R(px.RootXmlModel[int], tag='r'):
        root: int = 5

    class M(px.BaseXmlModel, tag='m'):
        a: int = px.attr(default=1)
        b: Optional[int] = px.attr(default=None)
        e: int = px.element(default=3)
        s: S = S()
        ss: List[S] = px.element(tag='ss', default=[])
        w: int = px.wrapped('w', px.element(tag='v'), default=4)
        r: R = px.element(tag='r', default=R())
    same_xml(M().to_xml(exclude_unset=True), '<m/>', 'all unset')
    same_xml(M(a=1).to_xml(exclude_unset=True), '<m a="1"/>', 'set to its default is set')
    same_xml(M(b=None, e=3).to_xml(exclude_unset=True), '<m b=""><e>3</e></m>', 'set to None is set')
    same_xml(M(b=None).to_xml(exclude_unset=True, exclude_none=True), '<m/>', 'both')
    same_xml(M(s=S(), ss=[S(a=1), S()], w=1).to_xml(exclude_unset=True), '<m><s/><ss a="1"/><ss/><w><v>1</v></w></m>', 'reaches nested models')
    m = M()
    m.e = 9
    same_xml(m.to_xml(exclude_unset=True), '<m><e>9</e></m>', 'set by assignment')
    same_xml(M(r=R(7)).to_xml(exclude_unset=True), '<m><r>7</r></m>', 'root models')
    same_xml(M(a=1, e=2).to_xml(exclude_unset=False), '<m a="1" b=""><e>2</e><s a="1"><e>2</e></s><w><v>4</v></w><r>5</r></m>', 'off')


def reach(build, flags):
    """The caller's flags reach every nested entity: a leaf with one missing, one empty and one unset field shows them."""
    class Leaf(px.BaseXmlModel, tag='leaf'):
        none: Optional[int] = px.attr(default=0)
        empty: Optional[str] = px.element(default=None)
        unset: int = px.attr(default=1)
    leaf = Leaf(none=None, empty='')
    M, mk = build(Leaf)
    got = etree.fromstring(mk(leaf).to_xml(**flags))
    el = got if got.tag == 'leaf' else got.find('.//leaf')
    drop = flags['skip_empty'] or flags['exclude_none']
    want = {} if drop else {'none': ''}
    if not flags['exclude_unset']:
        want['unset'] = '1'
    kids = [] if flags['skip_empty'] else ['empty']
    if not want and not kids:
        true(el is None, f'empty leaf dropped, {etree.tostring(got)}')
        return
    true(el is not None, f'leaf is written: {etree.tostring(got)} {flags}')
    eq((dict(el.attrib), [k.tag for k in el]), (want, kids), f'{flags}: {etree.tostring(got)}')


def builders():
    def sub(L):
        class M(px.BaseXmlModel, tag='m'):
            x: L
        return M, lambda v: M(x=v)

    def subsub(L):
        class N(px.BaseXmlModel, tag='n'):
            x: L

        class M(px.BaseXmlModel, tag='m'):
            n: N
        return M, lambda v: M(n=N(x=v))

    def lst(L):
        class M(px.BaseXmlModel, tag='m'):
            x: List[L]
        return M, lambda v: M(x=[v])

    def tup(L):
        class M(px.BaseXmlModel, tag='m'):
            x: Tuple[L, Optional[L]]
        return M, lambda v: M(x=(v, None))

    def named(L):
        NT = NamedTuple('NT', [('p', L), ('q', Optional[L])])

        class M(px.BaseXmlModel, tag='m'):
            x: NT
        return M, lambda v: M(x=NT(v, None))

    def wrap(L):
        class M(px.BaseXmlModel, tag='m'):
            x: L = px.wrapped('a/b')
        return M, lambda v: M(x=v)

    def union(L):
        class O(px.BaseXmlModel, tag='o'):
            q: int

        class M(px.BaseXmlModel, tag='m'):
            x: Union[O, L]
        return M, lambda v: M(x=v)

    def root(L):
        class R(px.RootXmlModel[L], tag='r'):
            pass
        return R, lambda v: R(v)

    def rootlist(L):
        class R(px.RootXmlModel[List[L]], tag='r'):
            pass

        class M(px.BaseXmlModel, tag='m'):
            x: R
        return M, lambda v: M(x=R([v]))

    def wraplist(L):
        class M(px.BaseXmlModel, tag='m'):
            x: List[Union[L]] = px.wrapped('a')
        return M, lambda v: M(x=[v])

    def computed(L):
        class M(px.BaseXmlModel, tag='m'):
            _v: pd.PrivateAttr = None

            @px.computed_element(tag='leaf')
            def x(self) -> L:
                return self._v

        def mk(v):
            m = M()
            m._v = v
            return m
        return M, mk
    return [sub, subsub, lst, tup, named, wrap, union, root, rootlist, wraplist, computed]


def tagged(flags):
    from typing import Literal

    class A(px.BaseXmlModel, tag='leaf'):
        k: Literal['a'] = px.attr()
        none: Optional[int] = px.attr(default=0)
        empty: Optional[str] = px.element(default=None)
        unset: int = px.attr(default=1)

    class B(px.BaseXmlModel, tag='leaf'):
        k: Literal['b'] = px.attr()

    class M(px.BaseXmlModel, tag='m'):
        x: Union[A, B] = Field(discriminator='k')
    got = etree.fromstring(M(x=A(k='a', none=None, empty='')).to_xml(**flags))[0]
    want = {'k': 'a'}
    if not (flags['skip_empty'] or flags['exclude_none']):
        want['none'] = ''
    if not flags['exclude_unset']:
        want['unset'] = '1'
    eq((dict(got.attrib), [k.tag for k in got]), (want, [] if flags['skip_empty'] else ['empty']), f'{flags}')


def own_skip(outer, inner, call):
    """A model's own setting replaces the caller's for that model and everything below it."""
    class In(px.BaseXmlModel, tag='in'):
        e: Optional[str] = px.element(default=None)
        f: str = px.element(default='f')

    class Mid(px.BaseXmlModel, tag='mid', skip_empty=inner):
        e: Optional[str] = px.element(default=None)
        i: In = In()

    class Out(px.BaseXmlModel, tag='out', skip_empty=outer):
        e: Optional[str] = px.element(default=None)
        m: Mid = Mid()
    got = etree.fromstring(Out().to_xml(skip_empty=call))
    s_out = call if outer is None else outer
    s_mid = s_out if inner is None else inner
    e = lambda s: [] if s else ['e']
    eq([k.tag for k in got], e(s_out) + ['mid'], f'outer {outer} {inner} {call}')
    mid = got.find('mid')
    eq([k.tag for k in mid], e(s_mid) + ['in'], f'mid {outer} {inner} {call}')
    eq([k.tag for k in mid.find('in')], e(s_mid) + ['f'], f'in {outer} {inner} {call}')


def own_skip_inherited():
    class Base(px.BaseXmlModel, skip_empty=True):
        e: Optional[str] = px.element(default=None)

    class D(Base, tag='d'):
        pass

    class D2(Base, tag='d', skip_empty=False):
        pass

    class R(px.RootXmlModel, tag='r', skip_empty=True):
        root: List[Optional[str]] = px.element(tag='x')
    same_xml(D().to_xml(), '<d/>', 'inherited')
    same_xml(D2().to_xml(skip_empty=True), '<d><e/></d>', 'own false wins over the caller')
    same_xml(R(['', None, 'a']).to_xml(), '<r><x>a</x></r>', 'root models too')


def raw_field():
    class M(px.BaseXmlModel, tag='m'):
        model_config = {'arbitrary_types_allowed': True}
        r: Optional[etree._Element if LXML else etree.Element] = px.element(tag='r', default=None)
    same_xml(M(r=etree.fromstring('<r/>')).to_xml(), '<m><r/></m>', 'kept')
    same_xml(M(r=etree.fromstring('<r/>')).to_xml(skip_empty=True), '<m/>', 'empty raw element skipped')
    same_xml(M(r=etree.fromstring('<r a="1"/>')).to_xml(skip_empty=True), '<m><r a="1"/></m>', 'not empty')
    for fl in FLAGS:
        same_xml(M(r=None).to_xml(**fl), '<m/>', 'missing')


class Blank(enum.Enum):
    NO = ''
    YES = 'y'


class Level(enum.IntEnum):
    LOW = 0


Silent = Annotated[int, pd.PlainSerializer(lambda v: None)]
Mute = Annotated[int, pd.PlainSerializer(lambda v: '')]
# (type, value, text written)
VALUES = [(str, '', ''), (str, ' ', ' '), (str, 'None', 'None'), (bytes, b'', ''), (bytes, b'0', '0'), (int, 0, '0'), (bool, False, 'false'), (float, 0.0, '0.0'), (float, -0.0, '-0.0'),
          (decimal.Decimal, decimal.Decimal(0), '0'), (datetime.timedelta, datetime.timedelta(0), 'PT0S'), (Blank, Blank.NO, ''), (Blank, Blank.YES, 'y'), (Level, Level.LOW, '0'),
          (Silent, 0, ''), (Silent, 7, ''), (Mute, 0, ''), (Mute, 7, ''), (int, None, None), (Mute, None, None)]


def leaves(ty, v, txt, flags):
    """Only missing values and, under skip_empty, elements without content are dropped; whatever else is falsy, or encoded as nothing, is not missing."""
    class S(px.BaseXmlModel, tag='s'):
        x: Optional[ty] = None

    class M(px.BaseXmlModel, tag='m'):
        t: Optional[ty] = None
        a: Optional[ty] = px.attr(default=None)
        e: Optional[ty] = px.element(default=None)
        s: S
        l: List[Optional[ty]] = px.element(tag='l')
        u: Tuple[Optional[ty], int] = px.element(tag='u')
        d: Dict[str, Optional[ty]] = px.element(tag='d')

        @px.computed_attr(name='ca')
        def ca(self) -> Optional[ty]:
            return v

        @px.computed_element(tag='ce')
        def ce(self) -> Optional[ty]:
            return v
    m = M(t=v, a=v, e=v, s=S(x=v), l=[v, v], u=(v, 1), d={'k': v, 'j': v})
    el = etree.fromstring(m.to_xml(**{k: f for k, f in flags.items() if k != 'exclude_unset'}))
    d = f'{ty} {v!r} {flags} {etree.tostring(el)}'
    none = v is None and (flags['skip_empty'] or flags['exclude_none'])
    txt = txt or ''
    gone = none or flags['skip_empty'] and not txt
    n = lambda t: [] if gone else [(t, txt)]
    if not (v is None and ty is Mute):
        eq(el.text or '', '' if none else txt, d + ' text')
        eq(dict(el.attrib), {} if none else {'a': txt, 'ca': txt}, d + ' attributes')
        s = [] if gone else [('s', txt)]
        if not gone or not flags['skip_empty']:
            s = [('s', '' if none else txt)]
        eq([(c.tag, c.text or '') for c in el], n('e') + s + n('l') * 2 + n('u') + [('u', '1'), ('d', '')] + n('ce'), d + ' elements')
    dtxt = txt
    eq(dict(el.find('d').attrib), {'k': dtxt, 'j': dtxt}, d + ' entries')


def cases(rng, tier):
    k = 4 if tier == 'thorough' else 1
    yield 'known/F11', known_f11
    for f in (exclude_none, skip_empty, exclude_unset, own_skip_inherited, raw_field):
        yield f.__name__ + '/0', f
    for b in builders():
        for i, fl in enumerate(FLAGS):
            if b.__name__ == 'computed' and fl['exclude_unset']:
                continue     # computed fields are never set explicitly
            yield f'reach/{b.__name__}-{i}', lambda b=b, fl=fl: reach(b, fl)
    for i, (ty, v, txt) in enumerate(VALUES):
        for fl in FLAGS:
            if not fl['exclude_unset']:
                yield f"leaves/{i}-{fl['skip_empty']}-{fl['exclude_none']}", lambda x=(ty, v, txt, fl): leaves(*x)
    for i, fl in enumerate(FLAGS):
        yield f'tagged/{i}', lambda fl=fl: tagged(fl)
    for o, i, c in itertools.product((None, True, False), (None, True, False), (False, True)):
        yield f'own/{o}-{i}-{c}', lambda x=(o, i, c): own_skip(*x)
    yield from ref.write_cases('random', rng, 250 * k, lambda r: ref.Gen(r, ALL, nillable=True).model())
    yield from ref.write_cases('skips', rng, 150 * k, lambda r: ref.Gen(r, ALL, skips=True).model())
