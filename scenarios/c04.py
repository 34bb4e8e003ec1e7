"""C04: forbidden extras are reported completely and exactly (reference consumption model as oracle)."""
from typing import Dict, List, Optional, Tuple, Union

import pydantic as pd

from . import ref
from .lib import LXML, MODES, SearchMode, eq, etree, px, raises, true

ALL = ['attr', 'text', 'elem', 'sub', 'list', 'tuple', 'wrap', 'delem', 'dattr', 'union']
F = {'extra': 'forbid'}


def extras(cls, doc):
    """[(loc, input)] of the reported extras, [] when accepted."""
    root = etree.fromstring(doc)
    try:
        cls.from_xml_tree(root)
    except pd.ValidationError as e:
        out = []
        for x in e.errors():
            eq(x['type'], 'extra_forbidden', f'{doc}: error type of {x}')
            out.append((x['loc'], x['input']))
        return sorted(out)
    return []


def fixed(cls, doc, want):
    eq(extras(cls, doc), sorted(want), doc)


def table():
    class Empty(px.BaseXmlModel, tag='m'):
        model_config = F

    class TextOnly(px.BaseXmlModel, tag='m'):
        model_config = F
        t: Optional[str] = None

    class Nested(px.BaseXmlModel, tag='m', search_mode=SearchMode.UNORDERED):
        model_config = F

        class In(px.BaseXmlModel, tag='i'):
            a: Optional[str] = px.attr(default=None)
            y: Optional[str] = px.element(default=None)
        i: Optional[In] = None
        xs: Optional[List[int]] = px.element(tag='x', default=None)

    class A1(px.BaseXmlModel, tag='u'):
        a: int = px.attr()

    class B1(px.BaseXmlModel, tag='u'):
        b: Optional[str] = px.attr(default=None)

    class U(px.BaseXmlModel, tag='m'):
        model_config = F
        u: Union[A1, B1]

    class Raw(px.BaseXmlModel, tag='m'):
        model_config = dict(F, arbitrary_types_allowed=True)
        r: etree._Element if LXML else etree.Element = px.element('r')

    class Dct(px.BaseXmlModel, tag='m'):
        model_config = F
        d: Dict[str, str]

    class DctE(px.BaseXmlModel, tag='m'):
        model_config = F
        d: Optional[Dict[str, str]] = px.element('d', default=None)

    class Comp(px.BaseXmlModel, tag='m'):
        model_config = F
        a: Optional[str] = px.attr(default=None)

        @px.computed_element(tag='c')
        def c(self) -> str:
            return 'c'

        @px.computed_attr(name='ca')
        def ca(self) -> str:
            return 'ca'

    class Nilm(px.BaseXmlModel, tag='m'):
        model_config = F
        x: Optional[int] = px.element(nillable=True, default=None)

    class Sub(px.BaseXmlModel, tag='s'):
        q: Optional[str] = px.attr(default=None)

    class Nils(px.BaseXmlModel, tag='m'):
        model_config = F
        s: Optional[Sub] = px.element(nillable=True, default=None)

    class Hook(px.BaseXmlModel, tag='m'):
        model_config = F
        h: Optional[str] = px.element('h', default=None)

        @px.xml_field_validator('h')
        def read_h(cls, el, name):
            e = el.pop_element('other', SearchMode.STRICT)
            return e.pop_text() if e else None

    class Wrapped(px.BaseXmlModel, tag='m'):
        model_config = F
        w: Optional[str] = px.wrapped('p/q', px.attr('a', default=None))

    class Tup(px.BaseXmlModel, tag='m'):
        model_config = F
        t: Optional[Tuple[int, int]] = px.element('t', default=None)

    nil = 'xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"'
    X = '{http://www.w3.org/2001/XMLSchema-instance}nil'
    return [
        (Empty, '<m/>', []),
        (Empty, '<m> \n\t </m>', []),
        (Empty, '<m>t</m>', [((), 't')]),
        (Empty, '<m a="1" b="2"/>', [(('@a',), '1'), (('@b',), '2')]),
        (Empty, '<m a=""/>', [(('@a',), '')]),
        (Empty, '<m><k/></m>', []),
        (Empty, '<m><k>v</k>tail<k>v</k></m>', [(('k',), 'tail'), (('k',), 'v'), (('k',), 'v')]),
        (Empty, '<m><k><l><n z="9">q</n></l></k></m>', [(('k', 'l', 'n'), 'q'), (('k', 'l', 'n', '@z'), '9')]),
        (Empty, '<m xmlns:p="v"><p:k p:a="1"/></m>', [(('{v}k', '@{v}a'), '1')]),
        (TextOnly, '<m>t</m>', []), (TextOnly, '<m>t<k/></m>', []), (TextOnly, '<m>t<k/>tail</m>', [(('k',), 'tail')]),
        (Nested, '<m><i a="1" b="2"><y>t</y><y>again</y></i><x>1</x><x>2</x></m>', [(('i', '@b'), '2'), (('i', 'y'), 'again')]),
        (Nested, '<m><i a="1"/><i a="2"/></m>', [(('i', '@a'), '2')]),
        (Nested, '<m><x>1</x><z>n</z><x>2</x></m>', [(('z',), 'n')]),
        (Nested, '<m><x q="1">1</x><x>2<sub>3</sub></x></m>', [(('x', '@q'), '1'), (('x', 'sub'), '3')]),
        (U, '<m><u a="1"/></m>', []), (U, '<m><u b="1"/></m>', []),
        (U, '<m><u a="1" b="2"/></m>', [(('u', '@b'), '2')]),
        (U, '<m><u a="x" b="2"/></m>', [(('u', '@a'), 'x')]),
        (Raw, '<m><r a="1">t<k>v</k></r></m>', []), (Raw, '<m><r/><r a="1"/></m>', [(('r', '@a'), '1')]),
        (Dct, '<m a="1" b="2"/>', []), (Dct, '<m a="1">t</m>', [((), 't')]),
        (DctE, '<m><d a="1"/></m>', []), (DctE, '<m c="3"><d a="1">t</d></m>', [(('@c',), '3'), (('d',), 't')]),
        (Comp, '<m a="1"/>', []), (Comp, '<m ca="1"><c>v</c></m>', [(('@ca',), '1'), (('c',), 'v')]),
        (Nilm, f'<m {nil}><x xsi:nil="true"/></m>', []), (Nilm, f'<m {nil}><x xsi:nil="true">7</x></m>', [(('x',), '7')]),
        (Nilm, f'<m {nil}><x xsi:nil="false">7</x></m>', []),
        (Nils, f'<m {nil}><s xsi:nil="true"/></m>', []), (Nils, f'<m {nil}><s xsi:nil="true" q="1"/></m>', [(('s', '@q'), '1')]),
        (Hook, '<m><other>t</other></m>', []), (Hook, '<m><h>t</h></m>', [(('h',), 't')]),
        (Wrapped, '<m><p><q a="1"/></p></m>', []), (Wrapped, '<m><p a="0"><q a="1" b="2"/>t</p></m>', [(('p', '@a'), '0'), (('p', 'q', '@b'), '2'), (('p', 'q'), 't')]),
        (Wrapped, '<m><p><r/></p></m>', []), (Wrapped, '<m><p><r>t</r></p></m>', [(('p', 'r'), 't')]),
        (Tup, '<m><t>1</t><t>2</t></m>', []), (Tup, '<m><t>1</t><t>2</t><t>3</t></m>', [(('t',), '3')]),
    ]


def lines():
    if not LXML:
        return

    class E(px.BaseXmlModel, tag='m'):
        model_config = F
    doc = '<m>\n<k>v</k>\n<k\na="1"/>\n<l><n>\n</n>w</l></m>'
    root = etree.fromstring(doc)
    e = raises(pd.ValidationError, lambda: E.from_xml_tree(root))
    k1, k2, l = root[0], root[1], root[2]
    want = sorted([(('k',), 'v', k1.sourceline), (('k', '@a'), '1', k2.sourceline), (('l', 'n'), 'w', l[0].sourceline)])
    eq(sorted((x['loc'], x['input'], x['ctx']['sourceline']) for x in e.errors()), want, 'lines of extras')
    for x in e.errors():
        eq(x['msg'], f"[line {x['ctx']['sourceline']}]: Extra inputs are not permitted", 'message')


def hide(hidden):
    class E(px.BaseXmlModel, tag='m'):
        model_config = {'extra': 'forbid', 'hide_input_in_errors': hidden}
    e = raises(pd.ValidationError, lambda: E.from_xml('<m a="secret"/>'))
    eq('secret' in str(e), not hidden, 'input shown in the message')
    eq(e.title, 'E', 'title')


def nested_forbid(outer, inner):
    """Where only the inner or only the outer model forbids extras."""
    class I(px.BaseXmlModel, tag='i'):
        model_config = {'extra': 'forbid' if inner else 'ignore'}
        a: Optional[str] = px.attr(default=None)

    class O(px.BaseXmlModel, tag='o'):
        model_config = {'extra': 'forbid' if outer else 'ignore'}
        i: Optional[I] = None
    doc = '<o q="1"><i a="1" z="2"/></o>'
    if inner:
        want = [(('i', '@z'), '2')]
    elif outer:
        want = [(('@q',), '1'), (('i', '@z'), '2')]
    else:
        want = []
    fixed(O, doc, want)


def cases(rng, tier):
    k = 4 if tier == 'thorough' else 1
    for i, row in enumerate(table()):
        yield f'fixed/{i}', lambda r=row: fixed(*r)
    yield 'lines/0', lines
    for h in (False, True):
        yield f'hide/{h}', lambda h=h: hide(h)
    for o in (False, True):
        for i in (False, True):
            yield f'nested/{o}{i}', lambda o=o, i=i: nested_forbid(o, i)
    yield from ref.read_cases('forbid', rng, 250 * k, lambda r: ref.Gen(r, ALL, extra='forbid', nillable=True).model())
    yield from ref.read_cases('mixed', rng, 150 * k, lambda r: ref.Gen(r, ALL, extra='mixed', nillable=True).model())
