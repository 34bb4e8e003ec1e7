"""C14: validation errors are complete, located and attributed to source lines."""
import random
from typing import Annotated, Any, Dict, List, NamedTuple, Optional, Tuple, Union

import pydantic as pd
import pydantic_core as pdc
from pydantic import Field, field_validator, model_validator

from . import ref
from .lib import LXML, MODES, SearchMode, eq, etree, px, raises, same_xml, true


def L(n):
    return n if LXML else -1


def rows(e):
    return [(x['loc'], x['type'], x['msg'], x.get('input')) for x in e.errors()]


def err(cls, doc, **kw):
    return raises(pd.ValidationError, lambda: cls.from_xml(doc, **kw), doc)


# ------------------------------------------------------------------------------------- which errors, where
def all_fields(bad):
    """Every failing field of a model is reported, in declaration order, whatever the others do."""
    class S(px.BaseXmlModel, tag='s'):
        a: int = px.attr()
        t: int

    class NT(NamedTuple):
        p: int
        q: int

    class M(px.BaseXmlModel, tag='m'):
        f0: int = px.attr()
        f1: int = px.element()
        f2: S = px.element(tag='s')
        f3: List[int] = px.element(tag='i')
        f4: Tuple[int, int] = px.element(tag='j')
        f5: NT = px.element(tag='k')
        f6: int = px.wrapped('w', px.element(tag='v'))
        f7: Dict[str, int] = px.element(tag='d')
        f8: List[S] = px.wrapped('z', px.element(tag='s'))
        f9: Union[int, float] = px.element()
    b = lambda i, good: 'bad' if i in bad else str(good)
    lines = ['<m f0="%s">' % b(0, 0), f'<f1>{b(1, 1)}</f1>', f'<s a="{b(2, 2)}">{b(3, 3)}</s>', '', f'<i>{b(4, 4)}</i>', f'<i>{b(5, 5)}</i>',
             f'<j>{b(6, 6)}</j>', f'<j>{b(7, 7)}</j>', f'<k>{b(8, 8)}</k>', f'<k>{b(9, 9)}</k>', '<w>', f'<v>{b(10, 10)}</v></w>',
             f'<d x="1" y="{b(11, 11)}"/>', '<z>', f'<s a="{b(12, 12)}">1</s>', f'<s a="1">{b(13, 13)}</s></z>', f'<f9>{b(14, 14)}</f9>', '</m>']
    doc = '\n'.join(lines)
    # sub-models and items of collections are validated while being read; everything else with the model
    inner = {2: ('f2', 'a'), 3: ('f2', 't'), 12: ('f8', 0, 'a'), 13: ('f8', 1, 't')}
    inner_lines = {2: 3, 3: 3, 12: 15, 13: 16}
    outer = {0: (('f0',), 1), 1: (('f1',), 2), 4: (('f3', 0), 5), 5: (('f3', 1), 6), 6: (('f4', 0), 7), 7: (('f4', 1), 8), 8: (('f5', 0), 9), 9: (('f5', 1), 10),
             10: (('f6',), 12), 11: (('f7', 'y'), 13), 14: (('f9',), 17)}
    if not bad:
        M.from_xml(doc)
        return
    e = err(M, doc)
    got = e.errors()
    first = [i for i in sorted(bad) if i in inner]
    eq(e.title, 'M', 'title')
    if first:
        eq([(tuple(x['loc']), x['type']) for x in got], [(inner[i], 'int_parsing') for i in first], doc)
        for i, x in zip(first, got):
            eq(x['msg'], f'[line {L(inner_lines[i])}]: Input should be a valid integer, unable to parse string as an integer', doc)
            eq(x['input'], 'bad', 'input')
    else:
        want = [(outer[i][0] if i != 14 else (), i) for i in sorted(bad)]
        flat = []
        for x in got:
            if x['loc'][0] == 'f9':
                flat.append(((), 14))
            else:
                flat.append((tuple(x['loc']), None))
        eq([f[0] for f in flat if f[0]], [w[0] for w in want if w[0]], doc)
        eq(any(f[1] == 14 for f in flat), 14 in bad, 'union')
        for x in got:
            hit = [i for i in outer if outer[i][0] == tuple(x['loc'])[:len(outer[i][0])]]
            if outer[hit[0]][1] is not None:
                true(x['msg'].startswith(f'[line {L(outer[hit[0]][1])}]: '), f'{x} in {doc}')
            eq(x['input'], 'bad', 'input')


def kinds_of_errors():
    """Type, message and input of the original error are preserved, whoever raised it."""
    class S(px.BaseXmlModel, tag='s'):
        a: int = px.attr(gt=3)
        b: Annotated[str, Field(max_length=2)] = px.element()
        c: str = px.element()
        d: str = px.element()

        @field_validator('c')
        @classmethod
        def vc(cls, v):
            raise ValueError('no {c}')

        @field_validator('d')
        @classmethod
        def vd(cls, v):
            raise pdc.PydanticCustomError('my_type', 'got {v} here', {'v': v})

    class M(px.BaseXmlModel, tag='m'):
        s: S
        l: List[S] = px.wrapped('w')
    one = '<s a="1"><b>long</b><c>x</c><d>y</d></s>'
    ok = one.replace('"1"', '"4"')
    doc = f'<m>\n{one}\n<w>{ok}\n{one}</w></m>'
    e = err(M, doc)
    want = [('greater_than', 'Input should be greater than 3', '1'), ('string_too_long', 'String should have at most 2 characters', 'long'),
            ('value_error', 'Value error, no {c}', 'x'), ('my_type', 'got y here', 'y')]
    exp = [(('s', f), t, f'[line {L(2)}]: {m}' if f == 'a' else f'[line {L(2)}]: {m}', i) for f, (t, m, i) in zip('abcd', want)]
    for k, line, sel in ((0, 3, [1, 2, 3]), (1, 4, [0, 1, 2, 3])):
        exp += [(('l', k, 'abcd'[j]), want[j][0], f'[line {L(line)}]: {want[j][1]}', want[j][2]) for j in sel]
    eq(rows(e), exp, doc)
    direct = raises(pd.ValidationError, lambda: S(a=1, b='long', c='x', d='y'))
    eq([(x['type'], x['msg']) for x in direct.errors()], [w[:2] for w in want], 'what pydantic itself reports')


def model_validators():
    class S(px.BaseXmlModel, tag='s'):
        a: int = px.attr()
        b: Optional[int] = px.element(default=None)

        @model_validator(mode='after')
        def after(self):
            if self.a == 0:
                raise ValueError('after')
            return self

        @model_validator(mode='before')
        @classmethod
        def before(cls, v):
            if isinstance(v, dict) and v.get('a') == '9':
                raise ValueError('before')
            return v

    class M(px.BaseXmlModel, tag='m'):
        s: List[S]
        k: Optional[int] = px.element(default=None)
    e = err(M, '<m>\n<s a="1"/>\n<s a="0"><b>1</b></s>\n<s a="9"/>\n<s a="x">\n<b>y</b></s></m>')
    eq([(x['loc'], x['type'], x['msg'].split(', ')[0]) for x in e.errors()],
       [(('s', 1), 'value_error', f'[line {L(3)}]: Value error'), (('s', 2), 'value_error', f'[line {L(4)}]: Value error'),
        (('s', 3, 'a'), 'int_parsing', f'[line {L(5)}]: Input should be a valid integer'), (('s', 3, 'b'), 'int_parsing', f'[line {L(6)}]: Input should be a valid integer')], 'model validators')

    class T(S, tag='t'):
        pass
    e = err(T, '\n\n<t a="0"/>'.strip())
    eq(rows(e)[0][:3], ((), 'value_error', f'[line {L(1)}]: Value error, after'), 'top level')


def missing_fields():
    class S(px.BaseXmlModel, tag='s'):
        a: int = px.attr()
        b: int = px.element()

    class M(px.BaseXmlModel, tag='m'):
        s: S
        t: S = px.wrapped('w/v', px.element(tag='s'))
        n: int = px.element()
    e = err(M, '<m>\n<s/>\n<w>\n<v>\n<s a="1"/></v></w></m>')
    eq(rows(e), [(('s', 'a'), 'missing', f'[line {L(2)}]: Field required', {}), (('s', 'b'), 'missing', f'[line {L(2)}]: Field required', {}),
                 (('t', 'b'), 'missing', f'[line {L(5)}]: Field required', {'a': '1'})], 'inner')
    e = err(M, '<m>\n<s a="1"><b>1</b></s>\n</m>')
    eq([(r[0], r[1], r[2]) for r in rows(e)], [(('t',), 'missing', f'[line {L(1)}]: Field required'), (('n',), 'missing', f'[line {L(1)}]: Field required')], 'outer')


def aliases():
    class S(px.BaseXmlModel, tag='s'):
        a: int = px.element(alias='aa')
        b: int = px.element(validation_alias='bb')
        c: int = px.attr(name='cc', alias='ca')

    class M(px.BaseXmlModel, tag='m'):
        s: S = px.element(tag='s', alias='ss')
        k: int = px.element(tag='k', alias='kk')
    e = err(S, '<s cc="z">\n<aa>x</aa>\n<b>y</b></s>')
    eq([(x['loc'], x['msg'][:9 + (not LXML)]) for x in e.errors()], [(('aa',), f'[line {L(2)}]: '[:9 + (not LXML)]), (('bb',), f'[line {L(3)}]: '[:9 + (not LXML)]),
                                                             (('ca',), f'[line {L(1)}]: '[:9 + (not LXML)])], 'by alias')


def tops():
    """Errors of root models are located relative to the value."""
    class R(px.RootXmlModel, tag='r'):
        root: List[int] = px.element(tag='i')

    class M(px.BaseXmlModel, tag='m'):
        r: R
        rs: List[R] = px.wrapped('w')
    e = err(R, '<r>\n<i>1</i>\n<i>x</i></r>')
    eq([(x['loc'], x['type'], x['msg'].split(',')[0]) for x in e.errors()], [((1,), 'int_parsing', f'[line {L(3)}]: Input should be a valid integer')], 'root')
    e = err(M, '<m>\n<r>\n<i>1</i>\n<i>x</i></r>\n<w>\n<r><i>1</i></r>\n<r>\n<i>y</i>\n<i>z</i></r></w></m>')
    eq([(x['loc'], x['msg'].split(':')[0]) for x in e.errors()], [(('r', 1), f'[line {L(4)}]'), (('rs', 1, 0), f'[line {L(8)}]'), (('rs', 1, 1), f'[line {L(9)}]')], 'nested')


def union_errors():
    class A(px.BaseXmlModel, tag='e'):
        a: int = px.attr()

    class B(px.BaseXmlModel, tag='e'):
        b: int = px.attr()

    class M(px.BaseXmlModel, tag='m'):
        u: Union[A, B]
        l: List[Union[A, B]] = px.wrapped('w')
    e = err(M, '<m>\n<e a="x" b="y"/>\n<w>\n<e a="1"/>\n<e b="z"/></w></m>')
    eq([(x['loc'], x['type'], x['msg'].split(':')[0]) for x in e.errors()],
       [(('u', 'A', 'a'), 'int_parsing', f'[line {L(2)}]'), (('u', 'B', 'b'), 'int_parsing', f'[line {L(2)}]'),
        (('l', 1, 'A', 'a'), 'missing', f'[line {L(5)}]'), (('l', 1, 'B', 'b'), 'int_parsing', f'[line {L(5)}]')], 'alternatives')


def deep(n):
    """Locations compose over any nesting depth."""
    class S(px.BaseXmlModel, tag='s'):
        k: Optional[List['S']] = None
        v: Optional[int] = px.attr(default=None)
    S.model_rebuild()
    doc = ''
    for i in range(n):
        doc += '<s>\n<s/>\n'
    doc += '<s v="bad"/>' + '</s>' * n
    e = err(S, doc)
    eq([(x['loc'], x['msg'].split(':')[0]) for x in e.errors()], [(('k', 1) * n + ('v',), f'[line {L(2 * n + 1)}]')], doc)


# ------------------------------------------------------------------------------------- hidden inputs
def hidden(where, hide):
    """An input is shown unless the model reporting it (by its own or, if it says nothing, its user's config) hides it."""
    cfg = lambda h: {} if h is None else {'hide_input_in_errors': h}
    outer, inner = hide

    class S(px.BaseXmlModel, tag='s'):
        model_config = cfg(inner)
        a: int = px.attr()

        @model_validator(mode='after')
        def chk(self):
            if self.a < 0:
                raise ValueError('neg')
            return self

    class R(px.RootXmlModel, tag='r'):
        model_config = cfg(inner)
        root: List[int] = px.element(tag='i')

    class M(px.BaseXmlModel, tag='m'):
        model_config = {**cfg(outer), 'extra': 'forbid'}
        s: Optional[S] = None
        l: Optional[List[S]] = px.wrapped('l', default=None)
        t: Optional[Tuple[S, S]] = px.wrapped('t', default=None)
        u: Optional[Union[S, R]] = px.wrapped('u', default=None)
        r: Optional[R] = None
        k: Optional[int] = px.element(default=None)
        q: Optional[List[int]] = px.element(tag='q', default=None)
    s = '<s a="SECRET"/>'
    doc = {'s': s, 'l': f'<l>{s}</l>', 't': f'<t>{s}{s}</t>', 'u': f'<u>{s}</u>', 'r': '<r><i>SECRET</i></r>', 'k': '<k>SECRET</k>', 'q': '<q>SECRET</q>',
           'x': '<x>SECRET</x>'}[where]
    e = err(M, f'<m>{doc}</m>')
    own = outer          # the outermost model reports in the end
    text = str(e)
    if own:
        true('SECRET' not in text and 'input_value' not in text, f'{where} {hide}: {text}')
    else:
        true('SECRET' in text, f'{where} {hide}: {text}')
    eq([x['input'] for x in e.errors()], ['SECRET'] * (2 if where == 't' else 1), 'errors() itself always carries the input')
    direct = err(S, s)
    true(('SECRET' in str(direct)) == (not inner), f'alone {hide}: {direct}')
    neg = err(S, '<s a="-12345"/>')
    true(('12345' in str(neg)) == (not inner), f'model validation alone {hide}: {neg}')


def hidden_subclass():
    class A(px.BaseXmlModel, tag='a'):
        model_config = {'hide_input_in_errors': True}
        x: int = px.attr()

    class B(A):
        pass

    class C(A):
        model_config = {'hide_input_in_errors': False}
    for cls, hid in ((A, True), (B, True), (C, False)):
        true(('SECRET' in str(err(cls, '<a x="SECRET"/>'))) != hid, cls.__name__)


def context_and_defaults():
    """A failing validator of a default or with context is located as well."""
    class M(px.BaseXmlModel, tag='m'):
        model_config = {'validate_default': True}
        a: int = px.element(default='bad')
        b: int = px.element()

        @field_validator('b')
        @classmethod
        def vb(cls, v, info):
            if v > info.context['max']:
                raise ValueError('too big')
            return v
    e = err(M, '<m>\n<b>5</b></m>', context={'max': 3})
    eq([(x['loc'], x['msg']) for x in e.errors()], [(('a',), f'[line {L(1)}]: Input should be a valid integer, unable to parse string as an integer'),
                                                  (('b',), f'[line {L(2)}]: Value error, too big')], 'errors')


def cases(rng, tier):
    k = 4 if tier == 'thorough' else 1
    for f in (kinds_of_errors, model_validators, missing_fields, aliases, tops, union_errors, hidden_subclass, context_and_defaults):
        yield f.__name__ + '/0', f
    for i in range(15):
        yield f'single/{i}', lambda i=i: all_fields({i})
    yield 'none/0', lambda: all_fields(set())
    for i in range(120 * k):
        bad = {j for j in range(15) if rng.random() < .25}
        yield f'many/{i}', lambda b=bad: all_fields(b)
        yield f'outer/{i}', lambda b=bad - {2, 3, 12, 13}: all_fields(b)
    for n in range(1, 9):
        yield f'deep/{n}', lambda n=n: deep(n)
    for w in 'slturkqx':
        for hide in ((None, None), (True, None), (None, True), (False, True), (True, False), (True, True)):
            yield f'hidden/{w}{hide}', lambda w=w, hide=hide: hidden(w, hide)
    kinds = ['elem', 'attr', 'sub', 'list', 'list', 'tuple', 'wrap', 'text', 'union', 'map']
    yield from ref.read_cases('random', rng, 250 * k, lambda r: ref.Gen(r, kinds, extra='mixed', nillable=True).model())
