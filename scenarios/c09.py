"""C09: wrapped fields read and write exactly at their path."""
from typing import Dict, List, Optional, Tuple, Union

import pydantic as pd

from . import ref
from .lib import LXML, MODES, SearchMode, eq, etree, px, raises, same_xml, true


def path_read(paths, mode, doc):
    """Fields bound to the text at given paths, compared with the reference search; all kinds of partial paths."""
    m = ref.M('m', [ref.Field(f'f{i}', ref.Wrap(p.split('/'), ref.Text(ref.P('str', True)))) for i, p in enumerate(paths)], mode=mode)
    ref.check_read(m, doc)


def path_write(paths, vals, mode, o):
    m = ref.M('m', [ref.Field(f'f{i}', ref.Wrap(p.split('/'), ref.Elem(ref.P('str', True), 't') if p.endswith('!') else ref.Text(ref.P('str', True))))
                    for i, p in enumerate(paths)], mode=mode)
    v = m.cls(**{f'f{i}': x for i, x in enumerate(vals)})
    ref.check_write(m, v, o)


def inner_kinds():
    class S(px.BaseXmlModel, tag='s'):
        v: int = px.attr()

    class M(px.BaseXmlModel, tag='m'):
        a: int = px.wrapped('p', px.attr())
        b: int = px.wrapped('p', px.element())
        c: List[int] = px.wrapped('p/q', px.element(tag='i'))
        d: S = px.wrapped('p/q')
        e: Dict[str, int] = px.wrapped('p/q/r')
        f: Tuple[int, str] = px.wrapped('p/q', px.element(tag='j'))
        g: str = px.wrapped('z')
        h: int = px.wrapped('z/y/x', px.attr(name='hh'))
    doc = '<m><p a="1"><b>2</b><q><i>3</i><i>4</i><s v="5"/><r k="6"/><j>7</j><j>8</j></q></p><z>t<y><x hh="9"/></y></z></m>'
    m = M.from_xml(doc)
    eq((m.a, m.b, m.c, m.d.v, m.e, m.f, m.g, m.h), (1, 2, [3, 4], 5, {'k': 6}, (7, '8'), 't', 9), 'all kinds')
    same_xml(m.to_xml(), doc, 'written back with shared wrappers')


def missing_steps(doc, want):
    class M(px.BaseXmlModel, tag='m'):
        a: Optional[str] = px.wrapped('p/q/r', px.element(tag='a', default=None))
        b: Optional[str] = px.wrapped('p/q', px.attr(name='b', default=None))
    m = M.from_xml(doc)
    eq((m.a, m.b), want, doc)


def nested_wrapped():
    class M(px.BaseXmlModel, tag='m'):
        a: Optional[int] = px.wrapped('p', px.wrapped('q', px.wrapped('r/s', px.element(tag='a'))), default=None)
        b: Optional[int] = px.wrapped('p/q', px.wrapped('r', px.element(tag='b')), default=None)
    doc = '<m><p><q><r><s><a>1</a></s><b>2</b></r></q></p></m>'
    m = M.from_xml(doc)
    eq((m.a, m.b), (1, 2), 'nested')
    same_xml(m.to_xml(), doc, 'written back')
    same_xml(M(b=2).to_xml(exclude_none=True), '<m><p><q><r><b>2</b></r></q></p></m>', 'missing value writes no wrapper')
    same_xml(M(b=2).to_xml(), '<m><p><q><r><b>2</b></r></q></p></m>', 'missing value writes no wrapper')


def interleaved():
    """Only the element written last is reused: a sibling in between makes a new wrapper."""
    class M(px.BaseXmlModel, tag='m'):
        a: int = px.wrapped('p', px.element(tag='a'))
        x: int = px.element()
        b: int = px.wrapped('p', px.element(tag='b'))
        c: int = px.wrapped('p', px.element(tag='c'))
    m = M(a=1, x=2, b=3, c=4)
    doc = '<m><p><a>1</a></p><x>2</x><p><b>3</b><c>4</c></p></m>'
    same_xml(m.to_xml(), doc, 'written')
    eq(M.from_xml(doc), m, 'read back')


def namespaces():
    class M(px.BaseXmlModel, tag='m', ns='a', nsmap={'a': 'http://a', 'b': 'http://b'}):
        x: int = px.wrapped('p/q', px.element(tag='x', ns='b'), ns='b')
        y: int = px.wrapped('p/q', px.element(tag='y'))
        z: int = px.wrapped('p', px.element(tag='z', ns='c', nsmap={'c': 'http://c'}), ns='b', nsmap={'b': 'http://b2'})
    doc = ('<a:m xmlns:a="http://a" xmlns:b="http://b" xmlns:c="http://c" xmlns:d="http://b2"><b:p><b:q><b:x>1</b:x></b:q></b:p>'
           '<a:p><a:q><a:y>2</a:y></a:q></a:p><d:p><c:z>3</c:z></d:p></a:m>')
    m = M.from_xml(doc)
    eq((m.x, m.y, m.z), (1, 2, 3), 'read')
    same_xml(m.to_xml(), doc, 'written')


def long_path(n):
    class M(px.BaseXmlModel, tag='m'):
        a: str = px.wrapped('/'.join(f's{i}' for i in range(n)), px.attr(name='v'))
        b: str = px.wrapped('/'.join(f's{i}' for i in range(n)))
    doc = '<m>' + ''.join(f'<s{i}>' for i in range(n - 1)) + f'<s{n - 1} v="1">t</s{n - 1}>' + ''.join(f'</s{i}>' for i in reversed(range(n - 1))) + '</m>'
    eq((M.from_xml(doc).a, M.from_xml(doc).b), ('1', 't'), doc)
    same_xml(M(a='1', b='t').to_xml(), doc, doc)


def errors():
    class M(px.BaseXmlModel, tag='m'):
        a: int = px.wrapped('p/q', px.element(tag='a'))
        b: List[int] = px.wrapped('p/q', px.element(tag='b'))
    e = raises(pd.ValidationError, lambda: M.from_xml('<m>\n<p>\n<q>\n<a>x</a><b>1</b><b>y</b></q></p></m>'))
    eq([(x['loc'], x['type']) for x in e.errors()], [(('a',), 'int_parsing'), (('b', 1), 'int_parsing')], 'locations')
    e = raises(pd.ValidationError, lambda: M.from_xml('<m><p/><q><a>1</a><b>1</b></q></m>'))
    eq([(x['loc'], x['type']) for x in e.errors()], [(('a',), 'missing'), (('b',), 'missing')], 'partial path')


def shared_with_submodel():
    """A wrapper element shared by several fields with sub-models inside."""
    class S(px.BaseXmlModel, tag='s'):
        v: int = px.attr()
    class T(px.BaseXmlModel, tag='t'):
        v: int = px.attr()
    class M(px.BaseXmlModel, tag='m'):
        ss: List[S] = px.wrapped('w')
        ts: List[T] = px.wrapped('w')
        u: Optional[Union[S, T]] = px.wrapped('w/u', default=None)
        n: Optional[int] = px.element(default=None)
    doc = '<m><w><s v="1"/><s v="2"/><t v="3"/><u><t v="4"/></u></w><n>5</n></m>'
    m = M.from_xml(doc)
    eq(([s.v for s in m.ss], [t.v for t in m.ts], m.u, m.n), ([1, 2], [3], T(v=4), 5), 'read')
    same_xml(m.to_xml(), doc, 'written')


def cases(rng, tier):
    k = 4 if tier == 'thorough' else 1
    P = ['p', 'q', 'p/q', 'p/r', 'q/p', 'p/q/r', 'p/p', 'r/q', 'p/q/p']
    for i in range(250 * k):
        paths = [rng.choice(P) for _ in range(rng.randint(1, 4))]

        def tree(d):
            t = rng.choice('pqrz')
            return f'<{t}>' + rng.choice(['', 'x', 'y']) + (''.join(tree(d - 1) for _ in range(rng.randint(0, 3))) if d else '') + f'</{t}>'
        doc = '<m>' + ''.join(tree(2) for _ in range(rng.randint(0, 4))) + '</m>'
        yield f'read/{i}', lambda x=(paths, rng.choice(MODES), doc): path_read(*x)
        paths = [rng.choice(P) for _ in range(rng.randint(1, 5))]
        vals = [rng.choice([None, '', 'a', 'b']) for _ in paths]
        yield f'write/{i}', lambda x=(paths, vals, rng.choice(MODES), ref.Opts(rng.random() < .3, rng.random() < .3, rng.random() < .2)): path_write(*x)
    for i, r in enumerate([('<m/>', (None, None)), ('<m><p/></m>', (None, None)), ('<m><p><q b="1"/></p></m>', (None, '1')),
                           ('<m><p><q b="1"><r/></q></p></m>', (None, '1')), ('<m><p><q><r><a>2</a></r></q></p></m>', ('2', None)),
                           ('<m><p><q b="3"><r><a>2</a></r></q></p></m>', ('2', '3')), ('<m><p><r><a>2</a></r></p></m>', (None, None)),
                           ('<m><q b="1"><r><a>2</a></r></q></m>', (None, None)), ('<m><p><q/></p><p><q b="1"/></p></m>', (None, None)),
                           ('<m><p b="1"><q/></p></m>', (None, None)), ('<m><p><q><a>2</a></q></p></m>', (None, None))]):
        yield f'missing/{i}', lambda r=r: missing_steps(*r)
    for f in (inner_kinds, nested_wrapped, interleaved, namespaces, errors, shared_with_submodel):
        yield f.__name__ + '/0', f
    for n in range(1, 7):
        yield f'long/{n}', lambda n=n: long_path(n)
    kinds_ = ['wrap', 'wrap', 'wrap', 'elem', 'sub', 'attr', 'text', 'list', 'delem']
    yield from ref.read_cases('random', rng, 150 * k, lambda r: ref.Gen(r, kinds_, extra='mixed', nillable=True, tags='vwx').model())
    yield from ref.write_cases('randomw', rng, 100 * k, lambda r: ref.Gen(r, kinds_, nillable=True, tags='vwx').model())
