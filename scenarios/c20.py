"""C20: field types map to one binding; unsupported ones are refused at definition."""
import datetime as dt
import decimal
import enum
import ipaddress
import pathlib
import random
import re
import types
import uuid
from typing import (Annotated, Any, Callable, Dict, FrozenSet, Generic, List, Literal, Mapping, NamedTuple, NewType, Optional, Pattern, Set, Tuple, Type, TypedDict, TypeVar,
                    Union)

import pydantic as pd
from pydantic_core import core_schema as pcs
from typing_extensions import TypeAliasType

from .lib import LXML, MODES, SearchMode, eq, etree, px, raises, same_xml, true
from pydantic_xml.element.native import ElementT

Meta = type(px.BaseXmlModel)
RMeta = type(px.RootXmlModel)
REFUSED = (px.errors.ModelError, px.errors.ModelFieldError, TypeError, AssertionError)      # definition errors


class S(px.BaseXmlModel, tag='s'):
    v: int = px.attr(default=0)


class S2(px.BaseXmlModel, tag='s2'):
    v: int = px.attr(default=0)


class Ka(px.BaseXmlModel, tag='k'):
    kind: Literal['a'] = px.attr(default='a')


class Kb(px.BaseXmlModel, tag='k'):
    kind: Literal['b'] = px.attr(default='b')


class R(px.RootXmlModel[int], tag='r'):
    pass


class PM(pd.BaseModel):
    a: int


class TD(TypedDict):
    a: int


class TDBad(TypedDict):
    a: List[int]


class NT(NamedTuple):
    a: int
    b: str


class NTBad(NamedTuple):
    a: List[int]
    b: int


class NTS(NamedTuple):
    a: S
    b: S


class En(enum.Enum):
    A = 'ea'


class Fl(enum.IntEnum):
    A = 3


class Cu:
    def __init__(self, x='cu'):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Cu)

    def __str__(self):
        return 'cu'


PRIM = {   # type: (value, text)
    'int': (int, 5, '5'), 'float': (float, 1.5, '1.5'), 'bool': (bool, True, 'true'), 'str': (str, 'q', 'q'), 'bytes': (bytes, b'q', 'q'), 'date': (dt.date, dt.date(2020, 1, 2), '2020-01-02'),
    'time': (dt.time, dt.time(1, 2, 3), '01:02:03'), 'datetime': (dt.datetime, dt.datetime(2020, 1, 2, 3), '2020-01-02T03:00:00'), 'delta': (dt.timedelta, dt.timedelta(hours=1), 'PT1H'),
    'decimal': (decimal.Decimal, decimal.Decimal('1.20'), '1.20'), 'uuid': (uuid.UUID, uuid.UUID(int=5), str(uuid.UUID(int=5))), 'enum': (En, En.A, 'ea'), 'intenum': (Fl, Fl.A, '3'),
    'lit': (Literal['a', 'b'], 'b', 'b'), 'path': (pathlib.Path, pathlib.Path('/x'), '/x'), 'ip': (ipaddress.IPv4Address, ipaddress.IPv4Address('1.2.3.4'), '1.2.3.4'),
    'url': (pd.AnyUrl, pd.AnyUrl('http://x.y/'), 'http://x.y/'), 'con': (Annotated[int, pd.Field(gt=1)], 5, '5'), 'strict': (pd.StrictStr, 'q', 'q'),
    'union': (Union[int, str], 'q', 'q'),
}
DOC = {'text': lambda t: f'<m>{t}</m>', 'attr': lambda t: f'<m x="{t}"/>', 'elem': lambda t: f'<m><x>{t}</x></m>', 'wtext': lambda t: f'<m><w>{t}</w></m>', 'wattr': lambda t: f'<m><w x="{t}"/></m>',
       'welem': lambda t: f'<m><w><x>{t}</x></w></m>', 'wwelem': lambda t: f'<m><w><u><x>{t}</x></u></w></m>'}
PLACE = {'text': lambda kw: pd.Field(**kw), 'attr': lambda kw: px.attr(name='x', **kw), 'elem': lambda kw: px.element(tag='x', **kw), 'wtext': lambda kw: px.wrapped('w', **kw),
         'wattr': lambda kw: px.wrapped('w', px.attr(name='x'), **kw), 'welem': lambda kw: px.wrapped('w', px.element(tag='x'), **kw),
         'wwelem': lambda kw: px.wrapped('w', px.wrapped('u', px.element(tag='x')), **kw)}
# anything but primitives: type, value, {place: document or None when refused}
s, e = lambda n, *vs: ''.join(f'<{n} v="{v}"/>' for v in vs), lambda n, *vs: ''.join(f'<{n}>{v}</{n}>' for v in vs)
ELEM = lambda named, unnamed=None: {'text': unnamed and f'<m>{unnamed}</m>', 'attr': None, 'elem': f'<m>{named}</m>', 'wtext': unnamed and f'<m><w>{unnamed}</w></m>', 'wattr': None,
                                    'welem': f'<m><w>{named}</w></m>', 'wwelem': f'<m><w><u>{named}</u></w></m>'}
OTHER = {
    'model': (S, lambda: S(v=3), ELEM(s('x', 3), s('s', 3))),
    'rootmodel': (R, lambda: R(3), ELEM(e('x', 3), e('r', 3))),
    'list': (List[int], lambda: [1, 2], ELEM(e('x', 1, 2))),
    'set': (Set[int], lambda: {1}, ELEM(e('x', 1))),
    'frozenset': (FrozenSet[str], lambda: frozenset('q'), ELEM(e('x', 'q'))),
    'tuplevar': (Tuple[int, ...], lambda: (1, 2, 3), ELEM(e('x', 1, 2, 3))),
    'listmodel': (List[S], lambda: [S(v=1), S(v=2)], ELEM(s('x', 1, 2), s('s', 1, 2))),
    'listunion': (List[Union[S, S2]], lambda: [S2(v=1), S(v=2)], {**ELEM('', s('s2', 1) + s('s', 2)), 'elem': 0, 'welem': 0, 'wwelem': 0}),
    'listdict': (List[Dict[str, int]], lambda: [{'v': 1}, {'v': 2}], ELEM(s('x', 1, 2))),
    'listtd': (List[TD], lambda: [{'a': 1}], ELEM('<x a="1"/>')),
    'listtuple': (List[Tuple[int, str]], lambda: [(1, 'q'), (2, 'z')], ELEM(e('x', 1, 'q', 2, 'z'))),
    'listnt': (List[NT], lambda: [NT(1, 'q'), NT(2, 'z')], ELEM(e('x', 1, 'q', 2, 'z'))),
    'listcu': (List[Optional[int]], lambda: [1, 2], ELEM(e('x', 1, 2))),
    'tuple': (Tuple[int, str], lambda: (1, 'q'), ELEM(e('x', 1, 'q'))),
    'tuplemodel': (Tuple[S, S2], lambda: (S(v=1), S2(v=2)), ELEM(s('x', 1, 2), s('s', 1) + s('s2', 2))),
    'tuplemixed': (Tuple[int, S, Dict[str, int]], lambda: (1, S(v=1), {'v': 2}), ELEM(e('x', 1) + s('x', 1, 2))),
    'nt': (NT, lambda: NT(1, 'q'), ELEM(e('x', 1, 'q'))),
    'ntmodel': (NTS, lambda: NTS(S(v=1), S(v=2)), ELEM(s('x', 1, 2), s('s', 1, 2))),
    'dict': (Dict[str, int], lambda: {'v': 3}, {**ELEM(s('x', 3)), 'text': '<m v="3"/>', 'wtext': '<m><w v="3"/></m>'}),
    'mapping': (Mapping[str, int], lambda: {'v': 3}, {**ELEM(s('x', 3)), 'text': '<m v="3"/>', 'wtext': '<m><w v="3"/></m>'}),
    'typeddict': (TD, lambda: {'a': 3}, {**ELEM('<x a="3"/>'), 'text': '<m a="3"/>', 'wtext': '<m><w a="3"/></m>'}),
    'unionmodel': (Union[S, S2], lambda: S2(v=3), {**ELEM('', s('s2', 3)), 'elem': 0, 'welem': 0, 'wwelem': 0}),
    'tagged': (Annotated[Union[Ka, Kb], pd.Field(discriminator='kind')], lambda: Kb(), ELEM('<x kind="b"/>', '<k kind="b"/>')),
}
# refused whatever the place
REFUSE_ALL = {'any': Any, 'object': object, 'complex': complex, 'callable': Callable[[int], int], 'pattern': Pattern, 'type': Type[int], 'bare list': list, 'bare dict': dict, 'bare tuple': tuple,
              'list of lists': List[List[int]], 'list of sets': List[Set[int]], 'list of nested tuples': List[Tuple[Tuple[int, int], int]], 'tuple of tuples': Tuple[Tuple[int, int], int],
              'tuple of lists': Tuple[int, List[int]], 'tuple var and prefix': Tuple[int, *Tuple[str, ...]], 'tuple var and suffix': Tuple[*Tuple[str, ...], int],
              'dict of lists': Dict[str, List[int]], 'dict of models': Dict[str, S], 'dict of dicts': Dict[str, Dict[str, int]], 'dict with model key': Dict[S, int], 'dict of any': Dict[str, Any],
              'typed dict of lists': TDBad, 'named tuple of lists': NTBad, 'union of model and primitive': Union[S, int], 'union of primitive and model': Union[int, S],
              'union of list and primitive': Union[List[int], int], 'union of dict and model': Union[Dict[str, int], S], 'union of tuples': Union[Tuple[int, int], Tuple[str, int]],
              'plain pydantic model': PM, 'list of plain models': List[PM], 'union with any': Union[int, Any], 'list of any': List[Any], 'optional any': Optional[Any],
              'list of mixed unions': List[Union[int, S]], 'list of unions of lists': List[Union[List[int], int]], 'tuple of mixed unions': Tuple[Union[S, int], int]}
ident = lambda v: v
T = TypeVar('T')
LAYERS = {
    'none': lambda t: t,
    'optional': lambda t: Optional[t],
    'after': lambda t: Annotated[t, pd.AfterValidator(ident)],
    'before': lambda t: Annotated[t, pd.BeforeValidator(ident)],
    'wrap': lambda t: Annotated[t, pd.WrapValidator(lambda v, h: h(v))],
    'annotated': lambda t: Annotated[t, pd.Field(description='d'), 'x'],
    'alias': lambda t: TypeAliasType('Al', t),
    'newtype': lambda t: NewType('Nt', t) if isinstance(t, type) else t,
    'wrapser': lambda t: Annotated[t, pd.WrapSerializer(lambda v, h: h(v))],
    'optional after': lambda t: Optional[Annotated[t, pd.AfterValidator(ident)]],
    'after optional': lambda t: Annotated[Optional[t], pd.AfterValidator(ident)],
    'alias optional': lambda t: TypeAliasType('Ao', Optional[TypeAliasType('Ai', t)]),
}


def mk(t, place, default=None, field_val=None, model_val=None, root=False, **cfg):
    kw = {} if default is None else {'default_factory': default} if default[0:1] == ('f',) else {'default': default[1]}
    if default is not None and default[0] == 'f':
        kw = {'default_factory': default[1]}
    body = {'__module__': __name__, 'model_config': {'arbitrary_types_allowed': True, **cfg}}
    name = 'root' if root else 'x'
    body['__annotations__'] = {name: t}
    f = PLACE[place](kw)
    if place != 'text' or kw:
        body[name] = f
    if field_val:
        body['fv'] = pd.field_validator(name, mode=field_val)((lambda cls, v: v) if field_val != 'wrap' else (lambda cls, v, h: h(v)))
    if model_val:
        body['mv'] = pd.model_validator(mode=model_val)(classmethod(lambda cls, v: v) if model_val == 'before' else (lambda self: self) if model_val == 'after' else classmethod(lambda cls, v, h: h(v)))
    if root:
        return RMeta('M', (px.RootXmlModel,), {**body}, tag='m')
    return Meta('M', (px.BaseXmlModel,), body, tag='m')


def check(M, doc, val, root=False, what='', hashable=True):
    m = M(val) if root else M(x=val)
    same_xml(m.to_xml(), doc, f'{what} written')
    eq(getattr(M.from_xml(doc), 'root' if root else 'x'), val, f'{what} read')


def prim(kind, place, layer, default, fv, mv):
    t, v, text = PRIM[kind]
    if kind == 'union' and layer in ('wrapser',):
        return
    d = None if default is None else (default, (lambda: v) if default == 'f' else v)
    check(mk(LAYERS[layer](t), place, d, fv, mv), DOC[place](text), v, what=f'{kind} {place} {layer}')


def other(kind, place, layer, default, fv, mv):
    t, val, docs = OTHER[kind]
    doc = docs[place]
    if doc == 0:
        return
    v = val()
    d = None if default is None else (default, val if default == 'f' else v)
    lt = LAYERS[layer](t) if layer != 'newtype' else t
    if doc is None:
        raises(REFUSED, lambda: mk(lt, place, d, fv, mv), f'{kind} at {place} under {layer}')
    else:
        check(mk(lt, place, d, fv, mv), doc, v, what=f'{kind} {place} {layer}')


def root_model(kind, place, layer, mv):
    """The same for the content of a root model."""
    if kind in PRIM:
        t, v, text = PRIM[kind]
        doc = DOC[place](text)
    else:
        t, val, docs = OTHER[kind]
        doc, v = docs[place], val()
    if doc == 0 or kind == 'union' and layer == 'wrapser':
        return
    lt = LAYERS[layer](t) if layer != 'newtype' else t
    if doc is None:
        raises(REFUSED, lambda: mk(lt, place, model_val=mv, root=True), f'{kind} at {place} under {layer}')
    else:
        check(mk(lt, place, model_val=mv, root=True), doc, v, root=True, what=f'root {kind} {place} {layer}')


def refuse(kind, place, layer, how):
    t = REFUSE_ALL[kind]
    lt = LAYERS[layer](t) if layer != 'newtype' else t
    if how == 'field':
        raises(REFUSED, lambda: mk(lt, place), f'{kind} at {place} under {layer}')
    elif how == 'root':
        raises(REFUSED, lambda: mk(lt, place, root=True), f'{kind} at {place} under {layer} in a root model')
    elif how == 'computed':
        def define():
            def get(self):
                return None
            get.__name__, get.__annotations__ = 'c', {'return': lt}
            body = {'__module__': __name__, 'model_config': {'arbitrary_types_allowed': True}, 'c': px.computed_element(property(get)) if 'elem' in place else px.computed_attr(property(get))}
            return Meta('M', (px.BaseXmlModel,), body, tag='m')
        raises(REFUSED, define, f'computed {kind}')
    else:
        def define():
            body = {'__module__': __name__, 'model_config': {'arbitrary_types_allowed': True}, '__annotations__': {'x': T}}
            if place != 'text':
                body['x'] = PLACE[place]({})
            G = types.new_class('G', (px.BaseXmlModel, Generic[T]), {'tag': 'm'}, lambda ns: ns.update(body))
            return G[lt]
        raises(REFUSED, define, f'{kind} at {place} in a generic model')


def generics(kind, place):
    if kind in PRIM:
        t, v, text = PRIM[kind]
        doc = DOC[place](text)
    else:
        t, val, docs = OTHER[kind]
        doc, v = docs[place], val()
    body = {'__module__': __name__, '__annotations__': {'x': T}}
    if place != 'text':
        body['x'] = PLACE[place]({})
    G = types.new_class('G', (px.BaseXmlModel, Generic[T]), {'tag': 'm'}, lambda ns: ns.update(body))
    if doc is None:
        raises(REFUSED, lambda: G[t])
    elif doc != 0:
        check(G[t], doc, v, what=f'generic {kind} {place}')


def hidden_refused_types():
    """A field that is not bound at all may have any type."""
    from pydantic_xml.fields import NoXml

    class M(px.BaseXmlModel, tag='m'):
        a: Annotated[Any, NoXml] = None
        b: int = px.attr(default=1)
    same_xml(M().to_xml(), '<m b="1"/>')


def raw():
    for opt in (False, True):
        class M(px.BaseXmlModel, tag='m', arbitrary_types_allowed=True):
            x: Optional[ElementT] = px.element(tag='x') if opt else px.element(tag='x', default=None)
        r = M.from_xml('<m><x a="1">t<y/></x></m>')
        same_xml(etree.tostring(r.x), '<x a="1">t<y/></x>')
        same_xml(r.to_xml(), '<m><x a="1">t<y/></x></m>')
    raises(REFUSED, lambda: mk(ElementT, 'attr'), 'raw attribute')
    raises(REFUSED, lambda: mk(List[ElementT], 'text'), 'unnamed raw list')


def innermost_definition():
    """A reference resolves to the innermost visible definition."""
    from pydantic_xml.serializers.serializer import Serializer
    from pydantic_xml.fields import XmlEntityInfo
    from pydantic_xml.typedefs import EntityLocation
    i = lambda r: pcs.int_schema(ref=r)
    l = lambda r: pcs.list_schema(pcs.str_schema(), ref=r)
    ref = lambda r: pcs.definition_reference_schema(r)
    D = lambda inner, *defs: pcs.definitions_schema(inner, list(defs))
    ctx = Serializer.Context('M', field_name='x', entity_info=XmlEntityInfo(EntityLocation.ELEMENT, path='x'))
    kind = lambda sch: type(Serializer.parse_core_schema(sch, ctx)).__module__.rsplit('.', 1)[-1]
    N = lambda x: pcs.nullable_schema(x)
    table = [
        (D(ref('a'), i('a')), 'primitive'), (D(ref('a'), l('a')), 'homogeneous'), (D(ref('a'), i('a'), l('b')), 'primitive'), (D(ref('b'), i('a'), l('b')), 'homogeneous'),
        (D(D(ref('a'), i('a')), l('a')), 'primitive'), (D(D(ref('a'), l('a')), i('a')), 'homogeneous'), (D(D(ref('a'), i('b')), l('a')), 'homogeneous'),
        (D(D(ref('b'), i('b')), l('a')), 'primitive'), (D(N(D(ref('a'), i('a'))), l('a')), 'primitive'), (D(D(N(ref('a')), l('a')), i('a')), 'homogeneous'),
        (D(D(D(ref('a'), i('b')), l('a')), i('a')), 'homogeneous'), (D(D(D(ref('a'), i('a')), l('a')), l('a')), 'primitive'),
        (D(ref('c'), pcs.nullable_schema(ref('a'), ref='c'), i('a')), 'primitive'), (D(D(ref('c'), l('a')), pcs.nullable_schema(ref('a'), ref='c'), i('a')), 'homogeneous'),
    ]
    for n, (sch, k) in enumerate(table):
        eq(kind(sch), k, f'reference {n}')
    for sch in (ref('a'), D(ref('b'), i('a')), D(D(ref('c'), i('a')), l('b'))):
        raises(REFUSED, lambda: kind(sch), 'unresolved reference')


def recursive():
    """Recursive models are bound like the types they refer to."""
    class N(px.BaseXmlModel, tag='n'):
        v: int = px.attr()
        kid: Optional['N'] = px.element(tag='kid', default=None)
        kids: Optional[List['N']] = px.element(tag='k', default=None)
        pair: Optional[Tuple['N', 'N']] = px.wrapped('p', px.element(tag='q'), default=None)
    N.model_rebuild(_types_namespace={'N': N})
    d = '<n v="1"><kid v="2"><k v="3"/></kid><k v="4"/><k v="5"><kid v="6"/></k><p><q v="7"/><q v="8"/></p></n>'
    n = N.from_xml(d)
    eq(n.model_dump(exclude_none=True), dict(v=1, kid=dict(v=2, kids=[dict(v=3)]), kids=[dict(v=4), dict(v=5, kid=dict(v=6))], pair=(dict(v=7), dict(v=8))), 'read')
    same_xml(n.to_xml(exclude_none=True), d)


def mutual():
    class A(px.BaseXmlModel, tag='a'):
        b: Optional['B'] = px.element(default=None)
        bs: Optional[List['B']] = px.element(tag='l', default=None)

    class B(px.BaseXmlModel, tag='b'):
        a: Optional[A] = px.element(default=None)
        i: int = px.attr(default=0)
    A.model_rebuild(_types_namespace={'A': A, 'B': B})
    B.model_rebuild(_types_namespace={'A': A, 'B': B})
    d = '<a><b i="1"><a><l i="2"/><l i="3"/></a></b></a>'
    same_xml(A.from_xml(d).to_xml(exclude_none=True), d)


def recursive_alias():
    I = TypeAliasType('I', int)
    J = TypeAliasType('J', List[I])

    class M(px.BaseXmlModel, tag='m'):
        a: I = px.attr()
        b: J = px.element(tag='b')
        c: Dict[str, I] = px.element(tag='c')
        d: Tuple[I, Optional[I]] = px.element(tag='d')
        f: Optional[J] = px.wrapped('w', px.element(tag='f'))
    d = '<m a="1"><b>2</b><b>3</b><c k="4"/><d>5</d><d>6</d><w><f>7</f></w></m>'
    m = M.from_xml(d)
    eq(m.model_dump(), dict(a=1, b=[2, 3], c={'k': 4}, d=(5, 6), f=[7]), 'read')
    same_xml(m.to_xml(), d)


def default_namespace_attr():
    """An attribute put in the default namespace is refused."""
    raises(REFUSED, lambda: Meta('M', (px.BaseXmlModel,), {'__module__': __name__, '__annotations__': {'x': int}, 'x': px.attr(ns='')}, nsmap={'': 'u'}))
    raises(REFUSED, lambda: Meta('M', (px.BaseXmlModel,), {'__module__': __name__, '__annotations__': {'x': int}, 'x': px.attr()}, nsmap={'': 'u'}, ns='', ns_attrs=True))


def tagged_unions():
    D = lambda *ts: Annotated[Union[ts], pd.Field(discriminator='kind')]

    class KE(px.BaseXmlModel, tag='k'):
        kind: Literal['e'] = px.element()

    class KT(px.BaseXmlModel, tag='k'):
        kind: Literal['t']

    class KR(px.RootXmlModel[Literal['q']]):
        pass
    for alts in ((Ka, KE), (Ka, KT)):
        raises(REFUSED, lambda: mk(D(*alts), 'elem'), 'the discriminator must be an attribute')
    raises(REFUSED, lambda: mk(D(Ka, Kb), 'attr'))
    mk(D(Ka, Kb), 'elem')


def cases(rng, tier):
    k = 6 if tier == 'thorough' else 1
    for f in (hidden_refused_types, raw, innermost_definition, recursive, mutual, recursive_alias, default_namespace_attr, tagged_unions):
        yield f.__name__ + '/0', f
    opt = lambda: (rng.choice([None, None, 'd', 'f']), rng.choice([None, None, 'before', 'after', 'wrap']), rng.choice([None, None, 'before', 'after', 'wrap']))
    for kind in PRIM:
        for place in PLACE:
            for layer in (list(LAYERS) if tier == 'thorough' else rng.sample(list(LAYERS), 2)):
                yield f'prim/{kind}-{place}-{layer}', lambda x=(kind, place, layer, *opt()): prim(*x)
    for kind in OTHER:
        for place in PLACE:
            for layer in (list(LAYERS) if tier == 'thorough' else rng.sample(list(LAYERS), 3)):
                yield f'other/{kind}-{place}-{layer}', lambda x=(kind, place, layer, *opt()): other(*x)
    for kind in [*PRIM, *OTHER]:
        for place in (PLACE if tier == 'thorough' else rng.sample(list(PLACE), 3)):
            yield f'root_model/{kind}-{place}', lambda x=(kind, place, rng.choice(list(LAYERS)), rng.choice([None, 'before', 'after', 'wrap'])): root_model(*x)
    for kind in [*PRIM, *OTHER]:
        for place in rng.sample(list(PLACE), 2 if k == 1 else 7):
            yield f'generics/{kind}-{place}', lambda x=(kind, place): generics(*x)
    for kind in REFUSE_ALL:
        for place in PLACE:
            for how in ('field', 'root', 'computed', 'generic'):
                if k > 1 or rng.random() < .5:
                    yield f'refuse/{kind}-{place}-{how}', lambda x=(kind, place, rng.choice(list(LAYERS)), how): refuse(*x)
