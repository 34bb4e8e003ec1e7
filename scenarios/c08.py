"""C08: tuples and named tuples, position by position."""
import itertools
from collections import namedtuple
from typing import Dict, List, NamedTuple, Optional, Tuple, Union

import pydantic as pd

from . import ref
from .lib import LXML, MODES, SearchMode, eq, etree, px, raises, same_xml, true


class A(px.BaseXmlModel, tag='a'):
    v: int = px.attr()


class B(px.BaseXmlModel, tag='b'):
    w: str


TYS = {'int': (int, lambda s: s.lstrip('-').isdigit(), int, 'int_parsing'), 'str': (str, lambda s: True, str, None),
       'bool': (bool, lambda s: s in ('true', 'false', '1', '0'), lambda s: s in ('true', '1'), 'bool_parsing')}


def make(kind, tys, opt, mode):
    if kind == 'tuple':
        T = Tuple[tuple(Optional[TYS[t][0]] if o else TYS[t][0] for t, o in zip(tys, opt))]
    else:
        T = NamedTuple('NT', [(f'n{i}', Optional[TYS[t][0]] if o else TYS[t][0]) for i, (t, o) in enumerate(zip(tys, opt))])

    class M(px.BaseXmlModel, tag='m', search_mode=mode):
        t: Optional[T] = px.element(tag='x', default=None)
        y: Optional[str] = px.element(default=None)
    return M, T


def read(kind, tys, opt, mode, seq):
    M, T = make(kind, tys, opt, mode)
    doc = '<m>' + ''.join(f'<{t}>{v}</{t}>' for t, v in seq) + '</m>'
    kids, raw = list(seq), []
    for _ in tys:
        if mode == SearchMode.STRICT:
            i = 0 if kids and kids[0][0] == 'x' else None
        else:
            i = next((j for j, k in enumerate(kids) if k[0] == 'x'), None)
        if i is None:
            raw.append(None)
            continue
        raw.append(kids[i][1] or None)
        kids = kids[i + 1:] if mode != SearchMode.UNORDERED else kids[1:i] + [kids[0]] * (i > 0) + kids[i + 1:] if i else kids[1:]
    if mode == SearchMode.UNORDERED:
        xs = [v for t, v in seq if t == 'x']
        raw = [(xs[i] or None) if i < len(xs) else None for i in range(len(tys))]
    if all(r is None for r in raw):
        eq(M.from_xml(doc).t, None, f'{doc}: absent')
        return
    errs, vals = [], []
    for i, (t, o, r) in enumerate(zip(tys, opt, raw)):
        if r is None:
            vals.append(None)
            if not o:
                errs.append(i)
        elif TYS[t][1](r):
            vals.append(TYS[t][2](r))
        else:
            errs.append(i)
    try:
        m = M.from_xml(doc)
    except pd.ValidationError as e:
        got = [x['loc'][:2] for x in e.errors()]
        if kind == 'tuple':
            eq(got, [('t', i) for i in errs], f'{doc} {tys}: positions of errors')
        else:
            eq(got, [('t', i) for i in errs], f'{doc} {tys}: positions of errors')
        true(errs, f'{doc} rejected')
    else:
        true(not errs, f'{doc} accepted as {m!r}, wrong at {errs}')
        eq(list(m.t), vals, doc)
        eq(len(m.t), len(tys), 'length')
        if kind == 'named':
            eq(type(m.t).__name__, 'NT', 'type')


def write(kind, tys, vals, flags):
    M, T = make(kind, tys, [True] * len(tys), SearchMode.STRICT)
    v = tuple(vals) if kind == 'tuple' else T(*vals)
    got = etree.fromstring(M(t=v).to_xml(**flags))
    xs = [e.text or '' for e in got if e.tag == 'x']
    want = ['' if x is None else str(x).lower() if isinstance(x, bool) else str(x) for x in vals if not (x is None and (flags.get('skip_empty') or flags.get('exclude_none')))]
    if flags.get('skip_empty'):
        want = [w for w in want if w != '']
    eq(xs, want, f'{vals} {flags}')


def length(kind, n, given):
    T = Tuple[(int,) * n] if kind == 'tuple' else NamedTuple('NT', [(f'n{i}', int) for i in range(n)])

    class M(px.BaseXmlModel, tag='m'):
        t: T = px.element(tag='x')
    m = M.model_construct(t=tuple(range(given)))
    for flags in ({}, {'exclude_none': True}, {'skip_empty': True}):
        if given == n:
            eq(len(etree.fromstring(m.to_xml(**flags))), n, 'written')
        elif given == 0 and flags.get('skip_empty'):
            m.to_xml(**flags)
        else:
            raises(px.errors.SerializationError, lambda: m.to_xml(**flags), f'{kind} of {n} given {given} {flags}')


def models(order, doc, want, errs):
    T = Tuple[tuple({'A': A, 'B': B}[o] for o in order)]

    class M(px.BaseXmlModel, tag='m'):
        t: T
    try:
        m = M.from_xml(doc)
    except pd.ValidationError as e:
        eq([(x['loc'], x['type']) for x in e.errors()], errs, doc)
        true(errs, 'rejected')
    else:
        eq(errs, [], f'{doc} accepted as {m!r}')
        eq([getattr(x, 'v', getattr(x, 'w', None)) for x in m.t], want, doc)
        same_xml(m.to_xml(), doc, 'written back')


def named_defaults():
    class P(NamedTuple):
        x: int
        y: Optional[int] = None
        z: Optional[int] = None

    class M(px.BaseXmlModel, tag='m'):
        p: P = px.element(tag='c')
        q: str = px.element()
    m = M.from_xml('<m><c>1</c><c>2</c><c>3</c><q>e</q></m>')
    eq(m.p, P(1, 2, 3), 'named')
    eq(m.q, 'e', 'what follows')
    same_xml(m.to_xml(), '<m><c>1</c><c>2</c><c>3</c><q>e</q></m>', 'written')
    m = M(p=P(1), q='e')
    same_xml(m.to_xml(exclude_none=True), '<m><c>1</c><q>e</q></m>', 'none excluded')
    same_xml(m.to_xml(), '<m><c>1</c><c/><c/><q>e</q></m>', 'positions kept')


def named_models():
    class P(NamedTuple):
        a: A
        b: B

    class M(px.BaseXmlModel, tag='m'):
        p: P
        l: Optional[List[P]] = None
    doc = '<m><a v="1"/><b>x</b><a v="2"/><b>y</b><a v="3"/><b>z</b></m>'
    m = M.from_xml(doc)
    eq(m.p, P(A(v=1), B(w='x')), 'first')
    eq(m.l, [P(A(v=2), B(w='y')), P(A(v=3), B(w='z'))], 'list of named tuples')
    same_xml(m.to_xml(), doc, 'written')
    e = raises(pd.ValidationError, lambda: M.from_xml('<m><a v="q"/><b/></m>'))
    eq([(x['loc'][0], x['loc'][-1]) for x in e.errors()], [('p', 'v'), ('p', 'w')], 'both components reported')


def dicts():
    class M(px.BaseXmlModel, tag='m'):
        t: Tuple[Dict[str, int], Dict[str, str]] = px.element(tag='d')
    m = M.from_xml('<m><d a="1"/><d a="x"/></m>')
    eq(m.t, ({'a': 1}, {'a': 'x'}), 'mappings')
    same_xml(m.to_xml(), '<m><d a="1"/><d a="x"/></m>', 'written')


def nested_in_root():
    class R(px.RootXmlModel[Tuple[A, B]], tag='r'):
        pass
    r = R.from_xml('<r><a v="1"/><b>2</b></r>')
    eq((r.root[0].v, r.root[1].w), (1, '2'), 'root tuple')
    same_xml(r.to_xml(), '<r><a v="1"/><b>2</b></r>', 'written')
    e = raises(pd.ValidationError, lambda: R.from_xml('<r><a v="x"/><b/></r>'))
    eq([x['loc'] for x in e.errors()], [(0, 'v'), (1, 'w')], 'locations')


def cases(rng, tier):
    k = 4 if tier == 'thorough' else 1
    for i in range(400 * k):
        n = rng.randint(1, 4)
        tys = [rng.choice(list(TYS)) for _ in range(n)]
        opt = [rng.random() < .5 for _ in range(n)]
        kind = rng.choice(['tuple', 'named'])
        seq = [(rng.choice('xxxxyz'), rng.choice(['1', '5', 'true', 'q', '', '0'])) for _ in range(rng.randint(0, 6))]
        yield f'read/{i}', lambda x=(kind, tys, opt, rng.choice(MODES), seq): read(*x)
    FL = [{}, {'skip_empty': True}, {'exclude_none': True}]
    for i in range(100 * k):
        n = rng.randint(1, 4)
        tys = [rng.choice(list(TYS)) for _ in range(n)]
        vals = [None if rng.random() < .3 else {'int': rng.choice([0, 1, -3]), 'str': rng.choice(['', 's', '0']), 'bool': rng.random() < .5}[t] for t in tys]
        yield f'write/{i}', lambda x=(rng.choice(['tuple', 'named']), tys, vals, rng.choice(FL)): write(*x)
    for kind in ('tuple', 'named'):
        for n in (1, 2, 3):
            for g in range(0, 5):
                yield f'length/{kind}{n}{g}', lambda x=(kind, n, g): length(*x)
    for i, r in enumerate([('AB', '<m><a v="1"/><b>x</b></m>', [1, 'x'], []), ('BA', '<m><b>x</b><a v="1"/></m>', ['x', 1], []),
                           ('AAB', '<m><a v="1"/><a v="2"/><b>x</b></m>', [1, 2, 'x'], []),
                           ('AAA', '<m><a v="x"/><a v="2"/><a/></m>', None, [(('t', 0, 'v'), 'int_parsing'), (('t', 2, 'v'), 'missing')]),
                           ('AB', '<m><a v="x"/><b/></m>', None, [(('t', 0, 'v'), 'int_parsing'), (('t', 1, 'w'), 'missing')])]):
        yield f'models/{i}', lambda r=r: models(*r)
    for f in (named_defaults, named_models, dicts, nested_in_root):
        yield f.__name__ + '/0', f
    kinds_ = ['tuple', 'tuple', 'elem', 'sub', 'text']
    yield from ref.read_cases('random', rng, 120 * k, lambda r: ref.Gen(r, kinds_, extra='mixed', nillable=True).model())
    yield from ref.write_cases('randomw', rng, 80 * k, lambda r: ref.Gen(r, kinds_, nillable=True).model())
