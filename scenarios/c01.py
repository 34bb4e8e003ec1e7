"""C01: bounded stand-in / witness search: searches against a reference model, and search modes seen through models."""
import itertools
from typing import List, Optional, Tuple

from .elem import Ref, build, eid, lookup_ops, position, rid, run_lookups, same, spec
from .lib import MODES, SearchMode, XmlElement, eq, px, raises, true

SEARCH = ['strict', 'ordered', 'unordered']


def flat(tags):
    return ('r', None, None, None, [(t, None, None, {'id': str(i)}, []) for i, t in enumerate(tags)])


def exhaustive(tags, start, mode, lb, sf, tag):
    sp = flat(tags)
    el, ref = build(sp), Ref(sp)
    for _ in range(start):     # walk to the start position
        t = ref.kids[ref.pos].tag
        el.pop_element(t, SearchMode.STRICT)
        ref.find(t, SearchMode.STRICT, False, True)
    got = el.find_element(tag, mode, look_behind=lb, step_forward=sf)
    exp = ref.find(tag, mode, lb, sf)
    eq(eid(got), rid(exp), 'found')
    position(el, ref, 'afterwards')
    same(el, ref, 'afterwards')


def bind(mode, doc, expected):
    """A model with fields a, b, c (optional) under the mode."""
    class M(px.BaseXmlModel, tag='m', search_mode=SearchMode(mode)):
        a: Optional[str] = px.element(default=None)
        b: Optional[str] = px.element(default=None)
        c: Optional[str] = px.element(default=None)
    xml = '<m>' + ''.join(f'<{t}>{v}</{t}>' for t, v in doc) + '</m>'
    m = M.from_xml(xml)
    eq((m.a, m.b, m.c), expected, f'{mode} {xml}')


def ref_bind(mode, doc):
    ref = Ref(('m', None, None, None, [(t, v, None, None, []) for t, v in doc]))
    out = []
    for t in 'abc':
        r = ref.find(t, SearchMode(mode), False, True)
        out.append(r.text if r else None)
    return tuple(out)


def bind_lists(mode, doc):
    class M(px.BaseXmlModel, tag='m', search_mode=SearchMode(mode)):
        a: List[str] = px.element(default=[])
        b: List[str] = px.element(default=[])
    xml = '<m>' + ''.join(f'<{t}>{v}</{t}>' for t, v in doc) + '</m>'
    ref = Ref(('m', None, None, None, [(t, v, None, None, []) for t, v in doc]))
    exp = []
    for t in 'ab':
        vs = []
        while (r := ref.find(t, SearchMode(mode), False, True)) is not None:
            vs.append(r.text)
        exp.append(vs)
    m = M.from_xml(xml)
    eq([m.a, m.b], exp, f'{mode} {xml}')


def bind_nested(mode, inner_mode, doc):
    """The inner model uses its own search mode."""
    class I(px.BaseXmlModel, tag='i', search_mode=SearchMode(inner_mode)):
        a: Optional[str] = px.element(default=None)
        b: Optional[str] = px.element(default=None)

    class M(px.BaseXmlModel, tag='m', search_mode=SearchMode(mode)):
        i: Optional[I] = px.element(tag='i', default=None)
        z: Optional[str] = px.element(default=None)
    kids = []
    for t, v in doc:
        kids.append(f'<{t}>{v}</{t}>' if t != 'i' else '<i>' + ''.join(f'<{x}>{y}</{x}>' for x, y in v) + '</i>')
    xml = '<m>' + ''.join(kids) + '</m>'
    ref = Ref(('m', None, None, None, [(t, v if t != 'i' else None, None, None,
                                        [] if t != 'i' else [(x, y, None, None, []) for x, y in v]) for t, v in doc]))
    ri = ref.find('i', SearchMode(mode), False, True)
    exp_i = None
    if ri is not None:
        exp_i = []
        for t in 'ab':
            r = ri.find(t, SearchMode(inner_mode), False, True)
            exp_i.append(r.text if r else None)
    rz = ref.find('z', SearchMode(mode), False, True)
    m = M.from_xml(xml)
    eq((None if m.i is None else [m.i.a, m.i.b], m.z), (exp_i, rz.text if rz else None), f'{mode}/{inner_mode} {xml}')


def bind_wrapped(mode, doc):
    class M(px.BaseXmlModel, tag='m', search_mode=SearchMode(mode)):
        a: Optional[str] = px.wrapped('w', px.element(tag='a'), default=None)
        b: Optional[str] = px.wrapped('w', px.element(tag='b'), default=None)
        c: Optional[str] = px.element(default=None)
    xml = '<m>' + ''.join(f'<{t}>{v}</{t}>' if t != 'w' else '<w>' + ''.join(f'<{x}>{y}</{x}>' for x, y in v) + '</w>' for t, v in doc) + '</m>'
    ref = Ref(('m', None, None, None, [(t, v if t != 'w' else None, None, None,
                                        [] if t != 'w' else [(x, y, None, None, []) for x, y in v]) for t, v in doc]))
    exp = []
    for t in 'ab':
        w = ref.find('w', SearchMode(mode), True, True)
        r = w.find(t, SearchMode(mode), False, True) if w else None
        exp.append(r.text if r else None)
    r = ref.find('c', SearchMode(mode), False, True)
    exp.append(r.text if r else None)
    m = M.from_xml(xml)
    eq([m.a, m.b, m.c], exp, f'{mode} {xml}')


def cases(rng, tier):
    big = tier == 'thorough'
    for n in range(0, 5 if big else 4):
        for tags in itertools.product('ab', repeat=n):
            for start in range(n + 1):
                for mode in MODES:
                    for lb in (False, True):
                        for sf in (False, True):
                            for tag in 'abz':
                                yield (f'search/{"".join(tags)}@{start}-{mode.value}-lb{lb:d}-sf{sf:d}-{tag}',
                                       lambda a=(tags, start, mode, lb, sf, tag): exhaustive(*a))
    for i in range(6000 if big else 1200):
        sp = spec(rng, 2, rng.randint(0, 6))
        yield f'history/{i}', lambda sp=sp, ops=lookup_ops(rng, rng.randint(1, 12)): run_lookups(sp, ops)
    for mode in SEARCH:
        for n in range(0, 5):
            for tags in itertools.product('abc', repeat=n):
                if n == 4 and not big and rng.random() < .7:
                    continue
                doc = [(t, f'{t}{i}') for i, t in enumerate(tags)]
                yield f'model/{mode}-{"".join(tags)}', lambda mode=mode, doc=doc: bind(mode, doc, ref_bind(mode, doc))
        for n in range(0, 6):
            for tags in itertools.product('abx' if n < 5 else 'ab', repeat=n):
                if n > 3 and not big and rng.random() < .7:
                    continue
                doc = [(t, f'{t}{i}') for i, t in enumerate(tags)]
                yield f'lists/{mode}-{"".join(tags)}', lambda mode=mode, doc=doc: bind_lists(mode, doc)
        for inner in SEARCH:
            for i in range(60 if big else 20):
                doc = [(rng.choice('izq'), None) for _ in range(rng.randint(0, 4))]
                doc = [(t, f'v{k}' if t != 'i' else [(rng.choice('abq'), f'{k}.{j}') for j in range(rng.randint(0, 4))]) for k, (t, _) in enumerate(doc)]
                yield f'nested/{mode}-{inner}-{i}', lambda a=(mode, inner, doc): bind_nested(*a)
        for i in range(120 if big else 40):
            doc = [(rng.choice('wwcq'), None) for _ in range(rng.randint(0, 4))]
            doc = [(t, f'v{k}' if t != 'w' else [(rng.choice('abq'), f'{k}.{j}') for j in range(rng.randint(0, 4))]) for k, (t, _) in enumerate(doc)]
            yield f'wrapped/{mode}-{i}', lambda a=(mode, doc): bind_wrapped(*a)
