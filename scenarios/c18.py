"""C18: computed, hidden, excluded and custom-handled fields go where declared."""
import random
from typing import Annotated, Any, Dict, List, Optional, Tuple, Union

import pydantic as pd
from pydantic import Field, computed_field
from pydantic_xml.fields import NoXml, XmlFieldSerializer, XmlFieldValidator

from . import ref
from .lib import LXML, MODES, SearchMode, eq, etree, px, raises, same_xml, true

Meta = type(px.BaseXmlModel)


class S(px.BaseXmlModel, tag='s'):
    v: int = px.attr()


# ---------------------------------------------------------------------------------------- computed fields
COMPUTED = {'attr': '12', 'elem': '12', 'text': '12', 'list': ['1', '2'], 'sub': 's', 'map': 'd', 'tuple': ['1', 'x'], 'none': ''}


def computed(kinds, mode, plain_decl):
    """Computed fields are written with their own value, are not read and consume nothing."""
    ann, body, later = {}, {'__module__': __name__}, {}

    def prop(name, ty, val):
        def get(self):
            return val
        get.__name__, get.__annotations__ = name, {'return': ty}
        return property(get)
    for i, k in enumerate(kinds):
        n = f'c{i}'
        ty, val = {'attr': (int, 12), 'elem': (int, 12), 'text': (int, 12), 'list': (List[int], [1, 2]), 'sub': (S, S(v=12)), 'map': (Dict[str, int], {'k': 12}),
                   'tuple': (Tuple[int, str], (1, 'x')), 'none': (Optional[int], None)}[k]
        p = prop(n, ty, val)
        body[n] = px.computed_attr(p) if k == 'attr' else computed_field(p) if k == 'text' else px.computed_element(p) if k != 'sub' else px.computed_element(tag=n)(p)
    fields = {'a': (Optional[int], px.attr(default=None)), 'e': (Optional[int], px.element(default=None)), 'l': (Optional[List[int]], px.element(tag='l', default=None))}
    for n, (t, f) in fields.items():
        ann[n], body[n] = t, f
    body['__annotations__'] = ann
    M = Meta('M', (px.BaseXmlModel,), body, tag='m', search_mode=mode)
    m = M(a=1, e=2, l=[3, 4])
    kids, at, text = [('e', '2'), ('l', '3'), ('l', '4')], {'a': '1'}, ''
    for i, k in enumerate(kinds):
        n = f'c{i}'
        if k == 'attr':
            at[n] = '12'
        elif k == 'text':
            text = '12'
        elif k in ('list', 'tuple'):
            kids += [(n, x) for x in COMPUTED[k]]
        elif k == 'sub':
            kids.append((n, {'v': '12'}))
        elif k == 'map':
            kids.append((n, {'k': '12'}))
        elif k == 'none':
            kids.append((n, ''))
        else:
            kids.append((n, '12'))
    t = m.to_xml_tree()
    got = [(c.tag, dict(c.attrib) or c.text or '') for c in t]
    eq((dict(t.attrib), t.text or '', got), (at, text, kids), f'{kinds} written')
    # reading: the document holds other values at the same places
    doc = etree.Element('m', {**{k: '77' for k in at}, 'a': '1'})
    doc.text = '77' if text else None
    for tag, v in kids:
        c = etree.SubElement(doc, tag)
        c.text = {'2': '2', '3': '3', '4': '4'}.get(v, '77') if isinstance(v, str) else None
    r = M.from_xml_tree(doc)
    eq((r.a, r.e, r.l), (1, 2, [3, 4]), f'{kinds} read')
    for i, k in enumerate(kinds):
        eq(getattr(r, f'c{i}'), {'attr': 12, 'elem': 12, 'text': 12, 'list': [1, 2], 'sub': S(v=12), 'map': {'k': 12}, 'tuple': (1, 'x'), 'none': None}[k], 'value')
    F = Meta('M', (M,), {'__module__': __name__, 'model_config': {'extra': 'forbid'}}, tag='m')
    n_extra = sum(1 for k in kids if k[0] not in 'el') and sum(1 for c in doc if c.tag not in ('e', 'l') and c.text) + sum(1 for k in at if k != 'a') + bool(text)
    n_extra = sum(1 for c in doc if c.tag not in ('e', 'l') and c.text) + sum(1 for k in at if k != 'a') + bool(text)
    if n_extra:
        e = raises(pd.ValidationError, lambda: F.from_xml_tree(doc), 'content at the place of a computed field is not bound')
        eq(len(e.errors()), n_extra, f'{kinds}: {e}')
    else:
        F.from_xml_tree(doc)


def computed_consumes_nothing(mode):
    """A computed element named like a real one does not consume it."""
    class M(px.BaseXmlModel, tag='m', search_mode=mode):
        x: Optional[int] = px.element(tag='x', default=None)
        y: Optional[int] = px.element(tag='x', default=None)
        k: Optional[int] = px.attr(name='k', default=None)

        @px.computed_element(tag='x')
        def z(self) -> int:
            return (self.x or 0) + (self.y or 0)

        @px.computed_attr(name='kk')
        def kz(self) -> int:
            return self.k or 0
    r = M.from_xml('<m k="5" kk="9"><x>1</x><x>2</x><x>9</x></m>')
    eq((r.x, r.y, r.z, r.k, r.kz), (1, 2, 3, 5, 5), 'read')
    same_xml(r.to_xml(), '<m k="5" kk="5"><x>1</x><x>2</x><x>3</x></m>')


# ------------------------------------------------------------------------------------- hidden and excluded
HID = {'none': lambda f: f, 'noxml': None, 'exclude': None}


def visibility(spec, mode):
    """spec: [(kind, visibility)]; every visible field is written once, in order; hidden ones are not read."""
    ann, body = {}, {'__module__': __name__}
    for i, (kind, vis) in enumerate(spec):
        n = f'f{i}'
        kw = dict(exclude=True) if vis == 'exclude' else {}
        T = {'attr': Optional[int], 'elem': Optional[int], 'list': Optional[List[int]], 'sub': Optional[S], 'map': Optional[Dict[str, int]], 'wrap': Optional[int],
             'raw': Optional[int]}[kind]
        ann[n] = Annotated[T, NoXml] if vis == 'noxml' else T
        body[n] = (px.attr(default=None, **kw) if kind == 'attr' else px.wrapped('w', px.element(tag=n), default=None, **kw) if kind == 'wrap' else
                   px.element(tag=n, default=None, **kw))
    body['__annotations__'] = ann
    M = Meta('M', (px.BaseXmlModel,), body, tag='m', search_mode=mode)
    val = lambda i, kind: {'list': [i, i + 1], 'sub': S(v=i), 'map': {'k': i}}.get(kind, i)
    m = M(**{f'f{i}': val(i + 10, k) for i, (k, v) in enumerate(spec)})

    def doc(skip):
        e, last = etree.Element('m'), None
        for i, (kind, vis) in enumerate(spec):
            if vis in skip:
                continue
            n, v = f'f{i}', i + 10
            if kind == 'attr':
                e.set(n, str(v))
                continue
            if kind == 'wrap':
                w = e[-1] if len(e) and e[-1].tag == 'w' else etree.SubElement(e, 'w')
                etree.SubElement(w, n).text = str(v)
                continue
            c = etree.SubElement(e, n)
            if kind == 'list':
                c.text = str(v)
                etree.SubElement(e, n).text = str(v + 1)
            elif kind in ('sub', 'map'):
                c.set('v' if kind == 'sub' else 'k', str(v))
            else:
                c.text = str(v)
        return e
    same_xml(m.to_xml_tree(), doc(('noxml', 'exclude')), f'{spec} written')
    r = M.from_xml_tree(doc(('noxml',)))
    eq({f'f{i}': getattr(r, f'f{i}') for i in range(len(spec))}, {f'f{i}': None if v == 'noxml' else val(i + 10, k) for i, (k, v) in enumerate(spec)}, f'{spec} read')
    if mode != SearchMode.STRICT:
        r = M.from_xml_tree(doc(()))
        eq({f'f{i}': getattr(r, f'f{i}') for i in range(len(spec))}, {f'f{i}': None if v == 'noxml' else val(i + 10, k) for i, (k, v) in enumerate(spec)}, f'{spec} read with hidden ones present')


def hidden_text():
    class M(px.BaseXmlModel, tag='m'):
        model_config = {'extra': 'forbid'}
        h: Annotated[Optional[str], NoXml] = 'dflt'
        u: Annotated[Any, NoXml] = None
        a: Optional[int] = px.attr(default=None)
    e = raises(pd.ValidationError, lambda: M.from_xml('<m a="1" h="2">text</m>'))
    eq([(x['loc'], x['input']) for x in e.errors()], [((), 'text'), (('@h',), '2')], 'hidden fields bind nothing')
    eq(M.from_xml('<m a="1"/>').h, 'dflt', 'default')
    same_xml(M(h='x', a=1).to_xml(), '<m a="1"/>')
    eq(M(h='x', a=1).model_dump()['h'], 'x', 'still there for other formats')


def excluded_computed_and_required():
    class M(px.BaseXmlModel, tag='m'):
        a: int = px.attr(exclude=True)
        b: int = px.element(exclude=True)
        t: str = Field(exclude=True)
    r = M.from_xml('<m a="1">x<b>2</b></m>')
    eq((r.a, r.b, r.t), (1, 2, 'x'), 'read')
    same_xml(r.to_xml(), '<m/>')


# --------------------------------------------------------------------------------------------------- hooks
def hooks(seed):
    """A hook alone handles its field, is called once with the element and field name; all other fields are read and written once, in order."""
    rng = random.Random(seed)
    names = [f'f{i}' for i in range(rng.randint(1, 5))]
    rd = [n for n in names if rng.random() < .4]
    wr = [n for n in names if rng.random() < .4]
    how = {n: rng.choice(['method', 'meta']) for n in names}
    ali = {n: f'al_{n}' for n in names if rng.random() < .3}
    log = []
    ann, body = {}, {'__module__': __name__}

    def read(cls, element, field_name):
        log.append(('r', field_name, cls.__name__))
        e = element.pop_element(field_name, SearchMode.UNORDERED)
        return None if e is None else int(e.pop_text()) * 100

    def write(self, element, value, field_name):
        log.append(('w', field_name, value))
        e = element.make_element('H' + field_name, nsmap=None)
        e.set_text(str(value))
        element.append_element(e)
    for n in names:
        metas = ([XmlFieldValidator(read)] if n in rd and how[n] == 'meta' else []) + ([XmlFieldSerializer(write)] if n in wr and how[n] == 'meta' else [])
        ann[n] = Annotated.__class_getitem__((Optional[int], *metas)) if metas else Optional[int]
        body[n] = px.element(tag=n, default=None, **({'alias': ali[n]} if n in ali else {}))
    r2, w2 = [n for n in rd if how[n] == 'method'], [n for n in wr if how[n] == 'method']
    if r2:
        body['hook_r'] = px.xml_field_validator(*r2)(read)
        read.__dict__['__xml_field_validator__'] = tuple(r2)
    if w2:
        body['hook_w'] = px.xml_field_serializer(*w2)(write)
    body['__annotations__'] = ann
    M = Meta('M', (px.BaseXmlModel,), body, tag='m', search_mode=SearchMode.UNORDERED)
    present = [n for n in names if rng.random() < .8]
    rng.shuffle(present)
    doc = etree.Element('m')
    for n in present:
        etree.SubElement(doc, n).text = n[1:]
    r = M.from_xml_tree(doc)
    eq(log, [('r', n, 'M') for n in names if n in rd], 'readers called')
    eq({n: getattr(r, n) for n in names}, {n: None if n not in present else int(n[1:]) * (100 if n in rd else 1) for n in names}, 'values read')
    log.clear()
    m = M(**{ali.get(n, n): i for i, n in enumerate(names)})
    t = m.to_xml_tree()
    eq(log, [('w', n, i) for i, n in enumerate(names) if n in wr], 'writers called')
    eq([(c.tag, c.text) for c in t], [('H' + n if n in wr else n, str(i)) for i, n in enumerate(names)], 'written in order')
    for flags in ({'exclude_unset': True}, {'skip_empty': True}, {'exclude_none': True}):
        log.clear()
        k = names[: len(names) // 2]
        t = M(**{ali.get(n, n): 7 for n in k}).to_xml_tree(**flags)
        if 'exclude_unset' in flags:
            eq([(c.tag, c.text) for c in t], [('H' + n if n in wr else n, '7') for n in k], 'unset fields are left out with or without hook')


def hook_errors():
    """What a hook raises as a validation error is reported under its field."""
    class M(px.BaseXmlModel, tag='m'):
        a: int = px.element()
        b: S = px.element(tag='b')
        c: int = px.element()

        @px.xml_field_validator('b')
        def rb(cls, element, field_name):
            return S.model_validate({'v': 'no'})
    e = raises(pd.ValidationError, lambda: M.from_xml('<m><a>1</a><c>2</c></m>'))
    eq([(x['loc'], x['type']) for x in e.errors()], [(('b', 'v'), 'int_parsing')], 'errors')


def hook_none():
    """A reader giving nothing leaves the field to its default."""
    class M(px.BaseXmlModel, tag='m'):
        a: int = px.element(default=5)

        @px.xml_field_validator('a')
        def ra(cls, element, field_name):
            return None
    r = M.from_xml('<m><a>1</a></m>')
    eq((r.a, r.model_fields_set), (5, set()), 'default')


def hooks_on_sub_models():
    """Hooks belong to their model, wherever it is used."""
    class K(px.BaseXmlModel, tag='k'):
        p: List[int] = px.element()

        @px.xml_field_validator('p')
        def rp(cls, element, field_name):
            return [int(x) for x in element.pop_attrib('p').split()]

        @px.xml_field_serializer('p')
        def wp(self, element, value, field_name):
            element.set_attribute('p', ' '.join(map(str, value)))

    class M(px.BaseXmlModel, tag='m'):
        p: str = px.attr()
        k: K
        ks: List[K] = px.wrapped('w')
        u: Union[S, K] = px.wrapped('u')
    doc = '<m p="q"><k p="1 2"/><w><k p="3"/><k p="4 5"/></w><u><k p="6"/></u></m>'
    m = M.from_xml(doc)
    eq((m.p, m.k.p, [k.p for k in m.ks], m.u.p), ('q', [1, 2], [[3], [4, 5]], [6]), 'read')
    same_xml(m.to_xml(), doc)


def order(seed):
    """All fields are written in declaration order, base fields first, computed ones last."""
    rng = random.Random(seed)
    names = [f'f{i}' for i in range(rng.randint(2, 8))]
    rng.shuffle(names)
    cut = rng.randrange(len(names))
    mk = lambda ns: {'__module__': __name__, '__annotations__': {n: int for n in ns}, **{n: px.element() for n in ns}}
    B = Meta('B', (px.BaseXmlModel,), mk(names[:cut]), tag='m')
    M = Meta('M', (B,), mk(names[cut:]), tag='m')
    vals = {n: i for i, n in enumerate(names)}
    kw = list(vals.items())
    rng.shuffle(kw)
    t = M(**dict(kw)).to_xml_tree()
    eq([(c.tag, c.text) for c in t], [(n, str(vals[n])) for n in names], 'order')
    eq(M.from_xml_tree(t).model_dump(), vals, 'read')
    bad = etree.Element('m')
    for c in reversed(list(t)):
        bad.append(c)
    raises(pd.ValidationError, lambda: M.from_xml_tree(bad), 'strict order of reading')


def cases(rng, tier):
    k = 5 if tier == 'thorough' else 1
    for f in (hidden_text, excluded_computed_and_required, hook_errors, hook_none, hooks_on_sub_models):
        yield f.__name__ + '/0', f
    ks = list(COMPUTED)
    for i in range(60 * k):
        kinds = [rng.choice(ks) for _ in range(rng.randint(1, 3))]
        while kinds.count('text') > 1:
            kinds.remove('text')
        yield f'computed/{i}', lambda x=(kinds, rng.choice(MODES), False): computed(*x)
    for m in MODES:
        yield f'consumes/{m.value}', lambda m=m: computed_consumes_nothing(m)
    for i in range(150 * k):
        spec = [(rng.choice(['attr', 'elem', 'list', 'sub', 'map', 'wrap']), rng.choice(['none', 'none', 'noxml', 'exclude'])) for _ in range(rng.randint(1, 5))]
        yield f'visibility/{i}', lambda x=(spec, rng.choice(MODES)): visibility(*x)
    for i in range(150 * k):
        yield f'hooks/{i}', lambda s=rng.randrange(1 << 30): hooks(s)
    for i in range(40 * k):
        yield f'order/{i}', lambda s=rng.randrange(1 << 30): order(s)
