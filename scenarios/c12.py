"""C12: names and namespaces resolve the same way for reading and writing."""
from typing import Annotated, Dict, List, Literal, NamedTuple, Optional, Tuple, Union

import pydantic as pd

from .lib import BACKEND, LXML, MODES, SearchMode, eq, etree, px, raises, same_xml, true

URIS = ['http://a', 'http://b', 'http://c', 'http://d', 'http://e']
KINDS = ['attr', 'elem', 'sub', 'rootsub', 'welem', 'wattr', 'wtext', 'wsub', 'list', 'sublist', 'map', 'raw', 'tuple', 'ntuple', 'union', 'subunion',
         'wwelem', 'celem', 'cattr']


class Undeclared(Exception):
    """The definition has to be refused."""


def uri(name, ns, nsmap, attr=False):
    if attr and ns is None:
        return name
    if ns is None:
        u = nsmap.get('')
    elif not nsmap:
        u = None
    elif ns not in nsmap:
        raise Undeclared
    else:
        u = nsmap[ns]
    return '{%s}%s' % (u, name) if u else name


def near(*xs):
    return next((x for x in xs if x is not None), None)


def merged(*maps):
    """nearest first"""
    r = {}
    for m in reversed(maps):
        r.update(m or {})
    return r


class Spec:
    def __init__(self, rng, allow_bad):
        pre = ['a', 'b', '']
        self.rng = rng

        def ns(p=.45):
            return rng.choice(pre + (['z'] if allow_bad and rng.random() < .3 else [])) if rng.random() < p else None

        def nsmap(p=.4, full=False):
            if not full and rng.random() >= p:
                return None
            return {k: rng.choice(URIS) for k in pre if full and k != '' or rng.random() < .6}
        self.full = not allow_bad
        self.tag, self.ns, self.nsmap = rng.choice([None, 'm']), ns(), nsmap(1, self.full)
        self.basemap = nsmap(.3)
        self.ns_attrs = rng.random() < .5
        self.s_tag, self.s_ns, self.s_nsmap, self.s_attrs = rng.choice([None, 's']), ns(), nsmap(.6, self.full), rng.random() < .5
        self.fields = []
        used = set()
        for i in range(rng.randint(1, 4)):
            k = rng.choice(KINDS)
            f = dict(kind=k, field=f'f{i}', name=rng.choice([None, f'n{i}']), alias=rng.choice([None, None, f'al{i}']), ns=ns(), nsmap=nsmap(.35),
                     wns=ns(.4), wnsmap=nsmap(.3))
            if k in ('sub', 'rootsub', 'wsub', 'sublist', 'subunion') and f['name'] is None:
                if k in used or 'subs' in used:      # keep the names of sub-models apart
                    f['name'] = f'n{i}'
                used.add('subs')
            if k in ('attr', 'wattr', 'cattr') and f['ns'] == '' and not allow_bad:
                f['ns'] = None
            if k in ('attr', 'wattr', 'cattr'):
                f['nsmap'] = None
            self.fields.append(f)
        self.fields.sort(key=lambda f: f['kind'] in ('celem', 'cattr'))      # computed fields come last


def sub_names(sp):
    """names inside the sub-model"""
    m = sp.s_nsmap or {}
    if sp.s_attrs and sp.s_ns == '':
        raise Undeclared
    return {'v': uri('v', sp.s_ns if sp.s_attrs else None, m, True), 'e': uri('e', sp.s_ns, m)}


def resolve(sp):
    """[(field, [path of element names or ('@', name)])] and the root name"""
    pm = merged(sp.nsmap, sp.basemap) if sp.nsmap or sp.basemap else {}
    root = uri(sp.tag or 'M', sp.ns, pm)
    uri(sp.s_tag or 'S', sp.s_ns, sp.s_nsmap or {})
    sub_names(sp)
    out = []
    for f in sp.fields:
        k = f['kind']
        w = k.startswith('w')
        chain_ns, chain_map = (sp.ns,), (pm,)
        path = []
        if w:
            path = [uri(f'w{f["field"]}', near(f['wns'], sp.ns), merged(f['wnsmap'], pm))]
            chain_ns, chain_map = (f['wns'], sp.ns), (f['wnsmap'], pm)
            if k == 'wtext':
                out.append((f, path, None))
                continue
            if k == 'wwelem':
                path.append(uri('ww', near(*chain_ns), merged(*chain_map)))
        if k in ('sub', 'wsub', 'rootsub', 'sublist', 'subunion'):
            tag = sp.s_tag if k != 'rootsub' else 'rs'
            name = f['name'] or tag or f['alias'] or f['field']
            n = uri(name, near(f['ns'], sp.s_ns if k != 'rootsub' else None, *chain_ns), merged(f['nsmap'], sp.s_nsmap if k != 'rootsub' else None, *chain_map))
        else:
            name = f['name'] or f['alias'] or f['field']
            a = k in ('attr', 'wattr', 'cattr')
            if a:
                pns = near(*chain_ns) if sp.ns_attrs else None
                fns = near(f['ns'], pns)
                if fns == '':
                    raise Undeclared
                n = uri(name, fns, merged(f['nsmap'], *chain_map), True)
            else:
                n = uri(name, near(f['ns'], *chain_ns), merged(f['nsmap'], *chain_map))
        out.append((f, path, n))
    return root, out


class NT(NamedTuple):
    p: int
    q: int


def build(sp):
    class S(px.BaseXmlModel, tag=sp.s_tag, ns=sp.s_ns, nsmap=sp.s_nsmap, ns_attrs=sp.s_attrs):
        v: int = px.attr()
        e: int = px.element()

    class RS(px.RootXmlModel[int], tag='rs'):
        pass
    ann, body = {}, {'__module__': __name__}
    for i, f in enumerate(sp.fields):
        k = f['kind']
        kw = dict(alias=f['alias']) if f['alias'] else {}
        el = lambda **x: px.element(tag=f['name'], ns=f['ns'], nsmap=f['nsmap'], **x)
        wr = lambda *x, **y: px.wrapped('w' + f['field'], *x, ns=f['wns'], nsmap=f['wnsmap'], **y)
        T = {'attr': int, 'elem': int, 'sub': S, 'rootsub': RS, 'welem': int, 'wattr': int, 'wtext': int, 'wsub': S, 'list': List[int], 'sublist': List[S],
             'map': Dict[str, int], 'raw': object, 'tuple': Tuple[int, int], 'ntuple': NT, 'union': Union[int, float], 'subunion': Union[S, S],
             'wwelem': int}.get(k)
        if k in ('celem', 'cattr'):
            def get(self, i=i) -> int:
                return 10 + i
            get.__name__ = f['field']
            if k == 'celem':
                body[f['field']] = px.computed_element(tag=f['name'], ns=f['ns'], nsmap=f['nsmap'], **kw)(property(get))
            else:
                body[f['field']] = px.computed_attr(name=f['name'], ns=f['ns'], **kw)(property(get))
            continue
        if k == 'raw':
            T = etree._Element if LXML else etree.Element
            body.setdefault('model_config', {'arbitrary_types_allowed': True})
        ann[f['field']] = T
        inner_kw = kw if i % 2 else {}          # alias given inside or at the wrapping declaration
        outer_kw = {} if i % 2 else kw
        body[f['field']] = (px.attr(name=f['name'], ns=f['ns'], **kw) if k == 'attr' else
                            wr(el(**inner_kw), **outer_kw) if k == 'welem' else
                            wr(px.wrapped('ww', el(**inner_kw)), **outer_kw) if k == 'wwelem' else
                            wr(px.attr(name=f['name'], ns=f['ns'], **inner_kw), **outer_kw) if k == 'wattr' else
                            wr(**kw) if k == 'wtext' else
                            wr(el(**inner_kw), **outer_kw) if k == 'wsub' else el(**kw))
    body['__annotations__'] = ann
    base = px.BaseXmlModel
    if sp.basemap:
        base = type(px.BaseXmlModel)('Base', (px.BaseXmlModel,), {'__module__': __name__, '__annotations__': {}}, nsmap=sp.basemap)
    M = type(px.BaseXmlModel)('M', (base,), body, tag=sp.tag, ns=sp.ns, nsmap=sp.nsmap, ns_attrs=sp.ns_attrs, search_mode=SearchMode.UNORDERED)
    return M, S, RS


def expected_doc(sp, root, names):
    """canonical expected document"""
    sn = sub_names(sp)
    at, kids = {}, []

    def leaf(n, t):
        return (n, {}, str(t), [])
    for i, (f, path, n) in enumerate(names):
        k, v = f['kind'], 10 + i
        sub = lambda x: (n, {sn['v']: str(x)}, '', [(leaf(sn['e'], x), '')])
        if k in ('attr', 'cattr'):
            at[n] = str(v)
            continue
        if k == 'wattr':
            node = [(path[0], {n: str(v)}, '', [])]
        elif k == 'wtext':
            node = [(path[0], {}, str(v), [])]
        else:
            node = {'elem': lambda: [leaf(n, v)], 'celem': lambda: [leaf(n, v)], 'welem': lambda: [leaf(n, v)], 'wwelem': lambda: [leaf(n, v)],
                    'sub': lambda: [sub(v)], 'wsub': lambda: [sub(v)],
                    'rootsub': lambda: [leaf(n, v)], 'list': lambda: [leaf(n, v), leaf(n, v + 1)], 'sublist': lambda: [sub(v), sub(v + 1)],
                    'map': lambda: [(n, {mapkey(sp, f): str(v)}, '', [])], 'raw': lambda: [(n, {'r': str(v)}, 'raw', [])],
                    'tuple': lambda: [leaf(n, v), leaf(n, v + 1)], 'ntuple': lambda: [leaf(n, v), leaf(n, v + 1)], 'union': lambda: [leaf(n, v)],
                    'subunion': lambda: [sub(v)]}[k]()
            for p in reversed(path):
                node = [(p, {}, '', [(x, '') for x in node])]
        kids += [(x, '') for x in node]
    return (root, at, '', kids)


def mapkey(sp, f):
    if not sp.ns_attrs:
        return 'k'
    pm = merged(sp.nsmap, sp.basemap) if sp.nsmap or sp.basemap else {}
    ns = near(f['ns'], sp.ns)
    u = merged(f['nsmap'], pm).get(ns) if ns else None
    return '{%s}k' % u if u else 'k'


def to_native(c):
    e = etree.Element(c[0], c[1])
    e.text = c[2] or None
    for k, t in c[3]:
        e.append(to_native(k))
    return e


def canon(e):
    return (e.tag, dict(e.attrib), e.text or '', [(canon(c), c.tail or '') for c in e])


def values(sp, S, RS, names):
    out = {}
    for i, (f, path, n) in enumerate(names):
        v = 10 + i
        k = f['kind']
        if k in ('celem', 'cattr'):
            continue
        s = lambda x: S(v=x, e=x)
        out[f['field']] = (s(v) if k in ('sub', 'wsub', 'subunion') else RS(v) if k == 'rootsub' else [v, v + 1] if k == 'list' else
                           [s(v), s(v + 1)] if k == 'sublist' else {'k': v} if k == 'map' else (v, v + 1) if k == 'tuple' else
                           NT(v, v + 1) if k == 'ntuple' else to_native((n, {'r': str(v)}, 'raw', [])) if k == 'raw' else v)
    return out


def unique(names):
    seen = set()
    for f, path, n in names:
        x = (tuple(path), n, f['kind'] in ('attr', 'cattr'))
        if x in seen:
            return False
        seen.add(x)
    return True


def one(sp, rng):
    desc = {k: v for k, v in vars(sp).items() if k != 'rng'}
    try:
        root, names = resolve(sp)
    except Undeclared:
        try:
            M, S, RS = build(sp)
        except px.errors.BaseError:
            return
        raise AssertionError(f'undeclared prefix accepted: {desc}')
    try:
        M, S, RS = build(sp)
    except px.errors.BaseError as e:
        raise AssertionError(f'refused ({e}): {desc}')
    vals = values(sp, S, RS, names)
    want = expected_doc(sp, root, names)
    m = M(**{(f['alias'] or f['field']): vals[f['field']] for f in sp.fields if f['field'] in vals})
    got = canon(m.to_xml_tree())
    if LXML or True:
        eq(got, want, f'written by {desc}')
    if unique(names):
        back = M.from_xml_tree(to_native(want))
        for name, v in vals.items():
            r = getattr(back, name)
            if not isinstance(v, (int, list, tuple, dict, px.BaseXmlModel)):
                eq(canon(r), canon(v), f'raw {desc}')
            else:
                eq(r, v, f'{name} read by {desc}')
    # a document using other names is not bound
    if sp.fields[0]['kind'] in ('elem', 'sub', 'list') and len(names) == 1:
        c = want[3][0][0]
        other = '{http://other}' + c[0].split('}')[-1] if not c[0].startswith('{http://other}') else 'x'
        bad = (want[0], want[1], '', [((other,) + c[1:], '')])
        e = raises(pd.ValidationError, lambda: M.from_xml_tree(to_native(bad)), f'other namespace {desc}')
        eq(e.errors()[0]['type'], 'missing', 'not found')


def prefixes_written():
    """The declared prefixes appear in the written document (back ends that write them)."""
    class M(px.BaseXmlModel, tag='m', ns='p', nsmap={'p': 'http://p', 'q': 'http://q'}):
        x: int = px.element(ns='q')
        y: int = px.attr(ns='q')
    s = M(x=1, y=2).to_xml().decode()
    if LXML:
        true('<p:m' in s and '<q:x>' in s and 'q:y="2"' in s, s)
    same_xml(s, '<a:m xmlns:a="http://p" xmlns:b="http://q" b:y="2"><b:x>1</b:x></a:m>')


def not_from_siblings():
    """Namespaces of one entity never leak into the next one or into the model of a sub-element."""
    class S(px.BaseXmlModel, tag='s'):
        x: int = px.element()

    class M(px.BaseXmlModel, tag='m', nsmap={'p': 'http://p', 'q': 'http://q'}):
        a: int = px.element(ns='p')
        b: int = px.element()
        s: S = px.element(ns='q')
        t: int = px.attr()
    doc = '<m xmlns:p="http://p" xmlns:q="http://q" t="4"><p:a>1</p:a><b>2</b><q:s><x>3</x></q:s></m>'
    m = M.from_xml(doc)
    eq((m.a, m.b, m.s.x, m.t), (1, 2, 3, 4), doc)
    same_xml(m.to_xml(), doc)


def validation_alias_only():
    """Only the name written is taken from the alias; an explicit name always wins."""
    class M(px.BaseXmlModel, tag='m'):
        a: int = px.element(tag='n', alias='x')
        b: int = px.element(alias='y')
        c: int = px.attr(alias='z')
        d: int = px.element(serialization_alias='w')
        e: int = px.wrapped('p', px.element(), alias='v')
        f: int = px.wrapped('p', px.element(alias='u'))
    doc = '<m z="3"><n>1</n><y>2</y><w>4</w><p><v>5</v><u>6</u></p></m>'
    m = M.from_xml(doc)
    eq((m.a, m.b, m.c, m.d, m.e, m.f), (1, 2, 3, 4, 5, 6), doc)
    same_xml(m.to_xml(), doc)


def tagged():
    class A(px.BaseXmlModel, tag='e', ns='p', nsmap={'p': 'http://p'}, ns_attrs=True):
        k: Literal['a'] = px.attr(name='kind')

    class B(px.BaseXmlModel, tag='e', ns='p', nsmap={'p': 'http://p'}, ns_attrs=True):
        k: Literal['b'] = px.attr(name='kind')

    class M(px.BaseXmlModel, tag='m', ns='q', nsmap={'q': 'http://q'}):
        u: Union[A, B] = px.element(discriminator='k')
    doc = '<q:m xmlns:q="http://q" xmlns:p="http://p"><p:e p:kind="b"/></q:m>'
    eq(M.from_xml(doc).u, B(k='b'), doc)
    same_xml(M(u=B(k='b')).to_xml(), doc)


def undeclared(make):
    raises(px.errors.BaseError, make, 'undeclared prefix')


def cases(rng, tier):
    k = 4 if tier == 'thorough' else 1
    for f in (prefixes_written, not_from_siblings, validation_alias_only, tagged):
        yield f.__name__ + '/0', f
    for i in range(900 * k):
        yield f'random/{i}', lambda s=Spec(rng, False): one(s, rng)
    for i in range(500 * k):
        yield f'undeclared/{i}', lambda s=Spec(rng, True): one(s, rng)
