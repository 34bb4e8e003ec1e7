"""C13: settings of model classes are inherited, overridden and isolated."""
from typing import Generic, List, Optional, TypeVar

import pydantic as pd

from .lib import LXML, MODES, SearchMode, eq, etree, px, raises, same_xml, true

Meta = type(px.BaseXmlModel)
T = TypeVar('T')
KEYS = ('tag', 'ns', 'nsmap', 'ns_attrs', 'skip_empty', 'search_mode')


def rand_settings(rng, p=.45):
    o = {}
    if rng.random() < p:
        o['tag'] = rng.choice(['t1', 't2', 't3'])
    if rng.random() < p:
        o['ns'] = rng.choice(['p', 'q', ''])
    if rng.random() < p:
        o['nsmap'] = {k: f'http://{k or "d"}{rng.randint(1, 3)}' for k in ('p', 'q', '', 'r') if rng.random() < .5}
    if rng.random() < p:
        o['ns_attrs'] = rng.random() < .5
    if rng.random() < p:
        o['skip_empty'] = rng.random() < .5
    if rng.random() < p:
        o['search_mode'] = rng.choice(MODES)
    return o


BASE = {'nsmap': {'p': 'http://p0', 'q': 'http://q0', '': 'http://d0'}}


def effective(own, parent):
    e = dict(parent)
    for k, v in own.items():
        e[k] = {**parent.get('nsmap', {}), **v} if k == 'nsmap' else v
    return e


def observe(cls, name, e):
    """The behaviour of the class is the one its effective settings prescribe."""
    nm = e.get('nsmap', {})
    ns = e.get('ns')
    q = lambda n, pre: ('{%s}%s' % (nm[pre], n)) if nm.get(pre) else n
    dflt = q('x', ns if ns is not None else '')[:-1]
    root = dflt + (e.get('tag') or name)
    attns = q('x', ns)[:-1] if e.get('ns_attrs') and ns is not None else ''
    sk = e.get('skip_empty')
    m = cls(a=1, b=2, c=None, d=3)
    for caller in (False, True):
        skip = caller if sk is None else sk
        t = m.to_xml_tree(skip_empty=caller)
        eq(t.tag, root, f'{name} {e}: name')
        eq(dict(t.attrib), {attns + 'a': '1'}, f'{name} {e}: attributes')
        eq([(c.tag, c.text or '') for c in t], [(dflt + 'b', '2')] + ([] if skip else [(dflt + 'c', '')]) + [(q('d', 'p'), '3')], f'{name} {e}: elements skip_empty={caller}')
        if LXML:
            eq({k or '': v for k, v in t.nsmap.items()}, {k: v for k, v in nm.items()}, f'{name} {e}: namespace map')
    mode = e.get('search_mode', SearchMode.STRICT)
    for order in ('bcd', 'bxcd', 'bdc', 'cdb', 'xbd'):
        doc = etree.Element(root, {attns + 'a': '1'})
        val = {'b': '2', 'c': '4', 'd': '3', 'x': '9'}
        tags = {'b': dflt + 'b', 'c': dflt + 'c', 'd': q('d', 'p'), 'x': 'x'}
        for o in order:
            etree.SubElement(doc, tags[o]).text = val[o]
        want, pos, left = {}, 0, list(order)
        for f in 'bcd':
            if mode == SearchMode.STRICT:
                hit = pos if pos < len(order) and order[pos] == f else None
            elif mode == SearchMode.ORDERED:
                hit = next((i for i in range(pos, len(order)) if order[i] == f), None)
            else:
                hit = order.index(f) if f in order else None
            want[f] = None if hit is None else int(val[f])
            if hit is not None and mode != SearchMode.UNORDERED:
                pos = hit + 1
        r = cls.from_xml_tree(doc)
        eq({'b': r.b, 'c': r.c, 'd': r.d}, want, f'{name} {e}: reading {order}')
        eq(r.a, 1, 'attribute')
    wrong = etree.Element(root + 'x')
    raises(px.errors.ParsingError, lambda: cls.from_xml_tree(wrong), 'wrong root')


def body():
    return {'__module__': __name__, '__annotations__': {'a': Optional[int], 'b': Optional[int], 'c': Optional[int], 'd': Optional[int]},
            'a': px.attr(default=None), 'b': px.element(default=None), 'c': px.element(default=None), 'd': px.element(ns='p', default=None)}


def hierarchy(rng):
    """A random class tree; every class behaves as its own settings prescribe, before and after every later definition."""
    root_own = {**BASE, **rand_settings(rng, .3)}
    root_own['nsmap'] = {**BASE['nsmap'], **root_own['nsmap']}
    if root_own.get('ns') == '':
        root_own.pop('ns_attrs', None)
    classes = [('R', Meta('R', (px.BaseXmlModel,), body(), **root_own), root_own)]
    observe(classes[0][1], 'R', root_own)
    for i in range(rng.randint(2, 5)):
        pn, pc, pe = rng.choice(classes)
        own = rand_settings(rng)
        if own.get('ns') is not None and own.get('ns') == '' and (own.get('ns_attrs') or pe.get('ns_attrs')):
            own.pop('ns')
        e = effective(own, pe)
        if e.get('ns') == '' and e.get('ns_attrs'):
            own.pop('ns_attrs', None)
            e = effective(own, pe)
        name = f'C{i}'
        how = rng.randrange(3)
        if how == 0:
            cls = Meta(name, (pc,), {'__module__': __name__}, **own)
        elif how == 1:
            cls = Meta(name, (pc,), body(), **own)
        else:
            cls = px.create_model(name, __base__=pc, **{f'__{k}__': v for k, v in own.items()})
        classes.append((name, cls, e))
        if rng.random() < .5:
            other = rng.choice(classes)
            if not issubclass(cls, other[1]) and not issubclass(other[1], cls):
                own2 = rand_settings(rng, .3)
                own2.pop('ns', None), own2.pop('ns_attrs', None)
                try:
                    both = Meta(f'D{i}', (cls, other[1]), {'__module__': __name__}, **own2)
                except TypeError:
                    continue
                classes.append((f'D{i}', both, effective(own2, e)))
        for n, c, s in classes:
            observe(c, n, s)


def generic(rng):
    own = rand_settings(rng, .6)
    own['nsmap'] = {**BASE['nsmap'], **own.get('nsmap', {})}
    own.pop('ns_attrs', None)
    own.setdefault('tag', 'gg')

    class G(px.BaseXmlModel, Generic[T], **own):
        a: Optional[int] = px.attr(default=None)
        b: Optional[T] = px.element(default=None)
        c: Optional[T] = px.element(default=None)
        d: Optional[int] = px.element(ns='p', default=None)
    more = rand_settings(rng, .4)
    more.pop('ns_attrs', None)
    GI = G[int]
    observe(GI, GI.__name__, own)

    class H(G[int], **more):
        pass

    class K(G[T], Generic[T], **more):
        pass
    observe(H, 'H', effective(more, own))
    observe(K[int], K[int].__name__, effective(more, own))
    observe(GI, GI.__name__, own)


def root_models():
    class R(px.RootXmlModel, tag='r', ns='p', nsmap={'p': 'http://p', 'q': 'http://q'}):
        root: List[int] = px.element(tag='i', default=[])

    class S(R, ns='q'):
        pass

    class U(R, tag='u', nsmap={'p': 'http://pp'}):
        pass
    for _ in range(2):
        same_xml(R([1]).to_xml(), '<p:r xmlns:p="http://p"><p:i>1</p:i></p:r>')
        same_xml(S([1]).to_xml(), '<q:r xmlns:q="http://q"><q:i>1</q:i></q:r>')
        same_xml(U([1]).to_xml(), '<p:u xmlns:p="http://pp"><p:i>1</p:i></p:u>')
        eq(U.from_xml('<p:u xmlns:p="http://pp"><p:i>1</p:i></p:u>').root, [1], 'read')


def falsy_settings():
    """False, '' and STRICT are settings, not their absence."""
    class A(px.BaseXmlModel, tag='a', ns='p', nsmap={'p': 'http://p', '': 'http://d'}, ns_attrs=True, skip_empty=True, search_mode=SearchMode.UNORDERED):
        x: Optional[int] = px.attr(default=None)
        y: Optional[int] = px.element(default=None)
        z: Optional[int] = px.element(default=None)

    class B(A, ns_attrs=False, skip_empty=False, search_mode=SearchMode.STRICT, ns='', nsmap={}):
        pass
    same_xml(B(x=1).to_xml(skip_empty=True), '<a xmlns="http://d" x="1"><y/><z/></a>')
    r = B.from_xml('<a xmlns="http://d"><y>1</y><q/><z>2</z></a>')
    eq((r.y, r.z), (1, None), 'strict')
    same_xml(A(x=1, z=2).to_xml(), '<p:a xmlns:p="http://p" p:x="1"><p:z>2</p:z></p:a>')
    r = A.from_xml('<p:a xmlns:p="http://p"><p:z>1</p:z><p:y>2</p:y></p:a>')
    eq((r.y, r.z), (2, 1), 'unordered')


def map_not_shared():
    """The namespace map given at a definition is neither changed nor shared."""
    nm, nm2 = {'p': 'http://p'}, {'q': 'http://q'}

    class A(px.BaseXmlModel, tag='a', ns='p', nsmap=nm):
        x: int = px.element()

    class B(A, nsmap=nm2, ns='q'):
        pass
    eq((nm, nm2), ({'p': 'http://p'}, {'q': 'http://q'}), 'maps given')
    same_xml(A(x=1).to_xml(), '<p:a xmlns:p="http://p"><p:x>1</p:x></p:a>')
    same_xml(B(x=1).to_xml(), '<p:a xmlns:p="http://q"><p:x>1</p:x></p:a>')
    raises(px.errors.BaseError, lambda: Meta('C', (A,), {'__module__': __name__}, ns='q'), 'q was not declared for a subclass of A')


def hooks(rng):
    """Hooks of the same field: the most derived definition wins; other classes are unaffected."""
    classes, log = [], []
    n = rng.randint(2, 5)
    for i in range(n):
        body_ = {'__module__': __name__}
        defs = []                   # (function name, kind, fields) in definition order
        for j in range(rng.randint(0, 2)):
            kind = rng.choice(['r', 'w'])
            fname = rng.choice([f'{kind}h', f'{kind}h{i}{j}', f'{kind}z', f'{kind}a{j}'])
            if fname in [d[0] for d in defs]:
                continue
            flds = rng.choice([('x',), ('y',), ('x', 'y')])
            mark = f'{i}{j}'
            if kind == 'r':
                def rd(cls, element, field_name, mark=mark):
                    element.pop_element(field_name, SearchMode.UNORDERED)
                    return f'{mark}-{field_name}'
                body_[fname] = px.xml_field_validator(*flds)(rd if rng.random() < .5 else classmethod(rd))
            else:
                def wr(self, element, value, field_name, mark=mark):
                    s = element.make_element(field_name, nsmap=None)
                    s.set_text(f'{mark}-{field_name}')
                    element.append_element(s)
                body_[fname] = px.xml_field_serializer(*flds)(wr)
            defs.append((fname, kind, flds, mark))
        if i == 0 or not classes:
            bases = (px.BaseXmlModel,)
            body_['__annotations__'] = {'x': str, 'y': str}
            body_['x'], body_['y'] = px.element(default='dx'), px.element(default='dy')
        else:
            bases = (rng.choice(classes)[0],)
            if len(classes) > 2 and rng.random() < .5:
                o = rng.choice(classes)[0]
                if not issubclass(bases[0], o) and not issubclass(o, bases[0]):
                    bases = (bases[0], o)
        try:
            cls = Meta(f'K{i}', bases, body_, tag='m')
        except TypeError:
            continue
        classes.append((cls, defs))
        for c, _ in classes:
            want = {('r', 'x'): None, ('r', 'y'): None, ('w', 'x'): None, ('w', 'y'): None}
            table = dict(classes)
            mro = [b for b in c.__mro__ if b in table]
            for b in reversed(mro):
                for fname, kind, flds, mark in table[b]:
                    # the most derived definition under that name is the one in force
                    win = next(d for bb in mro for d in table[bb] if d[0] == fname)
                    for f in win[2]:
                        want[(kind, f)] = win[3]
            got = c.from_xml('<m><x>tx</x><y>ty</y></m>')
            for f in 'xy':
                w = want[('r', f)]
                eq(getattr(got, f), f't{f}' if w is None else f'{w}-{f}', f'{c.__name__} reader of {f}')
            t = c(x='vx', y='vy').to_xml_tree()
            eq([(e.tag, e.text) for e in t], [(f, f'v{f}' if want[('w', f)] is None else f'{want[("w", f)]}-{f}') for f in 'xy'], f'{c.__name__} writers')


def hook_added_later():
    class A(px.BaseXmlModel, tag='a'):
        x: int = px.element()

    class B(A):
        @px.xml_field_validator('x')
        @classmethod
        def r(cls, element, field_name):
            return int(element.pop_element('x', SearchMode.STRICT).pop_text()) * 10

        @px.xml_field_serializer('x')
        def w(self, element, value, field_name):
            element.set_attribute('x', str(value))

    class C(A):
        pass

    class D(B):
        pass
    for cls, r, w in ((A, 1, '<a><x>1</x></a>'), (C, 1, '<a><x>1</x></a>'), (B, 10, '<a x="1"/>'), (D, 10, '<a x="1"/>')):
        eq(cls.from_xml('<a><x>1</x></a>').x, r, cls.__name__)
        same_xml(cls(x=1).to_xml(), w, cls.__name__)


def sub_model_settings():
    """A model used as a field keeps its own settings, whatever those of the model around it."""
    class S(px.BaseXmlModel, tag='s', search_mode=SearchMode.STRICT, skip_empty=False):
        a: Optional[int] = px.element(default=None)
        b: Optional[int] = px.element(default=None)

    class M(px.BaseXmlModel, tag='m', search_mode=SearchMode.UNORDERED, skip_empty=True):
        t: Optional[int] = px.element(default=None)
        s: S
    same_xml(M(s=S(b=1)).to_xml(), '<m><s><a/><b>1</b></s></m>')
    r = M.from_xml('<m><s><b>1</b><a>2</a></s><t>3</t></m>')
    eq(r.t, 3, 'outer unordered')
    eq((r.s.a, r.s.b), (None, 1), 'inner strict')


def cases(rng, tier):
    import random
    k = 4 if tier == 'thorough' else 1
    for f in (root_models, falsy_settings, map_not_shared, hook_added_later, sub_model_settings):
        yield f.__name__ + '/0', f
    for i in range(250 * k):
        s = rng.randrange(1 << 30)
        yield f'hierarchy/{i}', lambda s=s: hierarchy(random.Random(s))
        yield f'hooks/{i}', lambda s=s: hooks(random.Random(s))
    for i in range(25 * k):
        s = rng.randrange(1 << 30)
        yield f'generic/{i}', lambda s=s: generic(random.Random(s))
