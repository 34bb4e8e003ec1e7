"""C17: conversion to and from the native tree preserves the document."""
import random
from typing import Any, Dict, List, Optional, Tuple, Union

import pydantic as pd

from .lib import LXML, MODES, SearchMode, XmlElement, eq, etree, px, raises, same_xml, true

EL = etree._Element if LXML else etree.Element
TAGS = ['a', 'b', 'c', '{http://p}a', '{http://q}b', '{http://p}c-d']
TEXTS = [None, None, '', 't', ' x ', '\n', 'é<&>', 'long text ' * 3]


def rand_tree(rng, depth=3, extras=True):
    e = etree.Element(rng.choice(TAGS))
    for n in TAGS:
        if rng.random() < .25:
            e.set(n, rng.choice(['', 'v', 'é"<', ' ']))
    e.text = rng.choice(TEXTS)
    for _ in range(rng.randint(0, 4 if depth else 0)):
        k = rng.random()
        if extras and k < .2:
            c = etree.Comment(rng.choice(['', 'note', ' x ']))
        elif extras and k < .35:
            c = etree.ProcessingInstruction('pi', rng.choice(['', 'data']))
        else:
            c = rand_tree(rng, depth - 1, extras)
        c.tail = rng.choice(TEXTS)
        e.append(c)
    return e


def is_extra(c):
    return c.tag is etree.Comment or c.tag is etree.ProcessingInstruction


def canon(e, extras=False):
    """independent canonical form: comments and instructions dropped, the text around them joined"""
    text, kids = e.text or '', []
    for c in e:
        if is_extra(c) and not extras:
            if kids:
                kids[-1][1] += c.tail or ''
            else:
                text += c.tail or ''
        elif is_extra(c):
            kids.append([('extra', c.text), c.tail or ''])
        else:
            kids.append([canon(c, extras), c.tail or ''])
    return [e.tag, dict(e.attrib), text, kids]


def there_and_back(seed):
    t = rand_tree(random.Random(seed))
    t.tail = None
    before = canon(t, True)
    n = XmlElement.from_native(t)
    eq(canon(t, True), before, 'the tree converted is not modified')
    back = n.to_native()
    eq(canon(back), canon(t), 'there and back')
    again = n.to_native()
    eq(canon(again), canon(t), 'a second time')
    true(back is not t, 'a new tree')
    # changing the copy changes nothing else
    for x in [back] + list(back.iter()):
        x.attrib['zz'] = 'changed'
        x.text = 'changed'
    eq(canon(t, True), before, 'the tree converted is independent of the copy')
    eq(canon(n.to_native()), canon(t), 'so is the internal form')


def parsed(doc, text, tails):
    """Text interrupted by comments and instructions is not lost."""
    n = XmlElement.from_native(etree.fromstring(doc)).to_native()
    eq((n.text or '', [c.tail or '' for c in n]), (text, tails), doc)

    class M(px.BaseXmlModel, tag='m'):
        model_config = {'extra': 'forbid'}
        t: Optional[str] = None
        a: Optional[List[str]] = px.element(tag='a', default=None)
    if not ''.join(tails).strip():
        m = M.from_xml(doc)
        eq(m.t or '', text, doc)
        eq(len(m.a or []), len(tails), doc)
    else:
        e = raises(pd.ValidationError, lambda: M.from_xml(doc), doc)
        eq([x['input'] for x in e.errors()], [t.strip() for t in tails if t.strip()], doc)


def comments_everywhere(seed):
    """A document with comments and instructions anywhere is read like the one without them."""
    rng = random.Random(seed)

    class S(px.BaseXmlModel, tag='s', search_mode=SearchMode.STRICT):
        model_config = {'extra': 'forbid'}
        v: int = px.attr()
        t: Optional[str] = None
        e: Optional[str] = px.element(default=None)

    class M(px.BaseXmlModel, tag='m'):
        model_config = {'extra': 'forbid'}
        t: Optional[str] = None
        x: Optional[str] = px.element(default=None)
        s: List[S] = px.element(tag='s', default=[])
        w: Optional[str] = px.wrapped('w/v', default=None)
        d: Optional[Dict[str, int]] = px.element(default=None)

    def noise():
        return ''.join(rng.choice(['<!--c-->', '<?pi d?>', '<!---->', '']) for _ in range(rng.randint(0, 3)))
    parts = ['<m>', 'te', 'xt', '<x>', 'a', 'b', '</x>', '<s v="1">', 'q', '</s>', '<s v="2">', '<e>', 'z', '</e>', '</s>', '<w>', '<v>', 'k', '</v>', '</w>', '<d k="3">', '</d>', '</m>']
    clean = ''.join(parts)
    noisy = parts[0] + ''.join(noise() + p for p in parts[1:])
    eq(M.from_xml(noisy), M.from_xml(clean), noisy)
    eq(M.from_xml(noisy).t, 'text', noisy)


def around_root():
    class M(px.BaseXmlModel, tag='m'):
        t: str
    eq(M.from_xml('<?xml version="1.0"?><!--a--><?b c?><m>t</m><!--d--><?e f?>').t, 't', 'outside of the root')


def not_modified(seed):
    """Parsing a tree never modifies it, whatever fields read it."""
    rng = random.Random(seed)
    t = rand_tree(rng, 3)
    t.tag = 'm'

    class S(px.BaseXmlModel, tag='a', search_mode=SearchMode.UNORDERED):
        d: Optional[Dict[str, str]] = None
        t: Optional[str] = None
        r: Optional[List[EL]] = px.element(tag='b', default=None)
        model_config = {'arbitrary_types_allowed': True}

    class M(px.BaseXmlModel, tag='m', search_mode=rng.choice(MODES), nsmap={'p': 'http://p', 'q': 'http://q'}):
        model_config = {'arbitrary_types_allowed': True}
        at: Optional[str] = px.attr(name='a', default=None)
        d: Optional[Dict[str, str]] = None
        t: Optional[str] = None
        r: Optional[EL] = px.element(tag='a', ns='p', default=None)
        ss: Optional[List[S]] = None
        rs: Optional[List[EL]] = px.element(tag='b', ns='q', default=None)
        w: Optional[str] = px.wrapped('c/b', default=None)
        c: Optional[str] = px.element(tag='c', default=None)
    before = canon(t, True)
    try:
        m = M.from_xml_tree(t)
    except pd.ValidationError:
        m = None
    eq(canon(t, True), before, 'after parsing')
    if m is not None:
        raws = [r for r in [m.r, *(m.rs or []), *[x for s in m.ss or [] for x in s.r or []]] if r is not None]
        c1 = [canon(r, True) for r in raws]
        for kw in ({}, {'skip_empty': True}, {'exclude_none': True}):
            m.to_xml_tree(**kw)
            eq([canon(r, True) for r in raws], c1, 'raw values after writing')
        for r in raws:
            r.set('changed', '1')
        eq(canon(t, True), before, 'the document is independent of the raw values')


def raw(seed, mode):
    """Raw fields receive the whole element and are written back unchanged."""
    rng = random.Random(seed)
    parts = {n: rand_tree(rng, 2, False) for n in 'rsuv'}
    for n, e in parts.items():
        e.tag, e.tail = n, None

    class R(px.RootXmlModel, tag='rr'):
        model_config = {'arbitrary_types_allowed': True}
        root: EL = px.element(tag='u')

    class M(px.BaseXmlModel, tag='m', search_mode=mode):
        model_config = {'arbitrary_types_allowed': True, 'extra': 'forbid'}
        r: EL = px.element()
        s: Tuple[EL, EL] = px.element(tag='s')
        u: R
        v: List[EL] = px.wrapped('w', px.element(tag='v'))
        k: int = px.element()
    copy = lambda n: etree.fromstring(etree.tostring(parts[n]))
    doc = etree.Element('m')
    doc.append(copy('r'))
    doc.append(copy('s'))
    doc.append(copy('s'))
    etree.SubElement(doc, 'rr').append(copy('u'))
    w = etree.SubElement(doc, 'w')
    for _ in range(3):
        w.append(copy('v'))
    etree.SubElement(doc, 'k').text = '4'
    before = canon(doc)
    m = M.from_xml_tree(doc)
    want = {n: canon(copy(n)) for n in 'rsuv'}
    eq(canon(m.r), want['r'], 'field')
    eq([canon(x) for x in m.s], [want['s']] * 2, 'tuple')
    eq(canon(m.u.root), want['u'], 'root model')
    eq([canon(x) for x in m.v], [want['v']] * 3, 'list')
    eq(m.k, 4, 'what follows')
    eq(canon(m.to_xml_tree()), before, 'written back')
    eq(canon(etree.fromstring(m.to_xml())), before, 'written back as a string')
    eq(canon(m.to_xml_tree()), before, 'written twice')


def raw_missing():
    class M(px.BaseXmlModel, tag='m', search_mode=SearchMode.ORDERED):
        model_config = {'arbitrary_types_allowed': True}
        r: Optional[EL] = px.element(default=None)
        k: Optional[int] = px.element(default=None)
    r = M.from_xml('<m><x/><k>1</k></m>')
    eq((r.r, r.k), (None, 1), 'absent')
    same_xml(M(k=1).to_xml(), '<m><k>1</k></m>')
    e = etree.Element('r')
    same_xml(M(r=e, k=1).to_xml(), '<m><r/><k>1</k></m>')
    same_xml(M(r=e, k=1).to_xml(skip_empty=True), '<m><k>1</k></m>')
    e.set('a', '')
    same_xml(M(r=e).to_xml(skip_empty=True), '<m><r a=""/></m>')


def model_trip(seed):
    """A tree written by a model is the same through a string, and reading either gives the same model."""
    rng = random.Random(seed)

    class S(px.BaseXmlModel, tag='s', ns='q', nsmap={'q': 'http://q'}):
        v: str = px.attr()
        t: str = ''

    class M(px.BaseXmlModel, tag='m', ns='p', nsmap={'p': 'http://p', '': 'http://d'}):
        a: str = px.attr()
        t: str
        s: List[S]
        e: List[str] = px.element(tag='e', ns='')
    word = lambda: ''.join(rng.choice('ab é<&"\'漢') for _ in range(rng.randint(1, 8))) + 'x'
    m = M(a=word(), t=word(), s=[S(v=word(), t=word()) for _ in range(rng.randint(1, 3))], e=[word() for _ in range(rng.randint(1, 3))])
    tree = m.to_xml_tree()
    eq(canon(etree.fromstring(etree.tostring(tree))), canon(tree), 'string and tree')
    eq(canon(etree.fromstring(m.to_xml())), canon(tree), 'to_xml')
    eq(M.from_xml(m.to_xml()), m, 'read from the string')
    eq(M.from_xml_tree(tree), m, 'read from the tree')
    eq(M.from_xml(m.to_xml(encoding='unicode')), m, 'read from text')


def deep(n):
    """Nesting and width of any size are preserved."""
    r = e = etree.Element('n0')
    for i in range(n):
        e.text, e.tail = f't{i}', f'l{i}' if i else None
        e = etree.SubElement(e, f'n{i + 1}', {'i': str(i)})
    w = etree.Element('w')
    for i in range(n * 5):
        c = etree.SubElement(w, f'c{i % 7}', {'i': str(i)})
        c.tail = str(i)
    for t in (r, w):
        eq(canon(XmlElement.from_native(t).to_native()), canon(t), f'size {n}')


def cases(rng, tier):
    k = 5 if tier == 'thorough' else 1
    for f in (around_root, raw_missing):
        yield f.__name__ + '/0', f
    for i, r in enumerate([('<m>a<!--c-->b</m>', 'ab', []), ('<m><!--c-->b</m>', 'b', []), ('<m>a<?p q?>b<!--c-->d</m>', 'abd', []),
                           ('<m><!--c--></m>', '', []), ('<m>x<a/>y<!--c-->z</m>', 'x', ['yz']), ('<m><a/><!--c-->z</m>', '', ['z']),
                           ('<m><!--1--><!--2-->u<?p?>v<a>k</a><!--3-->w<!--4--><a>l</a>q<?r?>s</m>', 'uv', ['w', 'qs']),
                           ('<m>t<a>1</a><!-- --><a>2</a></m>', 't', ['', '']), ('<m> <?p?> <a>1</a> <!--c--> </m>', '  ', ['  '])]):
        yield f'parsed/{i}', lambda r=r: parsed(*r)
    for i in range(200 * k):
        s = rng.randrange(1 << 30)
        yield f'there_and_back/{i}', lambda s=s: there_and_back(s)
        yield f'not_modified/{i}', lambda s=s: not_modified(s)
        if i % 2 == 0:
            yield f'comments/{i}', lambda s=s: comments_everywhere(s)
            yield f'raw/{i}', lambda s=s: raw(s, MODES[s % 3])
            yield f'model_trip/{i}', lambda s=s: model_trip(s)
    for n in (1, 2, 5, 20, 60):
        yield f'deep/{n}', lambda n=n: deep(n)
