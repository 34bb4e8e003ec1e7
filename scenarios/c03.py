"""C03: bounded stand-in / witness search: single reads and writes against the reference model."""
import itertools

from .elem import Ref, build, same, spec
from .lib import MODES, SearchMode, XmlElement, eq, true

TEXTS = [None, '', ' ', 't', '0']
ATTRS = [None, {}, {'a': '1'}, {'a': '', 'b': '2'}, {'{u}a': '3', 'a': '4'}]


def read_text(text, tail, attrs):
    sp = ('e', text, tail, attrs, [('k', 'x', 'y', {'id': '1'}, [])])
    el, ref = build(sp), Ref(sp)
    eq(el.pop_text(), text, 'text')
    ref.text = None
    same(el, ref, 'after reading the text')
    eq(el.pop_text(), None, 'text read again')
    eq(el.pop_tail(), tail, 'tail')
    ref.tail = None
    same(el, ref, 'after reading the tail')
    eq(el.pop_tail(), None, 'tail read again')
    eq(el.pop_attributes(), attrs, 'attributes')
    ref.attrib = None
    same(el, ref, 'after reading the attributes')
    eq(el.pop_attributes(), None, 'attributes read again')
    ks = el.pop_elements()
    eq([k.tag for k in ks], ['k'], 'children')
    same(ks[0], ref.kids[0], 'child')
    ref.kids = []
    same(el, ref, 'after reading the children')
    eq(el.pop_elements(), (), 'children read again')
    true(el.is_empty(), 'empty when all is consumed')


def read_attr(attrs, name):
    sp = ('e', 't', 'l', attrs, [])
    el, ref = build(sp), Ref(sp)
    eq(el.get_attrib(name), (attrs or {}).get(name), 'get')
    same(el, ref, 'after get')
    eq(el.pop_attrib(name), (attrs or {}).get(name), 'pop')
    if ref.attrib:
        ref.attrib.pop(name, None)
    same(el, ref, 'after pop')
    eq(el.pop_attrib(name), None, 'pop again')
    eq(el.get_attrib(name), None, 'get after pop')


def write(attrs, ops):
    src = {'s': '1', 'a': '2'}
    sp = ('e', 't', 'l', attrs, [('k', None, None, {'id': '1'}, [])])
    el, ref = build(sp), Ref(sp)
    for op, n, v in ops:
        if op == 'text':
            el.set_text(v)
            ref.text = v
        elif op == 'attr':
            el.set_attribute(n, v)
            ref.attrib = dict(ref.attrib or {}, **{n: v})
        elif op == 'attrs':
            el.set_attributes(src)
            ref.attrib = dict(src)
        elif op == 'own':
            src['s'] = v
            el.get_attrib('s')
        elif op == 'child':
            c = el.make_element(n, None)
            el.append_element(c)
            ref.kids.append(Ref((n, None, None, None, [])))
        elif op == 'pop':
            eq(el.pop_attrib(n), (ref.attrib or {}).get(n), 'pop')
            (ref.attrib or {}).pop(n, None)
        same(el, ref, f'after {op} {n} {v}')
    eq(src.get('a'), '2', 'the dict given to set_attributes is not modified')


def emptiness(text, tail, attrs, kids):
    el = build(('e', text, tail, attrs, [('k', None, None, None, [])] * kids))
    eq(el.is_empty(), not text and not tail and not attrs and not kids, f'is_empty {text!r} {tail!r} {attrs!r} {kids}')


def independent(attrs):
    """The element keeps its own copy of what it was built from."""
    a = dict(attrs)
    el = XmlElement(tag='e', attributes=a)
    a['late'] = '1'
    eq(el.get_attrib('late'), None, 'constructor copies')
    el.set_attribute('w', '1')
    true('w' not in a, 'caller dict untouched')
    other = XmlElement(tag='o')
    other.set_attribute('q', '1')
    eq(XmlElement(tag='p').get_attrib('q'), None, 'nothing shared between elements')


def cases(rng, tier):
    for t, l, a in itertools.product(TEXTS, TEXTS, ATTRS):
        yield f'read/{t!r}-{l!r}-{a!r}', lambda x=(t, l, a): read_text(*x)
        for k in (0, 1):
            yield f'empty/{t!r}-{l!r}-{a!r}-{k}', lambda x=(t, l, a, k): emptiness(*x)
    for a in ATTRS:
        for n in ('a', 'b', '{u}a', 'zz', ''):
            yield f'attr/{a!r}-{n}', lambda x=(a, n): read_attr(*x)
        yield f'independent/{a!r}', lambda x=a: independent(x or {})
    for i in range(1500 if tier == 'thorough' else 300):
        ops = [(rng.choice(['text', 'attr', 'attr', 'attrs', 'own', 'child', 'pop']), rng.choice('abs'), rng.choice(['', '1', 'x']))
               for _ in range(rng.randint(1, 8))]
        yield f'write/{i}', lambda x=(rng.choice(ATTRS), ops): write(*x)
