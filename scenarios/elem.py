"""Reference model of the element tree operations (independent of the implementation) and random histories over them.

Children carry unique ids in an attribute, so identities can be compared through the public interface only."""
from .lib import MODES, SearchMode, XmlElement, eq, true


def build(spec):
    tag, text, tail, attrib, kids = spec
    return XmlElement(tag=tag, text=text, tail=tail, attributes=attrib, elements=[build(k) for k in kids])


class Ref:
    def __init__(self, spec):
        self.tag, self.text, self.tail, attrib, kids = spec
        self.attrib = dict(attrib) if attrib is not None else None
        self.kids = [Ref(k) for k in kids]
        self.pos = 0

    def find(self, tag, mode, look_behind, step):
        k, p = self.kids, self.pos
        if look_behind and p > 0 and k[p - 1].tag == tag:
            return k[p - 1]
        if mode == SearchMode.STRICT:
            if p < len(k) and k[p].tag == tag:
                if step:
                    self.pos += 1
                return k[p]
            return None
        hits = [i for i in range(p, len(k)) if k[i].tag == tag]
        if not hits:
            return None
        i = hits[0]
        hit = k[i]
        if mode == SearchMode.ORDERED:
            if step:
                self.pos = i + 1
        else:
            k[i], k[p] = k[p], k[i]
            if step:
                self.pos = p + 1
        return hit

    def empty(self):
        return not self.text and not self.tail and not self.attrib and not self.kids


def same(el, ref, what):
    """Compare an element with the model, through reads on a copy of the real one."""
    if ref is None or el is None:
        true((ref is None) == (el is None), f'{what}: got {el!r}, expected {ref and (ref.tag, ref.attrib)}')
        return
    s = el.create_snapshot()
    eq(el.tag, ref.tag, what + ' tag')
    eq(el.is_empty(), ref.empty(), what + ' is_empty')
    eq(s.pop_text(), ref.text, what + ' text')
    eq(s.pop_tail(), ref.tail, what + ' tail')
    eq(s.pop_attributes() or {}, ref.attrib or {}, what + ' attributes')
    kids = s.pop_elements()
    eq([k.tag for k in kids], [k.tag for k in ref.kids], what + ' children')
    for i, (a, b) in enumerate(zip(kids, ref.kids)):
        same(a, b, f'{what}.{i}')


def position(el, ref, what):
    """The read position, observed by non-moving strict lookups."""
    tags = {k.tag for k in ref.kids} | {'zz'}
    at = ref.kids[ref.pos].tag if ref.pos < len(ref.kids) else None
    for t in sorted(tags):
        r = el.find_element(t, SearchMode.STRICT, look_behind=False, step_forward=False)
        true((r is not None) == (t == at), f'{what}: element at the read position is {"not " if r is None else ""}{t}, expected {at}')
        if r is not None:
            eq(r.get_attrib('id'), (ref.kids[ref.pos].attrib or {}).get('id'), what + ' element at the read position')
    if ref.pos > 0:
        t = ref.kids[ref.pos - 1].tag
        r = el.find_element(t, SearchMode.STRICT, look_behind=True, step_forward=False)
        true(r is not None, f'{what}: look-behind misses {t}')
        eq(r.get_attrib('id'), (ref.kids[ref.pos - 1].attrib or {}).get('id'), what + ' element before the read position')


def spec(rng, depth=2, n=None, ids=None, tags='abc'):
    ids = ids if ids is not None else [0]
    ids[0] += 1
    attrib = {'id': str(ids[0])}
    if rng.random() < .4:
        attrib['x'] = rng.choice(['', '1', 'v'])
    n = rng.randint(0, 5) if n is None else n
    kids = [spec(rng, depth - 1, None if depth > 1 else 0, ids, tags) for _ in range(n)] if depth > 0 else []
    return (rng.choice(tags), rng.choice([None, 't', ' ', '']), rng.choice([None, 'l', '\n']), attrib, kids)


def lookup_ops(rng, k, tags='abcd', modes=MODES):
    out = []
    for _ in range(k):
        out.append((rng.choice(['find', 'find', 'pop', 'find_nb', 'find_ns', 'path', 'foc', 'append']), rng.choice(tags),
                    rng.choice(modes), rng.choice(tags)))
    return out


def eid(el):
    return None if el is None else el.get_attrib('id')


def rid(ref):
    return None if ref is None else (ref.attrib or {}).get('id')


def run_lookups(sp, ops):
    el, ref = build(sp), Ref(sp)
    for n, (op, tag, mode, tag2) in enumerate(ops):
        what = f'step {n} {op}({tag},{mode.value})'
        if op == 'find':
            eq(eid(el.find_element(tag, mode)), rid(ref.find(tag, mode, True, True)), what)
        elif op == 'find_nb':
            eq(eid(el.find_element(tag, mode, look_behind=False)), rid(ref.find(tag, mode, False, True)), what)
        elif op == 'find_ns':
            eq(eid(el.find_element(tag, mode, look_behind=True, step_forward=False)), rid(ref.find(tag, mode, True, False)), what)
        elif op == 'pop':
            eq(eid(el.pop_element(tag, mode)), rid(ref.find(tag, mode, False, True)), what)
        elif op == 'path':
            got = el.find_sub_element([tag, tag2], mode)
            exp, cur = [], ref
            for t in (tag, tag2):
                cur = cur.find(t, mode, True, True)
                if cur is None:
                    break
                exp.append(cur)
            eq([eid(g) for g in got], [rid(r) for r in exp], what)
        elif op == 'foc':
            got = el.find_element_or_create(tag, mode, None)
            exp = ref.find(tag, mode, True, True)
            if exp is None:
                new = Ref((tag, None, None, None, []))
                ref.kids.append(new)
                ref.pos += 1
                eq(got.tag, tag, what)
                true(got.is_empty(), what + ': a created element is empty')
                got.set_attribute('id', f'n{n}')
                new.attrib = {'id': f'n{n}'}
            else:
                eq(eid(got), rid(exp), what)
        elif op == 'append':
            e = el.make_element(tag, None)
            e.set_attribute('id', f'm{n}')
            el.append_element(e)
            ref.kids.append(Ref((tag, None, None, {'id': f'm{n}'}, [])))
            ref.pos += 1
        true(0 <= ref.pos <= len(ref.kids), 'model')
        position(el, ref, 'after ' + what)
        same(el, ref, 'after ' + what)
