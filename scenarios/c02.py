"""C02: bounded stand-in / witness search: random histories of lookups, extractions, snapshots over element trees."""
from typing import List, Optional

from .elem import Ref, build, eid, lookup_ops, position, rid, run_lookups, same, spec
from .lib import MODES, SearchMode, XmlElement, eq, px, true


def invariants(sp, ops):
    """No reference model here: only what the property says, observed from outside."""
    el = build(sp)
    orig = [k[3]['id'] for k in sp[4]]
    handed, consumed = [], []
    for op, tag, mode, _ in ops:
        r = el.find_element(tag, mode, look_behind=False) if op == 'find' else el.pop_element(tag, mode)
        if r is not None:
            true(r.tag == tag, 'tag of a hit')
            handed.append(r.get_attrib('id'))
        kids = [k.get_attrib('id') for k in el.create_snapshot().pop_elements()]
        eq(sorted(kids), sorted(orig), 'children are a permutation of the original ones')
        if r is not None and mode != SearchMode.UNORDERED:
            pass
        if r is not None:
            pos = kids.index(handed[-1]) + 1
            true(kids[:len(consumed)] == consumed, f'consumed prefix kept its place: {consumed} vs {kids}')
            consumed = kids[:pos]
    eq(len(handed), len(set(handed)), 'no child is handed out twice')
    eq([k.get_attrib('id') for k in el.pop_elements()], kids if ops else orig, 'pop_elements returns the children in order')
    eq(el.pop_elements(), (), 'children are gone afterwards')


def extraction(sp, tag, mode):
    """pop_element(remove=True): the returned element holds everything, the one left in place holds nothing."""
    el, ref = build(sp), Ref(sp)
    hit = ref.find(tag, mode, False, True)
    got = el.pop_element(tag, mode, remove=True)
    if hit is None:
        true(got is None, 'miss')
    else:
        same(got, hit, 'extracted')
        hit.text = hit.tail = hit.attrib = None
        hit.kids, hit.pos = [], 0
    same(el, ref, 'after extraction')
    true(el.pop_element('zz', mode, remove=True) is None, 'miss')
    same(el, ref, 'after a missed extraction')


def snapshots(sp, ops, ops2):
    """Work on a snapshot leaves the original alone and the other way round; applying it takes the snapshot's state over."""
    el = build(sp)
    ref = Ref(sp)
    for op, tag, mode, _ in ops:
        el.pop_element(tag, mode), ref.find(tag, mode, False, True)
    snap = el.create_snapshot()
    same(snap, ref, 'snapshot')
    position(snap, ref, 'snapshot')
    sref = Ref(sp)
    for op, tag, mode, _ in ops:
        sref.find(tag, mode, False, True)
    for op, tag, mode, _ in ops2:
        a, b = snap.pop_element(tag, mode), sref.find(tag, mode, False, True)
        eq(eid(a), rid(b), 'search on the snapshot')
        if a is not None and tag == 'a':
            a.pop_text(), a.pop_attributes(), a.pop_elements(), a.pop_tail()
            b.text = b.tail = b.attrib = None
            b.kids, b.pos = [], 0
    snap.pop_text()
    sref.text = None
    same(el, ref, 'original after work on the snapshot')
    position(el, ref, 'original after work on the snapshot')
    el.apply_snapshot(snap)
    same(el, sref, 'after applying the snapshot')
    position(el, sref, 'after applying the snapshot')


def deep_positions(sp):
    """Read positions of descendants survive a snapshot."""
    el, ref = build(sp), Ref(sp)

    def walk(e, r, d=0):
        for i, k in enumerate(list(r.kids)[:2]):
            x = e.find_element(k.tag, SearchMode.ORDERED, look_behind=False)
            y = r.find(k.tag, SearchMode.ORDERED, False, True)
            eq(eid(x), rid(y), 'walk')
            if x is not None and d < 3:
                walk(x, y, d + 1)
    walk(el, ref)
    s = el.create_snapshot()

    def cmp(e, r):
        position(e, r, 'snapshot position')
        kids = e.pop_elements()
        for a, b in zip(kids, r.kids):
            cmp(a, b)
    cmp(s, ref)


def repeated(mode, n):
    """A single field never binds two siblings and a list binds each exactly once."""
    class M(px.BaseXmlModel, tag='m', search_mode=SearchMode(mode)):
        one: Optional[str] = px.element(tag='a', default=None)
        rest: List[str] = px.element(tag='a', default=[])
    m = M.from_xml('<m>' + ''.join(f'<a>{i}</a>' for i in range(n)) + '</m>')
    got = ([m.one] if m.one is not None else []) + m.rest
    eq(got, [str(i) for i in range(n)], f'{mode}: every sibling bound once')


def refill(sp, ops):
    """After all children were taken away the element behaves as one without children."""
    el = build(sp)
    for op, tag, mode, _ in ops:
        el.pop_element(tag, mode)
    el.pop_elements()
    ref = Ref((sp[0], sp[1], sp[2], sp[3], []))
    same(el, ref, 'after taking the children away')
    position(el, ref, 'after taking the children away')
    for i, t in enumerate('ab'):
        e = el.make_element(t, None)
        e.set_attribute('id', f'm{i}')
        el.append_element(e)
        ref.kids.append(Ref((t, None, None, {'id': f'm{i}'}, [])))
        ref.pos += 1
        same(el, ref, 'refilled')
        position(el, ref, 'refilled')


def cases(rng, tier):
    big = tier == 'thorough'
    for i in range(5000 if big else 900):
        sp = spec(rng, 2, rng.randint(0, 7))
        ops = [(rng.choice(['find', 'pop']), rng.choice('abc'), rng.choice(MODES), None) for _ in range(rng.randint(0, 10))]
        yield f'invariants/{i}', lambda a=(sp, ops): invariants(*a)
    for i in range(5000 if big else 900):
        sp = spec(rng, 2, rng.randint(0, 6))
        yield f'history/{i}', lambda sp=sp, ops=lookup_ops(rng, rng.randint(1, 14)): run_lookups(sp, ops)
    for i in range(2500 if big else 400):
        sp = spec(rng, 2, rng.randint(0, 5))
        for mode in MODES:
            yield f'extraction/{i}-{mode.value}', lambda a=(sp, rng.choice('abc'), mode): extraction(*a)
    for i in range(2500 if big else 400):
        sp = spec(rng, 3, rng.randint(0, 5))
        o = [[('pop', rng.choice('abc'), rng.choice(MODES), None) for _ in range(rng.randint(0, 6))] for _ in (1, 2)]
        yield f'refill/{i}', lambda a=(sp, o[0]): refill(*a)
        yield f'snapshot/{i}', lambda a=(sp, *o): snapshots(*a)
        yield f'positions/{i}', lambda sp=sp: deep_positions(sp)
    for mode in ('strict', 'ordered', 'unordered'):
        for n in range(6):
            yield f'repeated/{mode}-{n}', lambda a=(mode, n): repeated(*a)
