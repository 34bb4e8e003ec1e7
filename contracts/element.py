"""Contracts of pydantic_xml/element/element.py (xml element tree: search, consumption, snapshots)."""

M = 'pydantic_xml.element.element'
E = M + ':XmlElement.'


def register(R):
    R.cls('State', M + ':XmlElement.State', kind='heap', fields={
        'text': 'Opt[Str]', 'tail': 'Opt[Str]', 'attrib': 'Opt[Dict[Str,Str]]', 'elements': 'List[XmlElement]',
        'next_element_idx': 'Int'})
    R.cls('XmlElement', M + ':XmlElement', kind='heap', fields={
        '_tag': 'Str', '_nsmap': 'Opt[Map[Any,Str]]', '_state': 'State', '_sourceline': 'Int'},
        methods={'make_element': 'make_element', 'get_sourceline': 'get_sourceline', 'to_native': 'to_native', 'from_native': 'from_native'})
    R.alias_by_key[M + ':XmlElementReader'] = 'XmlElement'
    R.alias_by_key[M + ':XmlElementWriter'] = 'XmlElement'
    R.alias_by_key[M + ':SearchMode'] = 'SearchMode'
    R.enums['SearchMode'] = ('str', {'STRICT': 'strict', 'ORDERED': 'ordered', 'UNORDERED': 'unordered'})
    R.spec_names['SearchMode'] = M + '.SearchMode'
    R.spec_names['XmlElement'] = M + '.XmlElement'

    # ---- abstract operations of the backends (each implementation is verified against the same contract)
    R.im('make_element', {'self': 'XmlElement', 'tag': 'Str', 'nsmap': 'Opt[Map[Any,Str]]'}, 'XmlElement', recv='self',
         allocates=True, tree=True, event='make_element', ensures={
             'new element': 'fresh(result)', 'tag': 'result._tag == tag', 'unattached': 'unref(result)',
             'no text': 'result._state.text is None', 'no tail': 'result._state.tail is None',
             'no attributes': 'result._state.attrib is None', 'no children': 'len(result._state.elements) == 0',
             'cursor': 'result._state.next_element_idx == 0', 'fresh state': 'fresh(result._state) and fresh(result._state.elements)'})
    R.im('get_sourceline', {'self': 'XmlElement'}, 'Int', recv='self', tree=True,
         ensures={'line': 'result == lineof(self)'})
    R.ghosts['lineof'] = {'sig': ['V', 'Int']}
    R.im('to_native', {'self': 'XmlElement'}, 'Any', recv='self', tree=True, event='to_native')

    # ---- search vocabulary (to be evaluated in the pre-state)
    R.macro('lbhit', 's tag lb', 'lb and s.next_element_idx != 0 and s.elements[s.next_element_idx - 1].tag == tag')
    R.macro('first', 's tag j', 's.next_element_idx <= j and j < len(s.elements) and s.elements[j].tag == tag and '
            'all(s.elements[k].tag != tag for k in range(s.next_element_idx, j))')
    R.macro('missing', 's tag', 'all(s.elements[k].tag != tag for k in range(s.next_element_idx, len(s.elements)))')
    R.macro('nexthit', 's tag', 's.next_element_idx < len(s.elements) and s.elements[s.next_element_idx].tag == tag')

    P = ('C01', 'C02')
    search = {'state': 'State', 'tag': 'Str', 'look_behind': 'Bool', 'step_forward': 'Bool'}
    lb = {'look-behind hit returns the previous element and moves nothing':
          'implies(old(lbhit(state, tag, look_behind)), result is old(state.elements[state.next_element_idx - 1]) and '
          'state.next_element_idx == old(state.next_element_idx))'}
    lb['what is found is a child with the requested tag'] = 'implies(result is not None, result._tag == tag and not unref(result))'
    lb['nothing is returned only when nothing matches'] = \
        'implies(result is None, not old(lbhit(state, tag, look_behind)) and state.next_element_idx == old(state.next_element_idx) and ' \
        'list(state.elements) == old(list(state.elements)))'
    R.fn(M + ':strict_search', search, 'Opt[XmlElement]', tree=True, modifies=['state.next_element_idx'], props=P, ensures={
        **lb,
        'strict: the next element is taken iff its tag matches':
            'implies(not old(lbhit(state, tag, look_behind)) and old(nexthit(state, tag)), '
            'result is old(state.elements[state.next_element_idx]) and state.next_element_idx == old(state.next_element_idx) + (1 if step_forward else 0))',
        'strict: otherwise nothing is found and nothing moves':
            'implies(not old(lbhit(state, tag, look_behind)) and not old(nexthit(state, tag)), '
            'result is None and state.next_element_idx == old(state.next_element_idx))'})
    R.fn(M + ':ordered_search', search, 'Opt[XmlElement]', tree=True, modifies=['state.next_element_idx'], props=P, ensures={
        **lb,
        'ordered: the first matching element at or after the cursor is taken, the skipped ones stay behind':
            'all(implies(not old(lbhit(state, tag, look_behind)) and old(first(state, tag, j)), result is old(state.elements[j]) and '
            'state.next_element_idx == (j + 1 if step_forward else old(state.next_element_idx))) for j in range(old(state.next_element_idx), old(len(state.elements))))',
        'ordered: a miss finds nothing and moves nothing':
            'implies(not old(lbhit(state, tag, look_behind)) and old(missing(state, tag)), result is None and state.next_element_idx == old(state.next_element_idx))'},
        invs=['_I == state.next_element_idx + K', 'all(state.elements[j].tag != tag for j in range(state.next_element_idx, state.next_element_idx + K))',
              '_I <= len(state.elements)', '_I >= state.next_element_idx', 'all(state.elements[j].tag != tag for j in range(state.next_element_idx, _I))'])
    R.fn(M + ':unordered_search', search, 'Opt[XmlElement]', tree=True,
         modifies=['state.next_element_idx', 'state.elements[*]'], props=P, ensures={
        **lb,
        'unordered: the first matching element at or after the cursor is taken':
            'all(implies(not old(lbhit(state, tag, look_behind)) and old(first(state, tag, j)), result is old(state.elements[j]) and '
            'state.next_element_idx == old(state.next_element_idx) + (1 if step_forward else 0)) for j in range(old(state.next_element_idx), old(len(state.elements))))',
        'unordered: the taken element is exchanged with the one at the cursor, every other keeps its place':
            'len(state.elements) == old(len(state.elements)) and all(implies(not old(lbhit(state, tag, look_behind)) and old(first(state, tag, j)), '
            'state.elements[old(state.next_element_idx)] is old(state.elements[j]) and state.elements[j] is old(state.elements[state.next_element_idx]) and '
            'all(implies(k != j and k != old(state.next_element_idx), state.elements[k] is old(state.elements[k])) for k in range(0, len(state.elements)))) '
            'for j in range(old(state.next_element_idx), old(len(state.elements))))',
        'unordered: a miss finds nothing and moves nothing':
            'implies(old(missing(state, tag)) or old(lbhit(state, tag, look_behind)), state.next_element_idx == old(state.next_element_idx) and '
            'list(state.elements) == old(list(state.elements)))',
        'unordered: a miss returns nothing':
            'implies(not old(lbhit(state, tag, look_behind)) and old(missing(state, tag)), result is None)'},
        invs=['all(state.elements[j].tag != tag for j in range(state.next_element_idx, state.next_element_idx + K))'])

    # ---- lookups on an element, by search mode
    def by_mode(c, mode):
        out = {}
        for n, e in R.contracts[M + f':{mode}_search'].ensures.items():
            e = e.replace('state.', 'self._state.').replace('(state,', '(self._state,')
            out[n if n in lb else n] = f'implies(search_mode == SearchMode.{mode.upper()}, {e})'
        return out
    lookup = {}
    for m in ('strict', 'ordered', 'unordered'):
        for n, e in by_mode(None, m).items():
            lookup[f'{m}: {n}' if n in lb else n] = e
    lookup['strict and ordered lookups never reorder the children'] = \
        'implies(search_mode != SearchMode.UNORDERED, list(self._state.elements) == old(list(self._state.elements)))'
    lookup['lookups keep every child'] = 'len(self._state.elements) == old(len(self._state.elements))'
    cursor = ['self._state.next_element_idx', 'self._state.elements[*]']
    R.fn(E + 'find_element', {'self': 'XmlElement', 'tag': 'Str', 'search_mode': 'SearchMode', 'look_behind': 'Bool',
                              'step_forward': 'Bool'}, 'Opt[XmlElement]', tree=True, modifies=cursor, props=P,
         ensures=lookup, event='find_element')
    X = 'old(self._state.elements[j]._state)'.replace(')', '')
    nolb = {n: e.replace('look_behind', 'False').replace('step_forward', 'True') for n, e in lookup.items()}
    R.fn(E + 'pop_element', {'self': 'XmlElement', 'tag': 'Str', 'search_mode': 'SearchMode', 'remove': 'Bool'},
         'Opt[XmlElement]', tree=True, props=P + ('C03', 'C17'), event='pop_element',
         modifies=cursor + ['@f:text', '@f:tail', '@f:attrib', '@f:elements', '@f:next_element_idx'], let={
             'found': 'None'},
         requires=[], ensures={
             **{n: f'implies(not remove, {e})' for n, e in nolb.items()},
             **{'a plain lookup consumes nothing: ' + f: f'implies(not remove, all(implies(alive(e), e._state.{f} is old(e._state.{f})) for e in refs_("XmlElement")))'
                for f in ('text', 'tail', 'attrib', 'elements')},
             **{f'{m}: an extraction {n}': f'implies(remove and search_mode == SearchMode.{m.upper()}, all(implies('
                + ('j == old(self._state.next_element_idx) and old(nexthit(self._state, tag))' if m == 'strict' else 'old(first(self._state, tag, j))')
                + f', {e}) for j in range(old(self._state.next_element_idx), old(len(self._state.elements)))))'
                for m in ('strict', 'ordered', 'unordered') for n, e in {
                    'gives a new element of the same name': 'result is not None and fresh(result) and result._tag == tag',
                    'keeps the text': f'result._state.text == {X}.text)', 'keeps the trailing text': f'result._state.tail == {X}.tail)',
                    'keeps the attributes': f'iff(result._state.attrib is None, {X}.attrib) is None) and implies({X}.attrib) is not None, '
                                            f'dict(result._state.attrib) == old(dict(self._state.elements[j]._state.attrib)))',
                    'keeps the children in order': f'implies(old(self._state.elements[j]) is not self, len(result._state.elements) == len({X}.elements)) and all(result._state.elements[k] is {X}.elements[k]) for k in range(0, len(result._state.elements))))',
                    'starts at the first child': 'result._state.next_element_idx == 0',
                    'keeps the namespaces': 'result._nsmap is old(self._state.elements[j]._nsmap)',
                }.items()},
             'an extraction that finds nothing yields nothing': 'implies(remove and old(missing(self._state, tag)), result is None)',
         })
    R.fn(E + 'find_sub_element', {'self': 'XmlElement', 'path': 'Seq[Str]', 'search_mode': 'SearchMode'}, 'Seq[XmlElement]',
         tree=True, props=('C01', 'C02', 'C09'), event='find_sub_element', modifies=['@f:next_element_idx', '@L'],
         raises={'AssertionError': 'len(path) == 0'}, ensures={
             'every step of the path is looked up with the configured mode':
                 'calls("find_element") == 1 and call("find_element", 0).self is self and call("find_element", 0).tag == path[0] and '
                 'call("find_element", 0).search_mode == search_mode and call("find_element", 0).look_behind and call("find_element", 0).step_forward',
             'a missing step ends the path': 'implies(call("find_element", 0).ret is None, len(result) == 0)',
             'a found step starts the path': 'implies(call("find_element", 0).ret is not None, len(result) > 0 and result[0] is call("find_element", 0).ret)',
             'a one step path ends there': 'implies(call("find_element", 0).ret is not None and len(path) == 1, len(result) == 1 and calls("find_sub_element") == 0)',
             'the rest of the path is looked up below the found step':
                 'implies(call("find_element", 0).ret is not None and len(path) > 1, calls("find_sub_element") == 1 and '
                 'call("find_sub_element", 0).self is result[0] and call("find_sub_element", 0).search_mode == search_mode and '
                 'len(call("find_sub_element", 0).path) == len(path) - 1 and all(call("find_sub_element", 0).path[j] == path[j + 1] for j in range(0, len(path) - 1)))',
             'the result is the found step followed by the rest':
                 'implies(call("find_element", 0).ret is not None and len(path) > 1, len(result) == 1 + len(call("find_sub_element", 0).ret) and '
                 'all(result[j + 1] is call("find_sub_element", 0).ret[j] for j in range(0, len(result) - 1)))',
             'never longer than the path': 'len(result) <= len(path)',
             'tags follow the path': 'all(result[j]._tag == path[j] for j in range(0, len(result)))',
             'found elements are live': 'all(alive(result[j]) for j in range(0, len(result)))',
         })
    R.fn(E + 'find_element_or_create', {'self': 'XmlElement', 'tag': 'Str', 'search_mode': 'SearchMode', 'nsmap': 'Opt[Map[Any,Str]]'},
         'XmlElement', tree=True, props=('C01', 'C02', 'C09'), event='find_element_or_create', modifies=cursor, ensures={
             'looked up once with look-behind, moving the cursor':
                 'calls("find_element") == 1 and call("find_element", 0).self is self and call("find_element", 0).tag == tag and '
                 'call("find_element", 0).search_mode == search_mode and call("find_element", 0).look_behind and call("find_element", 0).step_forward',
             'an existing element is reused': 'implies(call("find_element", 0).ret is not None, result is call("find_element", 0).ret)',
             'reuse adds nothing': 'implies(call("find_element", 0).ret is not None, len(self._state.elements) == old(len(self._state.elements)))',
             'otherwise exactly one new element is appended':
                 'implies(call("find_element", 0).ret is None, fresh(result) and calls("make_element") == 1 and call("make_element", 0).nsmap == nsmap and result is call("make_element", 0).ret and '
                 'len(self._state.elements) == old(len(self._state.elements)) + 1 and self._state.elements[len(self._state.elements) - 1] is result and '
                 'all(self._state.elements[j] is old(self._state.elements[j]) for j in range(0, old(len(self._state.elements)))) and '
                 'self._state.next_element_idx == old(self._state.next_element_idx) + 1)',
             'a new element is empty': 'implies(call("find_element", 0).ret is None, result._state.text is None and result._state.tail is None '
                                       'and result._state.attrib is None and len(result._state.elements) == 0)',
             'tag': 'result._tag == tag',
         })
    S = {'self': 'XmlElement'}
    R.fn(E + 'append_element', {**S, 'element': 'XmlElement'}, tree=True, modifies=cursor, ghost_ref=['element'], event='append_element',
         props=('C02', 'C03', 'C17'), ensures={
             'appended last': 'len(self._state.elements) == old(len(self._state.elements)) + 1 and self._state.elements[len(self._state.elements) - 1] is element',
             'others keep their place': 'all(self._state.elements[j] is old(self._state.elements[j]) for j in range(0, old(len(self._state.elements))))',
             'cursor': 'self._state.next_element_idx == old(self._state.next_element_idx) + 1'})
    R.fn(E + 'step_forward', S, tree=True, modifies=['self._state.next_element_idx'], props=P, inline=True)
    R.fn(E + 'is_empty', S, 'Bool', tree=True, props=('C03', 'C10'), event='is_empty', ensures={
        'empty means no text, tail, attributes or children':
            'result == (not self._state.text and not self._state.tail and not self._state.attrib and len(self._state.elements) == 0)'})
    R.fn(E + 'set_text', {**S, 'text': 'Opt[Str]'}, tree=True, modifies=['self._state.text'], props=('C03', 'C15'), event='set_text',
         ensures={'text is set': 'self._state.text == text'})
    R.fn(E + 'set_attribute', {**S, 'name': 'Str', 'value': 'Str'}, tree=True, props=('C03', 'C15', 'C16'), event='set_attribute',
         modifies=['self._state.attrib', '@D'], ensures={
             'the attribute is set': 'self._state.attrib is not None and self._state.attrib.get(name) == value',
             'others are kept': 'all(implies(k != name, self._state.attrib.get(k) == (None if old(self._state.attrib is None) else old(self._state.attrib.get(k)))) for k in values_("Str"))',
             'other elements are untouched': 'all(implies(ref(d) != ref(old(self._state.attrib)) and ref(d) < old(allocated()), len(d) == old(len(d)) and '
                                             'all(d.get(k) == old(d.get(k)) for k in values_("Str"))) for d in refs_("Dict[Str,Str]"))',
         })
    R.fn(E + 'set_attributes', {**S, 'attributes': 'Map[Str,Str]'}, tree=True, modifies=['self._state.attrib'], props=('C03', 'C16'),
         event='set_attributes', allocates=True, ensures={
             'attributes are a fresh copy': 'self._state.attrib is not None and fresh(self._state.attrib) and dict(self._state.attrib) == dict(attributes)'})
    R.fn(E + 'get_attrib', {**S, 'name': 'Str'}, 'Opt[Str]', tree=True, props=('C03', 'C11'), event='get_attrib', ensures={
        'value or None': 'result == (self._state.attrib.get(name) if self._state.attrib is not None else None)'})
    R.fn(E + 'pop_text', S, 'Opt[Str]', tree=True, modifies=['self._state.text'], props=('C03',), event='pop_text', ensures={
        'returns the text': 'result == old(self._state.text)', 'and consumes it': 'self._state.text is None'})
    R.fn(E + 'pop_tail', S, 'Opt[Str]', tree=True, modifies=['self._state.tail'], props=('C03',), event='pop_tail', ensures={
        'returns the tail': 'result == old(self._state.tail)', 'and consumes it': 'self._state.tail is None'})
    R.fn(E + 'pop_attrib', {**S, 'name': 'Str'}, 'Opt[Str]', tree=True, modifies=['self._state.attrib{*}'], props=('C03',),
         event='pop_attrib', ensures={
             'returns the value': 'result == (old(self._state.attrib.get(name)) if self._state.attrib is not None else None)',
             'and consumes it': 'self._state.attrib is None or name not in self._state.attrib',
             'others are kept': 'self._state.attrib is None or all(implies(k != name, (k in self._state.attrib) == old(k in self._state.attrib) and '
                                'self._state.attrib.get(k) == old(self._state.attrib.get(k))) for k in values_("Str"))'})
    R.fn(E + 'pop_attributes', S, 'Opt[Dict[Str,Str]]', tree=True, modifies=['self._state.attrib'], props=('C03', 'C16'),
         event='pop_attributes', ensures={
             'returns all attributes': 'result is old(self._state.attrib)', 'and consumes them': 'self._state.attrib is None'})
    R.fn(E + 'pop_elements', S, 'Seq[XmlElement]', tree=True, modifies=['self._state.elements', 'self._state.next_element_idx'],
         props=('C02', 'C03'), event='pop_elements', ensures={
             'returns the children in order': 'len(result) == old(len(self._state.elements)) and all(result[j] is old(self._state.elements[j]) for j in range(0, len(result)))',
             'and consumes them': 'len(self._state.elements) == 0 and self._state.next_element_idx == 0',
             'nothing shared': 'fresh(self._state.elements)'})

    # ---- snapshots
    R.ghosts['snapped'] = {'sig': ['V', 'V', 'Bool']}
    R.fn(E + 'create_snapshot', S, 'XmlElement', tree=True, allocates=True, props=('C05', 'C02'), event='create_snapshot', ensures={
        'a new tree, sharing nothing with the original': 'fresh_tree(result)',
        'nobody refers to it': 'unref(result)', 'new': 'fresh(result)',
        'same kind': 'classof(result) is classof(self)',
        'tag': 'result._tag == self._tag', 'text': 'result._state.text == self._state.text', 'tail': 'result._state.tail == self._state.tail',
        'namespaces': 'iff(result._nsmap is None, self._nsmap is None) and implies(self._nsmap is not None, dict(result._nsmap) == dict(self._nsmap))',
        'attributes': 'iff(result._state.attrib is None, self._state.attrib is None) and implies(self._state.attrib is not None, dict(result._state.attrib) == dict(self._state.attrib))',
        'cursor': 'result._state.next_element_idx == self._state.next_element_idx',
        'source line': 'result._sourceline == self._sourceline',
        'every child is a snapshot of the child at the same place':
            'len(result._state.elements) == len(self._state.elements) and all(snapped(result._state.elements[j], self._state.elements[j]) for j in range(0, len(self._state.elements)))',
    }, defines={'definition of snapped': 'snapped(result, self)'},
        invs=['all(snapped(_L[j], self._state.elements[j]) for j in range(0, K))'])
    R.fn(E + 'apply_snapshot', {**S, 'snapshot': 'XmlElement'}, tree=True, props=('C05', 'C02'), event='apply_snapshot',
         requires=['snapshot is not self', 'unref(snapshot)'], ghost_dead=['snapshot'],
         modifies=['self._tag', 'self._nsmap', 'self._state.text', 'self._state.tail', 'self._state.attrib', 'self._state.elements', 'self._state.next_element_idx'],
         ensures={f: f'self.{p} is old(snapshot.{p})' for f, p in (
             ('tag', '_tag'), ('namespaces', '_nsmap'), ('text', '_state.text'), ('tail', '_state.tail'), ('attributes', '_state.attrib'),
             ('children', '_state.elements'), ('cursor', '_state.next_element_idx'))})
