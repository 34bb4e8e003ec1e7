"""Contracts of the serializers (pydantic_xml/serializers): primitives, mappings."""
from .element import M as ME

SER = 'pydantic_xml.serializers.serializer'
F = 'pydantic_xml.serializers.factories.'
P = F + 'primitive:'
MP = F + 'mapping:'
U = 'pydantic_xml.utils'
EU = 'pydantic_xml.element.utils'
NIL = "'{http://www.w3.org/2001/XMLSchema-instance}nil'"

WPAR = {'element': 'XmlElement', 'value': 'Any', 'encoded': 'Any', 'skip_empty': 'Bool', 'exclude_none': 'Bool', 'exclude_unset': 'Bool'}
RPAR = {'element': 'Opt[XmlElement]', 'context': 'Any', 'sourcemap': 'Dict[Any,Int]', 'loc': 'Seq[Any]', 'empty_as_string': 'Bool'}


def ser(alias, **kw):
    return {'self': alias, **WPAR, **kw}


def de(alias, **kw):
    return {'self': alias, **RPAR, **kw}


def register(R):
    R.reading |= {'is_empty', 'create_snapshot', 'get_sourceline', 'get_attrib', 'is_element_nill?'}
    R.cls('Serializer', SER + ':Serializer', methods={'serialize': 'ser_serialize', 'deserialize': 'ser_deserialize'})
    R.cls('PText', P + 'TextSerializer', fields={'_computed': 'Bool', '_nillable': 'Opt[Bool]'}, family='Serializer')
    R.cls('PAttr', P + 'AttributeSerializer', fields={'_computed': 'Bool', '_attr_name': 'Str'}, family='Serializer')
    R.cls('PElem', P + 'ElementSerializer', fields={'_nsmap': 'Opt[Map[Any,Str]]', '_search_mode': 'SearchMode', '_element_name': 'Str'},
          parent='PText')
    R.schema['PElem']['family'] = 'Serializer'

    # ---- values as text
    R.fn(SER + ':encode_primitive', {'value': 'Any'}, 'Str', pure=True, props=('C15', 'C16'), ensures={
        'missing is empty': "implies(value is None, result == '')",
        'booleans are lower case': 'implies(isinstance(value, bool), result == str(value).lower())',
        'anything else is its string form': 'implies(value is not None and not isinstance(value, bool), result == str(value))'})
    R.spec_calls['text_of'] = SER + ':encode_primitive'
    R.fn(EU + ':is_element_nill', {'element': 'XmlElement'}, 'Bool', tree=True, event='is_element_nill', modifies=['element._state.attrib{*}'],
         props=('C11', 'C03'), ensures={
             'marked means the nil attribute is true': f"result == (old(element._state.attrib is not None and element._state.attrib.get({NIL}) == 'true'))",
             'the marker is consumed': f'element._state.attrib is None or {NIL} not in element._state.attrib',
             'other attributes are kept': f'element._state.attrib is None or all(implies(k != {NIL}, (k in element._state.attrib) == old(k in element._state.attrib) and '
                                          'element._state.attrib.get(k) == old(element._state.attrib.get(k))) for k in values_("Str"))'})
    R.fn(EU + ':make_element_nill', {'element': 'XmlElement'}, tree=True, event='make_element_nill', modifies=['element._state.attrib', '@D'],
         props=('C11', 'C03'), ensures={
             'marked': f"element._state.attrib is not None and element._state.attrib.get({NIL}) == 'true'",
             'other attributes are kept': f'all(implies(k != {NIL}, element._state.attrib.get(k) == (None if old(element._state.attrib is None) else old(element._state.attrib.get(k)))) for k in values_("Str"))',
             'other elements are untouched': 'all(implies(ref(d) != ref(old(element._state.attrib)) and ref(d) < old(allocated()), len(d) == old(len(d)) and '
                                             'all(d.get(k) == old(d.get(k)) for k in values_("Str"))) for d in refs_("Dict[Str,Str]"))'})

    # ---- primitives
    skip = 'value is None and (skip_empty or exclude_none)'
    W = ('C10', 'C11', 'C15')
    R.fn(P + 'TextSerializer.serialize', ser('PText'), 'Opt[XmlElement]', tree=True, props=W, event='text_serialize',
         modifies=['element._state.text', 'element._state.attrib', '@D'], ensures={
             'returns the element': 'result is element',
             'a dropped missing value writes nothing':
                 f'implies({skip}, element._state.text is old(element._state.text) and element._state.attrib is old(element._state.attrib) '
                 'and calls("set_text") == 0 and calls("make_element_nill") == 0)',
             'a dropped value leaves the text': f'implies({skip}, element._state.text is old(element._state.text))',
             'a dropped value leaves the attributes': f'implies({skip}, element._state.attrib is old(element._state.attrib) and implies(element._state.attrib is not None, dict(element._state.attrib) == old(dict(element._state.attrib))))',
             'otherwise the text is the canonical text of the value': f'implies(not ({skip}), element._state.text == text_of(encoded))',
             'a missing nillable value is marked nil':
                 f"implies(not ({skip}) and self._nillable and value is None, element._state.attrib is not None and element._state.attrib.get({NIL}) == 'true')",
             'nothing else is marked': 'implies(not (self._nillable and value is None), element._state.attrib is old(element._state.attrib) and '
                                       'implies(element._state.attrib is not None, dict(element._state.attrib) == old(dict(element._state.attrib))))',
             'other attributes are kept': f'all(implies(k != {NIL}, (None if element._state.attrib is None else element._state.attrib.get(k)) == '
                                          '(None if old(element._state.attrib is None) else old(element._state.attrib.get(k)))) for k in values_("Str"))',
         })
    RD = ('C11', 'C15', 'C18')
    R.fn(P + 'TextSerializer.deserialize', de('PText'), 'Opt[Str]', tree=True, props=RD, event='text_deserialize',
         modifies=['element._state.text', 'element._state.attrib{*}'], ensures={
             'computed fields read nothing': 'implies(self._computed or element is None, result is None and calls("pop_text") == 0 and calls("is_element_nill") == 0)',
             'a nillable element marked nil is missing':
                 f"implies(not self._computed and element is not None and self._nillable and old(element._state.attrib is not None and element._state.attrib.get({NIL}) == 'true'), result is None and element._state.text is old(element._state.text))",
             'otherwise the text is read, an empty one as missing or as the empty string':
                 f"implies(not self._computed and element is not None and not (self._nillable and old(element._state.attrib is not None and element._state.attrib.get({NIL}) == 'true')), "
                 "result == (old(element._state.text) or ('' if empty_as_string else None)) and element._state.text is None)",
             'the marker is only looked at when nillable': 'implies(not self._nillable, calls("is_element_nill") == 0)',
         })
    R.fn(P + 'AttributeSerializer.serialize', ser('PAttr'), 'Opt[XmlElement]', tree=True, props=('C10', 'C15'),
         modifies=['element._state.attrib', '@D'], ensures={
             'returns the element': 'result is element',
             'a dropped missing value writes nothing': f'implies({skip}, calls("set_attribute") == 0 and element._state.attrib is old(element._state.attrib))',
             'otherwise exactly the named attribute is set to the canonical text':
                 f'implies(not ({skip}), calls("set_attribute") == 1 and call("set_attribute", 0).self is element and '
                 'call("set_attribute", 0).name == self._attr_name and call("set_attribute", 0).value == text_of(encoded))',
             'the attribute has the value': f'implies(not ({skip}), element._state.attrib is not None and element._state.attrib.get(self._attr_name) == text_of(encoded))',
         })
    R.fn(P + 'AttributeSerializer.deserialize', de('PAttr'), 'Opt[Str]', tree=True, props=('C15', 'C18'),
         modifies=['element._state.attrib{*}'], ensures={
             'computed fields read nothing': 'implies(self._computed or element is None, result is None and calls("pop_attrib") == 0)',
             'otherwise the named attribute is read and consumed':
                 'implies(not self._computed and element is not None, calls("pop_attrib") == 1 and call("pop_attrib", 0).self is element and '
                 'call("pop_attrib", 0).name == self._attr_name and result == call("pop_attrib", 0).ret)'})
    CL = dict(light=True, modifies='tree')
    R.fn(P + 'ElementSerializer.serialize', ser('PElem'), 'Opt[XmlElement]', props=W + ('C12',), **CL, ensures={
        'a dropped missing value writes nothing': f'implies({skip}, result is element and only())',
        'otherwise one element with the resolved name and namespaces is made and written as text':
            f'implies(not ({skip}), calls("make_element") == 1 and call("make_element", 0).self is element and call("make_element", 0).tag == self._element_name and '
            'call("make_element", 0).nsmap == self._nsmap and calls("text_serialize") == 1 and call("text_serialize", 0).element is call("make_element", 0).ret and '
            'call("text_serialize", 0).self is self and call("text_serialize", 0).value is value and call("text_serialize", 0).encoded is encoded and '
            'call("text_serialize", 0).exclude_none == exclude_none and call("text_serialize", 0).skip_empty == skip_empty)',
        'an element that stays empty is skipped on request':
            f"implies(not ({skip}) and skip_empty and text_of(encoded) == '' and not (self._nillable and value is None), "
            'result is None and calls("append_element") == 0)',
        'otherwise it becomes the last child':
            f"implies(not ({skip}) and not (skip_empty and text_of(encoded) == '' and not (self._nillable and value is None)), "
            'result is call("make_element", 0).ret and calls("append_element") == 1 and call("append_element", 0).self is element and call("append_element", 0).element is result)',
        'nothing else is written': 'only("make_element", "text_serialize", "append_element")',
    })
    R.fn(P + 'ElementSerializer.deserialize', de('PElem'), 'Opt[Str]', props=RD + ('C12', 'C14'), **CL, ensures={
        'computed fields read nothing': 'implies(self._computed or element is None, result is None and only())',
        'the element is looked up once by name and mode':
            'implies(not self._computed and element is not None, calls("pop_element") == 1 and call("pop_element", 0).self is element and '
            'call("pop_element", 0).tag == self._element_name and call("pop_element", 0).search_mode == self._search_mode and not call("pop_element", 0).remove)',
        'a missing element yields nothing': 'implies(not self._computed and element is not None and call("pop_element", 0).ret is None, result is None and only("pop_element"))',
        'a found one is read as text':
            'implies(not self._computed and element is not None and call("pop_element", 0).ret is not None, calls("text_deserialize") == 1 and '
            'call("text_deserialize", 0).element is call("pop_element", 0).ret and call("text_deserialize", 0).self is self and '
            'call("text_deserialize", 0).empty_as_string == empty_as_string and result == call("text_deserialize", 0).ret)',
        'its line is recorded':
            'implies(not self._computed and element is not None and call("pop_element", 0).ret is not None, sourcemap.get(loc) == lineof(call("pop_element", 0).ret))',
        'nothing else is consumed': 'only("pop_element", "text_deserialize")',
    })

    # ---- abstract interface: every serializer class is verified against what its callers rely on
    R.cls('VErr', None, fields={'title': 'Str', 'lines': 'Seq[LineErr]', 'hidden': 'Bool', 'errs': 'Seq[ErrD]'}, methods={'errors': 'verr_errors'})
    R.exc_alias['ValidationError'] = 'VErr'
    R.exc_types['VErr'] = 'ValidationError'
    R.im('ser_serialize', {'self': 'Serializer', **WPAR}, 'Opt[XmlElement]', recv='self', event='ser_serialize', modifies='tree', tree_arg='element',
         defaults={'skip_empty': False, 'exclude_none': False, 'exclude_unset': False})
    R.im('ser_deserialize', {'self': 'Serializer', **RPAR}, 'Any', recv='self', event='ser_deserialize', modifies='tree', tree_arg='element',
         raises={'ValidationError': None})
    flags = ' and '.join(f'call("ser_serialize", {{j}}).{f} == {f}' for f in ('skip_empty', 'exclude_none', 'exclude_unset'))
    R.macro('wcall', 'j ser el val enc', 'call("ser_serialize", j).self is ser and call("ser_serialize", j).element is el and '
            'call("ser_serialize", j).value is val and call("ser_serialize", j).encoded is enc and ' + flags.format(j='j'))
    R.macro('rcall', 'j ser el loc_', 'call("ser_deserialize", j).self is ser and call("ser_deserialize", j).element is el and '
            'call("ser_deserialize", j).context is context and call("ser_deserialize", j).sourcemap is sourcemap and '
            'call("ser_deserialize", j).loc == loc_ and call("ser_deserialize", j).empty_as_string == empty_as_string')

    # ---- wrapper
    WR = F + 'wrapper:ElementPathSerializer'
    R.cls('Wrap', WR, fields={'_path': 'Seq[Str]', '_nsmap': 'Opt[Map[Any,Str]]', '_search_mode': 'SearchMode', '_computed': 'Bool',
                              '_inner_serializer': 'Serializer'}, family='Serializer')
    steps = ('all(call("find_element_or_create", j).tag == self._path[j] and call("find_element_or_create", j).search_mode == self._search_mode and '
             'call("find_element_or_create", j).nsmap == self._nsmap and '
             'call("find_element_or_create", j).self is (element if j == 0 else call("find_element_or_create", j - 1).ret) for j in range(0, {n}))')
    drop = 'value is None or (skip_empty and is_sized(value) and any_len(value) == 0)'
    R.fn(WR + '.serialize', ser('Wrap'), 'Opt[XmlElement]', props=('C09', 'C10', 'C12'), **CL,
         requires=['len(self._path) > 0'], ensures={
             'missing or dropped empty values write nothing': f'implies({drop}, result is element and only())',
             'every step of the path is found or created, in order, below the previous one':
                 f'implies(not ({drop}), calls("find_element_or_create") == len(self._path) and {steps.format(n="len(self._path)")})',
             'the value is written once, at the end of the path, with the given flags':
                 f'implies(not ({drop}), calls("ser_serialize") == 1 and '
                 'wcall(0, self._inner_serializer, call("find_element_or_create", len(self._path) - 1).ret, value, encoded))',
             'nothing else is written': 'only("find_element_or_create", "ser_serialize")'},
         invs=['calls("find_element_or_create") == K', steps.format(n='K'), '_V is (element if K == 0 else call("find_element_or_create", K - 1).ret)'])
    R.fn(WR + '.deserialize', de('Wrap'), 'Any', props=('C09', 'C12', 'C14', 'C18', 'C19'), **CL, requires=['len(self._path) > 0'],
         raises={'ValidationError': None}, ensures={
             'computed fields read nothing': 'implies(self._computed or element is None, result is None and only())',
             'the whole path is looked up': 'implies(not self._computed and element is not None, calls("find_sub_element") == 1 and '
             'call("find_sub_element", 0).self is element and call("find_sub_element", 0).path == self._path and call("find_sub_element", 0).search_mode == self._search_mode)',
             'a partial path yields nothing': 'implies(not self._computed and element is not None and len(call("find_sub_element", 0).ret) != len(self._path), '
             'result is None and only("find_sub_element"))',
             'a complete path is read once at its end': 'implies(not self._computed and element is not None and len(call("find_sub_element", 0).ret) == len(self._path), '
             'calls("ser_deserialize") == 1 and rcall(0, self._inner_serializer, call("find_sub_element", 0).ret[len(self._path) - 1], loc) and result is call("ser_deserialize", 0).ret)',
             'nothing else is consumed': 'only("find_sub_element", "ser_deserialize")'},
         at={'ser_deserialize': {'the line of the element is recorded before it is read': 'sourcemap.get(loc) == lineof(arg.element)'}},
         exc_ensures={'ValidationError': {'errors come from the wrapped value': 'calls("ser_deserialize") == 1 and exc is call("ser_deserialize", 0).exc and '
                                          'rcall(0, self._inner_serializer, call("find_sub_element", 0).ret[len(self._path) - 1], loc)'}})
    R.ghosts['is_sized'] = {'sig': ['V', 'Bool'], 'fn': 'is_sized'}
    R.ghosts['any_len'] = {'sig': ['V', 'Int'], 'fn': 'anylen'}

    # ---- collections
    HO = F + 'homogeneous:ElementSerializer'
    R.cls('Homo', HO, fields={'_model_name': 'Str', '_computed': 'Bool', '_inner_serializer': 'Serializer', '_hide_input_in_errors': 'Bool'}, family='Serializer')
    sq = {'value': 'Opt[Seq[Any]]', 'encoded': 'Opt[Seq[Any]]'}
    same = 'implies(value is not None, encoded is not None and len(encoded) == len(value))'
    R.fn(HO + '.serialize', ser('Homo', **sq), 'Opt[XmlElement]', props=('C07', 'C10'), **CL, requires=[same],
         ghostdef=['nn(value, 0) == 0', 'implies(value is not None, all(nn(value, j + 1) == nn(value, j) + (0 if value[j] is None else 1) for j in range(0, len(value))))'], ensures={
        'a missing collection writes nothing': 'implies(value is None, result is element and only())',
        'returns the element': 'result is element',
        'only items are written': 'only("ser_serialize")',
        'without skipping, each item is written once, in order':
            'implies(value is not None and not skip_empty, calls("ser_serialize") == len(value) and '
            'all(wcall(j, self._inner_serializer, element, value[j], encoded[j]) for j in range(0, len(value))))',
        'skipping drops nothing but missing items':
            'implies(value is not None and skip_empty, all(implies(value[j] is not None, 0 <= nn(value, j) and nn(value, j) < calls("ser_serialize") and '
            'wcall(nn(value, j), self._inner_serializer, element, value[j], encoded[j])) for j in range(0, len(value))))',
        'skipping writes as many items as are present': 'implies(value is not None and skip_empty, calls("ser_serialize") == nn(value, len(value)))'},
        invs=['implies(not skip_empty, calls("ser_serialize") == K and all(wcall(j, self._inner_serializer, element, value[j], encoded[j]) for j in range(0, K)))',
              'implies(skip_empty, calls("ser_serialize") == nn(value, K))',
              'implies(skip_empty, all(implies(value[j] is not None, 0 <= nn(value, j) and nn(value, j) < nn(value, K) and '
              'wcall(nn(value, j), self._inner_serializer, element, value[j], encoded[j])) for j in range(0, K)))'])
    R.ghosts['nn'] = {'sig': ['V', 'Int', 'Int']}     # number of present items among the first j

    errs = {'every failing item is reported under its index':
            'all(implies(call("ser_deserialize", j).raised, j in arg.errors_map and arg.errors_map[j] is call("ser_deserialize", j).exc) for j in range(0, calls("ser_deserialize")))',
            'nothing else is reported':
            'all(implies(k in arg.errors_map, isinstance(k, int) and 0 <= int(k) and int(k) < calls("ser_deserialize") and call("ser_deserialize", int(k)).raised) for k in values_())',
            'title and hiding': 'arg.title == self._model_name and arg.hide_input == self._hide_input_in_errors'}
    einvs = ['all(implies(call("ser_deserialize", j).raised, j in _D and _D[j] is call("ser_deserialize", j).exc) for j in range(0, K))',
             'all(implies(k in _D, isinstance(k, int) and 0 <= int(k) and int(k) < K and call("ser_deserialize", int(k)).raised) for k in values_())',
             'implies(len(_D) == 0, len(_L) == K and all(_L[j] is call("ser_deserialize", j).ret and not call("ser_deserialize", j).raised for j in range(0, K)))']
    items = 'all(rcall(j, {s}, element, loc + (j,)) for j in range(0, {n}))'
    R.fn(HO + '.deserialize', de('Homo'), 'Opt[List[Any]]', props=('C07', 'C14', 'C18', 'C19'), **CL, raises={'ValidationError': None}, ensures={
        'computed fields read nothing': 'implies(self._computed or element is None, result is None and only())',
        'items are read one after the other by the item reader': items.format(s='self._inner_serializer', n='calls("ser_deserialize")'),
        'reading ends at the first item that yields nothing':
            'implies(not self._computed and element is not None, calls("ser_deserialize") >= 1 and call("ser_deserialize", calls("ser_deserialize") - 1).ret is None and '
            'all(call("ser_deserialize", j).ret is not None for j in range(0, calls("ser_deserialize") - 1)))',
        'no item failed': 'all(not call("ser_deserialize", j).raised for j in range(0, calls("ser_deserialize")))',
        'the values are returned in order': 'implies(result is not None, len(result) == calls("ser_deserialize") - 1 and all(result[j] is call("ser_deserialize", j).ret for j in range(0, len(result))))',
        'nothing read is nothing': 'implies(result is None and not self._computed and element is not None, calls("ser_deserialize") == 1)',
        'an empty list is never returned': 'implies(result is not None, len(result) > 0)',
        'nothing else is consumed': 'only("ser_deserialize")'},
        at={'into_validation_error': {**errs, 'reading ends at the first item that yields nothing':
            'calls("ser_deserialize") >= 1 and not call("ser_deserialize", calls("ser_deserialize") - 1).raised and call("ser_deserialize", calls("ser_deserialize") - 1).ret is None and '
            'all(call("ser_deserialize", j).raised or call("ser_deserialize", j).ret is not None for j in range(0, calls("ser_deserialize") - 1))',
            'items are read one after the other': items.format(s='self._inner_serializer', n='calls("ser_deserialize")'),
            'raised only if an item failed': 'any(call("ser_deserialize", j).raised for j in range(0, calls("ser_deserialize")))'}},
        exc_ensures={'ValidationError': {'the collected errors are raised': 'calls("into_validation_error") == 1 and exc is call("into_validation_error", 0).ret'}},
        invs=einvs + ['calls("ser_deserialize") == K', items.format(s='self._inner_serializer', n='K'),
                      'all(call("ser_deserialize", j).raised or call("ser_deserialize", j).ret is not None for j in range(0, K))'])

    HE = F + 'heterogeneous:ElementSerializer'
    R.cls('Hetero', HE, fields={'_model_name': 'Str', '_computed': 'Bool', '_inner_serializers': 'Seq[Serializer]', '_hide_input_in_errors': 'Bool'}, family='Serializer')
    R.exc_bases.setdefault('SerializationError', 'Exception')
    wrote = 'all(wcall(j, self._inner_serializers[j], element, value[j], encoded[j]) for j in range(0, {n}))'
    R.fn(HE + '.serialize', ser('Hetero', **sq), 'Opt[XmlElement]', event='het_serialize', props=('C08', 'C10'), **CL, requires=[same],
         raises={'SerializationError': 'value is not None and not (skip_empty and len(value) == 0) and len(value) != len(self._inner_serializers)'}, ensures={
             'a missing tuple writes nothing': 'implies(value is None, only())',
             'each component is written once, in order, by its own type':
                 'implies(value is not None and not (skip_empty and len(value) == 0), calls("ser_serialize") == len(self._inner_serializers) and ' + wrote.format(n='len(value)') + ')',
             'returns the element': 'result is element', 'nothing else is written': 'only("ser_serialize")'},
         invs=[wrote.format(n='K')])
    R.fn(HE + '.deserialize', de('Hetero'), 'Opt[List[Any]]', props=('C08', 'C14', 'C18', 'C19'), event='het_deserialize', **CL, raises={'ValidationError': None}, ensures={
        'computed fields read nothing': 'implies(self._computed or element is None, result is None and only())',
        'each component is read once, in order, by its own type':
            'implies(not self._computed and element is not None, calls("ser_deserialize") == len(self._inner_serializers) and ' +
            items.format(s='self._inner_serializers[j]', n='len(self._inner_serializers)') + ')',
        'no component failed': 'all(not call("ser_deserialize", j).raised for j in range(0, calls("ser_deserialize")))',
        'one entry per position': 'implies(result is not None, len(result) == len(self._inner_serializers) and all(result[j] is call("ser_deserialize", j).ret for j in range(0, len(result))))',
        'absent exactly when all components are': 'implies(not self._computed and element is not None, iff(result is None, all(call("ser_deserialize", j).ret is None for j in range(0, calls("ser_deserialize")))))',
        'nothing else is consumed': 'only("ser_deserialize")'},
        at={'into_validation_error': {**errs, 'all components are read': 'calls("ser_deserialize") == len(self._inner_serializers) and ' +
                                      items.format(s='self._inner_serializers[j]', n='len(self._inner_serializers)')}},
        exc_ensures={'ValidationError': {'the collected errors are raised': 'calls("into_validation_error") == 1 and exc is call("into_validation_error", 0).ret'}},
        invs=einvs + [items.format(s='self._inner_serializers[j]', n='K'), 'calls("ser_deserialize") == K', 'all(call("ser_deserialize", j).ret is None for j in range(0, K))'])

    NT = F + 'named_tuple:ElementSerializer'
    R.cls('NTuple', NT, fields={'_inner_serializer': 'Hetero'}, family='Serializer')
    R.fn(NT + '.serialize', ser('NTuple', **sq), 'Opt[XmlElement]', props=('C08', 'C10'), **CL, requires=[same], raises={'SerializationError': None}, ensures={
        'written as the tuple of its components': 'calls("het_serialize") == 1 and call("het_serialize", 0).self is self._inner_serializer and '
        'call("het_serialize", 0).element is element and call("het_serialize", 0).value is value and call("het_serialize", 0).encoded is encoded and ' +
        flags.format(j='0').replace('ser_serialize', 'het_serialize') + ' and result is call("het_serialize", 0).ret and only("het_serialize")'})
    rargs = ' and '.join(f'call("{{op}}", {{j}}).{n} {o} {n}' for n, o in (('context', 'is'), ('sourcemap', 'is'), ('loc', '=='), ('empty_as_string', '==')))
    R.fn(NT + '.deserialize', de('NTuple'), 'Any', props=('C08', 'C14', 'C19'), **CL, raises={'ValidationError': None}, ensures={
        'read as the tuple of its components': 'calls("het_deserialize") == 1 and call("het_deserialize", 0).self is self._inner_serializer and '
        'call("het_deserialize", 0).element is element and ' + rargs.format(op='het_deserialize', j=0) + ' and result is call("het_deserialize", 0).ret and only("het_deserialize")'})

    # ---- models as seen by other serializers
    R.cls('ModelCls', None, fields={'__name__': 'Str', '__xml_serializer__': 'Opt[Serializer]', '__xml_skip_empty__': 'Opt[Bool]',
                                    '__xml_field_serializers__': 'Map[Str,WHook]', '__xml_field_validators__': 'Map[Str,RHook]',
                                    '__xml_tag__': 'Opt[Str]', '__xml_ns__': 'Opt[Str]', '__xml_nsmap__': 'Opt[Map[Any,Str]]',
                                    'model_config': 'MConfig', 'model_fields': 'Map[Str,FInfo]', '__pydantic_decorators__': 'Decos'}, methods={'model_validate': 'model_validate'})
    R.cls('MConfig', None, fields={'[extra]': 'Str', '[hide_input_in_errors]': 'Bool'})
    R.cls('WHook', None, call='whook')
    R.cls('RHook', None, call='rhook')
    MO = F + 'model:'
    R.cls('MProxy', MO + 'ModelProxySerializer', fields={
        '_model': 'ModelCls', '_element_name': 'Str', '_nsmap': 'Opt[Map[Any,Str]]', '_search_mode': 'SearchMode', '_computed': 'Bool',
        '_nillable': 'Opt[Bool]'}, family='Serializer', methods={'serialize': 'ser_serialize', 'deserialize': 'ser_deserialize'})

    UP = F + 'union:PrimitiveTypeSerializer'
    R.cls('UPrim', UP, fields={'_computed': 'Bool', '_inner_serializer': 'Serializer'}, family='Serializer')
    R.fn(UP + '.serialize', ser('UPrim'), 'Opt[XmlElement]', props=('C05', 'C10', 'C15'), **CL, ensures={
        'written once by the common writer': 'calls("ser_serialize") == 1 and wcall(0, self._inner_serializer, element, value, encoded) and '
        'result is call("ser_serialize", 0).ret and only("ser_serialize")'})
    R.fn(UP + '.deserialize', de('UPrim'), 'Any', props=('C05', 'C15', 'C18', 'C19'), **CL, raises={'ValidationError': None}, ensures={
        'computed fields read nothing': 'implies(self._computed, result is None and only())',
        'read once by the common reader': 'implies(not self._computed, calls("ser_deserialize") == 1 and rcall(0, self._inner_serializer, element, loc) and '
        'result is call("ser_deserialize", 0).ret and only("ser_deserialize"))'})

    UM = F + 'union:ModelSerializer'
    R.cls('UModel', UM, fields={'_model_name': 'Str', '_computed': 'Bool', '_inner_serializers': 'Seq[MProxy]', '_hide_input_in_errors': 'Bool'}, family='Serializer')
    ISTY = '(self._inner_serializers[{j}]._model is type(value))'
    ISIN = 'isinstance(value, self._inner_serializers[{j}]._model)'
    R.fn(UM + '.serialize', ser('UModel'), 'Opt[XmlElement]', props=('C05', 'C10'), **CL, ensures={
        'at most one alternative writes': 'calls("ser_serialize") <= 1 and only("ser_serialize")',
        'written by the first alternative of exactly the type of the value':
            f'all(implies({ISTY.format(j="j")} and all(not {ISTY.format(j="i")} for i in range(0, j)), calls("ser_serialize") == 1 and '
            'wcall(0, self._inner_serializers[j], element, value, encoded) and result is call("ser_serialize", 0).ret) for j in range(0, len(self._inner_serializers)))',
        'else by the first alternative the value is an instance of':
            f'all(implies(all(not {ISTY.format(j="i")} for i in range(0, len(self._inner_serializers))) and {ISIN.format(j="j")} and all(not {ISIN.format(j="i")} for i in range(0, j)), '
            'calls("ser_serialize") == 1 and wcall(0, self._inner_serializers[j], element, value, encoded) and result is call("ser_serialize", 0).ret) for j in range(0, len(self._inner_serializers)))',
        'else nothing is written':
            f'implies(all(not {ISTY.format(j="i")} and not {ISIN.format(j="i")} for i in range(0, len(self._inner_serializers))), result is None and calls("ser_serialize") == 0)'},
        invs=[f'all(not {ISTY.format(j="j")} for j in range(0, K))', f'all(not {ISIN.format(j="j")} for j in range(0, K))', 'calls("ser_serialize") == 0',
              f'all(not {ISTY.format(j="j")} for j in range(0, len(self._inner_serializers)))'])
    UC = 'calls("ser_deserialize")'
    tried = ('all(rcall(j, self._inner_serializers[j], call("create_snapshot", j).ret, loc) and call("create_snapshot", j).self is element for j in range(0, {n}))')
    none = 'all(call("ser_deserialize", j).raised or call("ser_deserialize", j).ret is None for j in range(0, {n}))'
    R.fn(UM + '.deserialize', de('UModel'), 'Any', props=('C05', 'C14', 'C18', 'C19'), **CL, raises={'ValidationError': None}, ensures={
        'computed fields read nothing': 'implies(self._computed or element is None, result is None and only())',
        'alternatives are tried in order, each on its own copy of the document':
            f'calls("create_snapshot") == {UC} and {UC} <= len(self._inner_serializers) and {tried.format(n=UC)}',
        'the first alternative that yields a value wins, and what it consumed stays consumed':
            f'implies(result is not None, {UC} >= 1 and result is call("ser_deserialize", {UC} - 1).ret and not call("ser_deserialize", {UC} - 1).raised and '
            f'calls("apply_snapshot") == 1 and call("apply_snapshot", 0).self is element and call("apply_snapshot", 0).snapshot is call("create_snapshot", {UC} - 1).ret and {none.format(n=UC + " - 1")})',
        'no value only if no alternative yields one or fails, and then nothing is consumed':
            f'implies(result is None and not self._computed and element is not None, {UC} == len(self._inner_serializers) and {none.format(n=UC)} and '
            f'all(not call("ser_deserialize", j).raised for j in range(0, {UC})) and calls("apply_snapshot") == 0)',
        'nothing else touches the document': 'only("ser_deserialize", "apply_snapshot", "create_snapshot")'},
        at={'into_validation_error': {
            'all alternatives were tried': f'{UC} == len(self._inner_serializers) and {none.format(n=UC)}',
            'the errors of all rejected alternatives are reported':
                f'all(implies(call("ser_deserialize", j).raised and all(implies(call("ser_deserialize", i).raised, call("ser_deserialize", i).exc.title != call("ser_deserialize", j).exc.title) for i in range(j + 1, {UC})), '
                'call("ser_deserialize", j).exc.title in arg.errors_map and arg.errors_map[call("ser_deserialize", j).exc.title] is call("ser_deserialize", j).exc) for j in range(0, ' + UC + '))',
            'title and hiding': 'arg.title == self._model_name and arg.hide_input == self._hide_input_in_errors'}},
        exc_ensures={'ValidationError': {'the collected errors are raised': 'calls("into_validation_error") == 1 and exc is call("into_validation_error", 0).ret and only("ser_deserialize", "apply_snapshot", "create_snapshot", "into_validation_error")',
                                         'some alternative failed': f'any(call("ser_deserialize", j).raised for j in range(0, {UC}))'}},
        invs=[f'{UC} == K', 'calls("create_snapshot") == K', tried.format(n='K'), none.format(n='K'), 'calls("apply_snapshot") == 0',
              'all(implies(call("ser_deserialize", j).raised and all(implies(call("ser_deserialize", i).raised, call("ser_deserialize", i).exc.title != call("ser_deserialize", j).exc.title) for i in range(j + 1, K)), '
              'call("ser_deserialize", j).exc.title in _D and _D[call("ser_deserialize", j).exc.title] is call("ser_deserialize", j).exc) for j in range(0, K))',
              'implies(_V is None, all(not call("ser_deserialize", j).raised for j in range(0, K)))',
              'implies(_V is not None, any(call("ser_deserialize", j).raised for j in range(0, K)))', '_V is None',
              '_V is None or (unref(_V) and _V is not element)', 'iff(_V is None, len(_D) == 0)'])

    # ---- tagged union
    TU = F + 'tagged_union:ModelSerializer'
    R.cls('TUnion', TU, fields={'_computed': 'Bool', '_discriminator': 'Str', '_discriminating_attr_name': 'Str',
                                '_inner_serializers': 'Map[Str,MProxy]', '_search_mode': 'SearchMode'}, family='Serializer')
    tag = 'encoded.get(self._discriminator)'
    R.fn(TU + '.serialize', ser('TUnion', encoded='Opt[Map[Str,Any]]'), 'Opt[XmlElement]', props=('C06', 'C10'), **CL,
         requires=['implies(value is not None, encoded is not None)',
                   f'implies(value is not None and encoded is not None and bool({tag}), isinstance({tag}, str) and cast({tag}, "Str") in self._inner_serializers)'], ensures={
             'a missing value writes nothing': 'implies(value is None, result is None and only())',
             'a tagged value is written once by the alternative its tag names':
                 f'implies(value is not None and bool({tag}), calls("ser_serialize") == 1 and wcall(0, self._inner_serializers[cast({tag}, "Str")], element, value, encoded) and result is call("ser_serialize", 0).ret)',
             'an untagged value writes nothing': f'implies(value is not None and not bool({tag}), result is None and only())',
             'nothing else is written': 'only("ser_serialize")'})
    alt = 'self._inner_serializers[key(self._inner_serializers, {j})]'
    look = ('all(call("find_element", j).self is element and call("find_element", j).tag == ' + alt.format(j='j') + '._element_name and '
            'call("find_element", j).search_mode == self._search_mode and not call("find_element", j).look_behind and not call("find_element", j).step_forward for j in range(0, {n}))')
    FC = 'calls("find_element")'
    nohit = ('all(call("find_element", j).ret is None or (0 <= call("find_element", j).n_get_attrib and call("find_element", j).n_get_attrib < calls("get_attrib") and '
             'call("get_attrib", call("find_element", j).n_get_attrib).self is call("find_element", j).ret and '
             'call("get_attrib", call("find_element", j).n_get_attrib).name == self._discriminating_attr_name and '
             'call("get_attrib", call("find_element", j).n_get_attrib).ret != key(self._inner_serializers, j)) for j in range(0, {n}))')
    R.fn(TU + '.deserialize', de('TUnion'), 'Any', props=('C06', 'C14', 'C18', 'C19'), **CL, raises={'ValidationError': None}, ensures={
        'computed fields read nothing': 'implies(self._computed or element is None, result is None and only())',
        'alternatives are probed in order by their own name, without moving': f'{FC} <= len(self._inner_serializers) and {look.format(n=FC)}',
        'the first alternative whose element carries its tag reads the value':
            f'implies(calls("ser_deserialize") > 0, calls("ser_deserialize") == 1 and {FC} >= 1 and rcall(0, {alt.format(j=FC + " - 1")}, element, loc) and result is call("ser_deserialize", 0).ret and '
            f'call("find_element", {FC} - 1).ret is not None)',
        'the discriminator of the found element decides': f'implies(calls("ser_deserialize") > 0, calls("get_attrib") > 0 and call("get_attrib", calls("get_attrib") - 1).self is call("find_element", {FC} - 1).ret and '
            f'call("get_attrib", calls("get_attrib") - 1).name == self._discriminating_attr_name and call("get_attrib", calls("get_attrib") - 1).ret == key(self._inner_serializers, {FC} - 1))',
        'nothing only if every alternative was probed in vain': f'implies(calls("ser_deserialize") == 0 and not self._computed and element is not None, result is None and {FC} == len(self._inner_serializers) and {nohit.format(n=FC)})',
        'alternatives passed over did not match': f'implies(calls("ser_deserialize") > 0, {nohit.format(n=FC + " - 1")})',
        'nothing else is consumed': 'only("find_element", "ser_deserialize")'},
        at={'ser_deserialize': {'the line of the element is recorded before it is read': f'sourcemap.get(loc) == lineof(call("find_element", {FC} - 1).ret)'}},
        invs=[look.format(n='K'), f'{FC} == K', 'calls("ser_deserialize") == 0', nohit.format(n='K')])

    # ---- raw elements
    RW = F + 'raw:ElementSerializer'
    R.cls('Raw', RW, fields={'_computed': 'Bool', '_nsmap': 'Opt[Map[Any,Str]]', '_search_mode': 'SearchMode', '_element_name': 'Str'}, family='Serializer')
    R.im('from_native', {'self': 'XmlElement', 'element': 'Any'}, 'XmlElement', recv='self', tree=True, event='from_native', allocates=True,
         ensures={'new': 'fresh(result) and unref(result)'})
    R.fn(RW + '.serialize', ser('Raw'), 'Opt[XmlElement]', props=('C17', 'C10'), **CL, ensures={
        'a missing value writes nothing': 'implies(value is None, result is element and only())',
        'the value is converted once': 'implies(value is not None, calls("from_native") == 1 and call("from_native", 0).element is value)',
        'and becomes the last child unless it is empty and empty content is skipped':
            'implies(value is not None and result is not None, result is call("from_native", 0).ret and calls("append_element") == 1 and call("append_element", 0).self is element and call("append_element", 0).element is result)',
        'dropped only when empty content is skipped': 'implies(result is None, skip_empty and calls("append_element") == 0 and calls("is_empty") == 1 and call("is_empty", 0).self is call("from_native", 0).ret and call("is_empty", 0).ret)',
        'kept only when not empty or not skipping': 'implies(result is not None and value is not None and skip_empty, calls("is_empty") == 1 and not call("is_empty", 0).ret and call("is_empty", 0).self is result)',
        'nothing else is written': 'only("from_native", "append_element")'})
    R.fn(RW + '.deserialize', de('Raw'), 'Any', props=('C17', 'C14', 'C18'), **CL, ensures={
        'computed fields read nothing': 'implies(self._computed or element is None, result is None and only())',
        'the element is taken out of the document': 'implies(not self._computed and element is not None, calls("pop_element") == 1 and call("pop_element", 0).self is element and '
            'call("pop_element", 0).tag == self._element_name and call("pop_element", 0).search_mode == self._search_mode and call("pop_element", 0).remove)',
        'a missing element yields nothing': 'implies(not self._computed and element is not None and call("pop_element", 0).ret is None, result is None and only("pop_element"))',
        'a found one is converted as a whole': 'implies(not self._computed and element is not None and call("pop_element", 0).ret is not None, calls("to_native") == 1 and '
            'call("to_native", 0).self is call("pop_element", 0).ret and result is call("to_native", 0).ret and sourcemap.get(loc) == lineof(call("pop_element", 0).ret))',
        'nothing else is consumed': 'only("pop_element", "to_native")'})

    # ---- sub-models
    MPX = MO + 'ModelProxySerializer'
    dropm = 'value is None and (exclude_none or not self._nillable)'
    R.fn(MPX + '.serialize', ser('MProxy'), 'Opt[XmlElement]', props=('C10', 'C11', 'C12'), **CL,
         raises={'AssertionError': 'self._model.__xml_serializer__ is None'}, ensures={
             'a missing value writes nothing, unless nillable': f'implies({dropm}, result is None and only())',
             'otherwise one element with the resolved name and namespaces is made':
                 f'implies(not ({dropm}), calls("make_element") == 1 and call("make_element", 0).self is element and call("make_element", 0).tag == self._element_name and call("make_element", 0).nsmap == self._nsmap)',
             'a missing nillable value is an element marked nil and nothing more':
                 f'implies(not ({dropm}) and value is None, calls("make_element_nill") == 1 and call("make_element_nill", 0).element is call("make_element", 0).ret and '
                 'result is call("make_element", 0).ret and only("make_element", "make_element_nill", "append_element"))',
             'a present value is never marked and is written by its own model into the new element with the given flags':
                 'implies(value is not None, calls("make_element_nill") == 0 and calls("ser_serialize") == 1 and wcall(0, self._model.__xml_serializer__, call("make_element", 0).ret, value, encoded))',
             'an element that stays empty is skipped on request':
                 'implies(value is not None and result is None, skip_empty and calls("is_empty") == 1 and call("is_empty", 0).self is call("make_element", 0).ret and call("is_empty", 0).ret and '
                 'call("is_empty", 0).n_ser_serialize == 1 and calls("append_element") == 0)',
             'kept only when not empty or not skipping':
                 'implies(value is not None and result is not None and skip_empty, calls("is_empty") == 1 and not call("is_empty", 0).ret and call("is_empty", 0).self is result and call("is_empty", 0).n_ser_serialize == 1)',
             'a written element becomes the last child':
                 'implies(result is not None, result is call("make_element", 0).ret and calls("append_element") == 1 and call("append_element", 0).self is element and call("append_element", 0).element is result)',
             'nothing else is written': 'only("make_element", "make_element_nill", "ser_serialize", "append_element")'})
    on = 'not self._computed and element is not None'
    hit = on + ' and call("pop_element", 0).ret is not None'
    R.fn(MPX + '.deserialize', de('MProxy'), 'Any', props=('C11', 'C12', 'C14', 'C18', 'C19'), **CL,
         raises={'AssertionError': 'self._model.__xml_serializer__ is None', 'ValidationError': None}, ensures={
             'computed fields read nothing': 'implies(self._computed or element is None, result is None and only())',
             'the element is looked up once by name and mode': f'implies({on}, calls("pop_element") == 1 and call("pop_element", 0).self is element and '
                 'call("pop_element", 0).tag == self._element_name and call("pop_element", 0).search_mode == self._search_mode and not call("pop_element", 0).remove)',
             'a missing element yields nothing': f'implies({on} and call("pop_element", 0).ret is None, result is None and only("pop_element"))',
             'an element marked nil is missing, whatever it contains': f'implies({hit}, calls("is_element_nill") == 1 and call("is_element_nill", 0).element is call("pop_element", 0).ret and '
                 'implies(call("is_element_nill", 0).ret, result is None and calls("ser_deserialize") == 0))',
             'otherwise it is read once by its model': f'implies({hit} and not call("is_element_nill", 0).ret, calls("ser_deserialize") == 1 and '
                 'rcall(0, self._model.__xml_serializer__, call("pop_element", 0).ret, loc) and result is call("ser_deserialize", 0).ret)',
             'nothing else is consumed': 'only("pop_element", "is_element_nill", "ser_deserialize")'},
         at={'ser_deserialize': {'the line of the element is recorded before it is read': 'sourcemap.get(loc) == lineof(call("pop_element", 0).ret)'}},
         exc_ensures={'ValidationError': {'errors come from the sub-model': 'calls("ser_deserialize") == 1 and exc is call("ser_deserialize", 0).exc and calls("pop_element") == 1 and '
                                          'rcall(0, self._model.__xml_serializer__, call("pop_element", 0).ret, loc)'}})

    # ---- models
    BM = MO + 'BaseModelSerializer'
    R.cls('MBase', BM, family='Serializer')
    R.im('model_validate', {'self': 'ModelCls', 'obj': 'Any', 'strict': 'Any', 'context': 'Any'}, 'Any', recv='self', event='model_validate', raises={'ValidationError': None})
    R.im('whook', {'f': 'WHook', 'model': 'Any', 'element': 'XmlElement', 'value': 'Any', 'field': 'Str'}, 'Any', recv='f', event='whook', modifies='tree', tree_arg='element')
    R.im('rhook', {'f': 'RHook', 'cls': 'Any', 'element': 'XmlElement', 'field': 'Str'}, 'Any', recv='f', event='rhook', modifies='tree', tree_arg='element',
         raises={'ValidationError': None})
    RT = MO + 'RootModelSerializer'
    R.cls('MRoot', RT, fields={'_model': 'ModelCls', '_root_serializer': 'Serializer', '_element_name': 'Str', '_nsmap': 'Opt[Map[Any,Str]]',
                               '_hide_input_in_errors': 'Bool'}, parent='MBase')
    R.cls('ModelV', None, fields={'__pydantic_fields_set__': 'Map[Str,Any]'})
    R.macro('eff_skip', 'x', 'skip_empty if self._model.__xml_skip_empty__ is None else self._model.__xml_skip_empty__')
    wm = ('call("ser_serialize", {j}).self is {s} and call("ser_serialize", {j}).element is element and call("ser_serialize", {j}).exclude_none == exclude_none and '
          'call("ser_serialize", {j}).exclude_unset == exclude_unset and call("ser_serialize", {j}).skip_empty == bool(eff_skip(0))')
    unset = 'exclude_unset and "root" not in value.__pydantic_fields_set__'
    R.fn(RT + '.serialize', ser('MRoot', value='Opt[ModelV]'), 'Opt[XmlElement]', props=('C10', 'C18', 'C19'), **CL, ensures={
        'a missing or dropped unset value writes nothing': f'implies(value is None or ({unset}), result is None and only())',
        'otherwise the root is written once, with the skipping the model asks for':
            f'implies(value is not None and not ({unset}), calls("ser_serialize") == 1 and {wm.format(j=0, s="self._root_serializer")} and call("ser_serialize", 0).value is getattr(value, "root") and '
            'call("ser_serialize", 0).encoded is encoded and result is element)',
        'nothing else is written': 'only("ser_serialize")'})
    forbid = 'self._model.model_config.get("extra", "ignore") == "forbid"'
    extra = {'extras are checked exactly when forbidden, after everything is read': f'calls("check_extra") == (1 if {forbid} else 0)'}
    fin = {'the source map handed on starts at the element': 'True'}
    R.fn(RT + '.deserialize', de('MRoot'), 'Any', props=('C04', 'C14', 'C18', 'C19'), **CL, raises={'ValidationError': None}, ensures={
        'nothing is read from an absent element': 'implies(element is None, result is None and only())',
        'the root is read once': 'implies(element is not None, calls("ser_deserialize") == 1 and call("ser_deserialize", 0).self is self._root_serializer and call("ser_deserialize", 0).element is element and '
            'call("ser_deserialize", 0).context is context and call("ser_deserialize", 0).empty_as_string == empty_as_string)',
        'and validated once by the model': 'implies(element is not None, calls("model_validate") == 1 and call("model_validate", 0).self is self._model and call("model_validate", 0).context is context and '
            'result is call("model_validate", 0).ret and implies(call("ser_deserialize", 0).ret is not None, call("model_validate", 0).obj is call("ser_deserialize", 0).ret))',
        'nothing else is consumed': 'only("ser_deserialize", "check_extra", "model_validate")'},
        at={'model_validate': {**extra, 'the root was read': 'calls("ser_deserialize") == 1'},
            'check_extra': {'only when forbidden': forbid, 'of this element, after reading it': 'arg.element is element and calls("ser_deserialize") == 1 and arg.hide_input_in_errors == self._hide_input_in_errors'},
            'ser_deserialize': {'locations are relative to the model': 'len(arg.loc) == 0', 'the line of the element is known': 'arg.sourcemap.get(()) == lineof(element)'},
            'into_validation_error': {'the error of the root is kept under its own location': 'None in arg.errors_map and arg.errors_map[None] is call("ser_deserialize", 0).exc and len(arg.errors_map) == 1',
                                      'hiding': 'arg.hide_input == self._hide_input_in_errors and arg.title == self._model.__name__'},
            'set_sourceline': {'of the validation error': 'arg.err is call("model_validate", 0).exc and arg.hide_input == self._hide_input_in_errors and arg.sourcemap is call("ser_deserialize", 0).sourcemap'}},
        exc_ensures={'ValidationError': {'the error raised is the located one':
            'exc is (call("into_validation_error", 0).ret if calls("into_validation_error") == 1 else call("set_sourceline", 0).ret if calls("set_sourceline") == 1 else call("check_extra", 0).exc) and '
            'calls("into_validation_error") + calls("set_sourceline") + (1 if calls("check_extra") == 1 and call("check_extra", 0).raised else 0) == 1'}})
    R.schema['ModelV']['open'] = True

    MS = MO + 'ModelSerializer'
    R.cls('MModel', MS, fields={'_model': 'ModelCls', '_field_serializers': 'Map[Str,Serializer]', '_element_name': 'Str', '_nsmap': 'Opt[Map[Any,Str]]',
                                '_fields_validation_aliases': 'Map[Str,Str]', '_fields_serialization_exclude': 'Map[Str,Any]',
                                '_hide_input_in_errors': 'Bool'}, parent='MBase')
    FS = 'self._field_serializers'
    R.macro('fkey', 'j', f'key({FS}, j)')
    R.macro('whas', 'j', 'fkey(j) in self._model.__xml_field_serializers__')
    R.macro('wskip', 'j', '(fkey(j) in self._fields_serialization_exclude) or (exclude_unset and fkey(j) not in value.__pydantic_fields_set__)')
    for g in ('np', 'nh', 'nr'):
        R.ghosts[g] = {'sig': ['Int', 'Int']}
    R.ghosts['fidx'] = {'sig': ['V', 'Int']}
    R.ghosts['aidx'] = {'sig': ['V', 'Int']}
    R.macro('wplain_ok', 'j', wm.format(j='np(j)', s=FS + '[fkey(j)]') + ' and call("ser_serialize", np(j)).value is getattr(value, fkey(j)) and '
            'call("ser_serialize", np(j)).encoded is encoded[fkey(j)] and call("ser_serialize", np(j)).n_whook == nh(j)')
    R.macro('whook_ok', 'j', 'call("whook", nh(j)).f is self._model.__xml_field_serializers__[fkey(j)] and call("whook", nh(j)).model is value and '
            'call("whook", nh(j)).element is element and call("whook", nh(j)).value is getattr(value, fkey(j)) and call("whook", nh(j)).field == fkey(j) and '
            'call("whook", nh(j)).n_ser_serialize == np(j)')
    written = ('all(implies(not wskip(j) and not whas(j), 0 <= np(j) and np(j) < np({n}) and wplain_ok(j)) and implies(not wskip(j) and whas(j), 0 <= nh(j) and nh(j) < nh({n}) and whook_ok(j)) for j in range(0, {n}))')
    N = f'len({FS})'
    R.fn(MS + '.serialize', ser('MModel', value='Opt[ModelV]', encoded='Map[Str,Any]'), 'Opt[XmlElement]', props=('C10', 'C18', 'C19'), **CL,
         requires=[f'implies(value is not None, all(fkey(j) in encoded for j in range(0, {N})))'],
         ghostdef=['np(0) == 0', 'nh(0) == 0',
                   f'implies(value is not None, all(np(j + 1) == np(j) + (1 if not wskip(j) and not whas(j) else 0) and nh(j + 1) == nh(j) + (1 if not wskip(j) and whas(j) else 0) for j in range(0, {N})))'],
         ensures={
             'a missing value writes nothing': 'implies(value is None, result is None and only())',
             'as many writes as there are fields to write': f'implies(value is not None, calls("ser_serialize") == np({N}) and calls("whook") == nh({N}))',
             'every field is written once, in declaration order, by its hook or else by its writer': f'implies(value is not None, {written.format(n=N)})',
             'returns the element': 'implies(value is not None, result is element)',
             'nothing else is written': 'only("ser_serialize", "whook")'},
         invs=['calls("ser_serialize") == np(K)', 'calls("whook") == nh(K)', 'np(K) >= 0 and nh(K) >= 0', written.format(n='K')])

    R.macro('rhas', 'j', 'fkey(j) in self._model.__xml_field_validators__')
    R.macro('alias', 'j', 'self._fields_validation_aliases.get(fkey(j), fkey(j))')
    R.macro('rraised', 'j', 'call("rhook", nr(j)).raised if rhas(j) else call("ser_deserialize", j - nr(j)).raised')
    R.macro('rexc', 'j', 'call("rhook", nr(j)).exc if rhas(j) else call("ser_deserialize", j - nr(j)).exc')
    R.macro('rval', 'j', 'call("rhook", nr(j)).ret if rhas(j) else call("ser_deserialize", j - nr(j)).ret')
    R.macro('rplain_ok', 'j', f'call("ser_deserialize", j - nr(j)).self is {FS}[fkey(j)] and call("ser_deserialize", j - nr(j)).element is element and '
            'call("ser_deserialize", j - nr(j)).context is context and call("ser_deserialize", j - nr(j)).empty_as_string == empty_as_string and '
            'call("ser_deserialize", j - nr(j)).loc == (alias(j),) and call("ser_deserialize", j - nr(j)).n_rhook == nr(j)')
    R.macro('rhook_ok', 'j', 'call("rhook", nr(j)).f is self._model.__xml_field_validators__[fkey(j)] and call("rhook", nr(j)).cls is self._model and '
            'call("rhook", nr(j)).element is element and call("rhook", nr(j)).field == fkey(j) and call("rhook", nr(j)).n_ser_deserialize == j - nr(j)')
    read = ('all(implies(not rhas(j), 0 <= j - nr(j) and j - nr(j) < {n} - nr({n}) and rplain_ok(j)) and implies(rhas(j), 0 <= nr(j) and nr(j) < nr({n}) and rhook_ok(j)) for j in range(0, {n}))')
    ferr = 'all(implies(rraised(j), fkey(j) in {d} and {d}[fkey(j)] is rexc(j)) for j in range(0, {n}))'
    fonly = 'all(implies(k in {d}, 0 <= fidx(k) and fidx(k) < {n} and fkey(fidx(k)) == k and rraised(fidx(k))) for k in values_())'
    vals = 'all(implies(not rraised(j) and rval(j) is not None, alias(j) in {d} and {d}[alias(j)] is rval(j)) for j in range(0, {n}))'
    vonly = 'all(implies(k in {d}, 0 <= aidx(k) and aidx(k) < {n} and alias(aidx(k)) == k and not rraised(aidx(k)) and rval(aidx(k)) is not None) for k in values_())'
    allread = f'calls("ser_deserialize") == {N} - nr({N}) and calls("rhook") == nr({N}) and {read.format(n=N)}'
    R.fn(MS + '.deserialize', de('MModel'), 'Any', props=('C04', 'C14', 'C18', 'C19'), **CL, raises={'ValidationError': None}, cost=5,
         requires=[f'all(all(implies(i != j, alias(i) != alias(j)) for i in range(0, {N})) for j in range(0, {N}))'],
         ghostdef=['nr(0) == 0', f'all(nr(j + 1) == nr(j) + (1 if rhas(j) else 0) for j in range(0, {N}))',
                   f'all(fidx(fkey(j)) == j and aidx(alias(j)) == j for j in range(0, {N}))'],
         ensures={
             'nothing is read from an absent element': 'implies(element is None, result is None and only())',
             'every field is read once, in declaration order, by its hook or else by its reader': f'implies(element is not None, {allread})',
             'no field failed': f'implies(element is not None, all(not rraised(j) for j in range(0, {N})))',
             'the values are validated once by the model': 'implies(element is not None, calls("model_validate") == 1 and call("model_validate", 0).self is self._model and '
             'call("model_validate", 0).context is context and result is call("model_validate", 0).ret)',
             'nothing else is consumed': 'only("ser_deserialize", "rhook", "check_extra", "model_validate")'},
         at={'into_validation_error': {
                 'all fields were read': allread, 'every failing field is reported under its name': ferr.format(d='arg.errors_map', n=N),
                 'nothing else is reported': fonly.format(d='arg.errors_map', n=N),
                 'title and hiding': 'arg.title == self._model.__name__ and arg.hide_input == self._hide_input_in_errors'},
             'model_validate': {**extra, 'each value is handed over under the name of its field': vals.format(d='cast(arg.obj, "Dict[Any,Any]")', n=N),
                                'nothing else is handed over': vonly.format(d='cast(arg.obj, "Dict[Any,Any]")', n=N)},
             'check_extra': {'only when forbidden': forbid, 'of this element, after reading it': f'arg.element is element and arg.hide_input_in_errors == self._hide_input_in_errors and calls("ser_deserialize") == {N} - nr({N}) and calls("rhook") == nr({N})'},
             'ser_deserialize': {'the line of the element is known': 'arg.sourcemap.get(arg.loc) == lineof(element)'},
             'set_sourceline': {'of the validation error': 'arg.err is call("model_validate", 0).exc and arg.hide_input == self._hide_input_in_errors'}},
         exc_ensures={'ValidationError': {'the error raised is the located one':
             'exc is (call("into_validation_error", 0).ret if calls("into_validation_error") == 1 else call("set_sourceline", 0).ret if calls("set_sourceline") == 1 else call("check_extra", 0).exc) and '
             'calls("into_validation_error") + calls("set_sourceline") + (1 if calls("check_extra") == 1 and call("check_extra", 0).raised else 0) == 1'}},
         invs=['calls("ser_deserialize") == K - nr(K)', 'calls("rhook") == nr(K)', 'nr(K) >= 0 and nr(K) <= K', read.format(n='K'),
               ferr.format(d='_D', n='K'), fonly.format(d='_D', n='K'), vals.format(d='_D', n='K'), vonly.format(d='_D', n='K'),
               'implies(len(_D) == 0, all(not rraised(j) for j in range(0, K)))'])

    # ---- mappings
    MA = MP + 'AttributesSerializer'
    ME_ = MP + 'ElementSerializer'
    R.cls('MapAttr', MA, fields={'_ns': 'Opt[Str]', '_namespaced_attrs': 'Bool', '_nsmap': 'Opt[Map[Any,Str]]', '_computed': 'Bool'}, family='Serializer')
    R.cls('MapElem', ME_, fields={'_search_mode': 'SearchMode', '_name': 'Str', '_element_name': 'Str'}, parent='MapAttr')
    R.cls('QName', U + ':QName', fields={'tag': 'Str', 'ns': 'Opt[Str]'})
    R.fn(U + ':QName.uri', {'self': 'QName'}, 'Str', props=('C12', 'C16'), ensures={
        'unqualified': 'implies(not self.ns, result == self.tag)', 'qualified': 'implies(bool(self.ns), result == f"{{{self.ns}}}{self.tag}")'})
    R.fn(U + ':QName.from_uri', {'cls': 'class', 'uri': 'Str'}, 'QName', props=('C16',), ensures={'tag': 'result.tag == local_name(uri)', 'namespace': 'result.ns == ns_name(uri)'})
    R.macro('nsuri', 'x', 'self._nsmap.get(self._ns) if self._namespaced_attrs and bool(self._ns) and self._nsmap is not None and len(self._nsmap) > 0 else None')
    R.macro('auri', 'k', 'f"{{{cast(nsuri(0), \'Str\')}}}{cast(k, \'Str\')}" if bool(nsuri(0)) else k')
    ent = ('all(call("set_attribute", j).self is element and call("set_attribute", j).name == au(key(encoded, j)) and '
           'call("set_attribute", j).value == text_of(encoded[key(encoded, j)]) for j in range(0, {n}))')
    R.fn(MA + '.serialize', ser('MapAttr', value='Opt[Map[Str,Any]]', encoded='Opt[Map[Str,Any]]'), 'Opt[XmlElement]', props=('C16', 'C10'), event='map_serialize', **CL,
         requires=['implies(value is not None, encoded is not None)'], ensures={
             'a missing mapping writes nothing': 'implies(value is None, result is element and only())',
             'one attribute per entry, named by the key, with the canonical text, and nothing else':
                'implies(value is not None, calls("set_attribute") == len(encoded) and ' + ent.format(n='len(encoded)') + ')',
            'nothing else is written': 'only("set_attribute")', 'returns the element': 'result is element'},
         ghostdef=['implies(encoded is not None, all(au(key(encoded, j)) == auri(key(encoded, j)) for j in range(0, len(encoded))))'],
         invs=[ent.format(n='K'), 'calls("set_attribute") == K'])
    R.ghosts['au'] = {'sig': ['V', 'V'], 'ret': 'Str'}
    R.macro('pa', 'x', 'call("pop_attributes", 0).ret')
    mon = 'not self._computed and element is not None and pa(0) is not None'
    same = 'all(key(pa(0), j) in {d} and {d}[key(pa(0), j)] == pa(0)[key(pa(0), j)] for j in range(0, {n}))'
    R.fn(MA + '.deserialize', de('MapAttr'), 'Opt[Dict[Str,Str]]', props=('C16', 'C18'), event='map_deserialize', **CL, ensures={
        'computed fields read nothing': 'implies(self._computed or element is None, result is None and only())',
        'all attributes are taken once': 'implies(not self._computed and element is not None, calls("pop_attributes") == 1 and call("pop_attributes", 0).self is element and only("pop_attributes"))',
        'no attributes is nothing': 'implies(not self._computed and element is not None and call("pop_attributes", 0).ret is None, result is None)',
        'attributes give a mapping': 'implies(not self._computed and element is not None and call("pop_attributes", 0).ret is not None, result is not None)',
        'without attribute namespacing the attributes are returned': f'implies({mon} and not self._namespaced_attrs, {same.format(n="len(pa(0))", d="result")})',
        'without attribute namespacing nothing else is returned': f'implies({mon} and not self._namespaced_attrs, all(implies(k in result, k in pa(0)) for k in values_()))',
        'with attribute namespacing the names lose their namespace':
            'implies(not self._computed and element is not None and call("pop_attributes", 0).ret is not None and self._namespaced_attrs, '
            'all(local_name(key(call("pop_attributes", 0).ret, j)) in result for j in range(0, len(call("pop_attributes", 0).ret))))'},
        invs=[f'implies(not self._namespaced_attrs, {same.format(n="K", d="_D")})', 'implies(not self._namespaced_attrs, all(implies(k in _D, k in pa(0)) for k in values_()))',
              'implies(self._namespaced_attrs, all(local_name(key(call("pop_attributes", 0).ret, j)) in _D for j in range(0, K)))'])
    R.fn(ME_ + '.serialize', ser('MapElem', value='Opt[Map[Str,Any]]', encoded='Opt[Map[Str,Any]]'), 'Opt[XmlElement]', props=('C10', 'C12', 'C16'), **CL,
         requires=['implies(value is not None, encoded is not None and len(encoded) == len(value))'], ensures={
             'a dropped missing or empty mapping writes nothing': f'implies(({skip}) or (skip_empty and len(value) == 0), result is element and only())',
             'otherwise one element with the resolved name and namespaces is made and gets the attributes':
                 f'implies(not (({skip}) or (skip_empty and len(value) == 0)), calls("make_element") == 1 and call("make_element", 0).self is element and call("make_element", 0).tag == self._element_name and '
                 'call("make_element", 0).nsmap == self._nsmap and calls("map_serialize") == 1 and call("map_serialize", 0).self is self and call("map_serialize", 0).element is call("make_element", 0).ret and '
                 'call("map_serialize", 0).value is value and call("map_serialize", 0).encoded is encoded)',
             'a kept element becomes the last child': 'implies(result is not None and result is not element, result is call("make_element", 0).ret and calls("append_element") == 1 and '
                 'call("append_element", 0).self is element and call("append_element", 0).element is result)',
             'dropped only when empty and skipping': 'implies(result is None, skip_empty and call("is_empty", 0).ret and call("is_empty", 0).self is call("make_element", 0).ret and calls("append_element") == 0 and call("is_empty", 0).n_map_serialize == 1)',
             'nothing else is written': 'only("make_element", "map_serialize", "append_element")'})
    R.fn(ME_ + '.deserialize', de('MapElem'), 'Opt[Dict[Str,Str]]', props=('C12', 'C14', 'C16', 'C18'), **CL, ensures={
        'computed fields read nothing': 'implies(self._computed or element is None, result is None and only())',
        'the element is looked up once by name and mode': f'implies({on}, calls("pop_element") == 1 and call("pop_element", 0).self is element and '
            'call("pop_element", 0).tag == self._element_name and call("pop_element", 0).search_mode == self._search_mode and not call("pop_element", 0).remove)',
        'a missing element yields nothing': f'implies({on} and call("pop_element", 0).ret is None, result is None and only("pop_element"))',
        'a found one is read once': f'implies({hit}, calls("map_deserialize") == 1 and call("map_deserialize", 0).element is call("pop_element", 0).ret and call("map_deserialize", 0).self is self and '
            'result is call("map_deserialize", 0).ret)',
        'nothing else is consumed': 'only("pop_element", "map_deserialize")'},
        at={'map_deserialize': {'the line of the element is recorded': 'sourcemap.get(loc) == lineof(call("pop_element", 0).ret)'}})
