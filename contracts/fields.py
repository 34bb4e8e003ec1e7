"""Contracts of the declaration functions of pydantic_xml/fields.py."""
FI = 'pydantic_xml.fields:'


def register(R):
    ND = ('C21',)
    R.cls('FieldObj', None, kind='heap', fields={'metadata': 'List[Any]'})
    meta = 'fresh(result) and fresh(result.metadata)'
    R.im('pydantic.fields.FieldInfo', {'default': 'Any', 'default_factory': 'Any', 'kwargs': 'Dict[Str,Any]'}, 'FieldObj', event='new_field', allocates=True, tree=True, ensures={'new': meta})
    R.im('copy.deepcopy', {'x': 'FInfo'}, 'FieldObj', event='copy', allocates=True, tree=True, ensures={
        'new': meta, 'equal': 'len(result.metadata) == len(x.metadata) and all(result.metadata[j] is x.metadata[j] for j in range(0, len(x.metadata)))'})
    R.fn('pydantic_xml.compat:merge_field_infos', {'field_infos': 'Seq[FieldObj]'}, 'FieldObj', trusted=True, event='merge_fields', allocates=True, tree=True, ensures={'new': meta})
    al, sa, va = ("old(kwargs.get('%s'))" % k for k in ('alias', 'serialization_alias', 'validation_alias'))
    R.fn(FI + 'prepare_field_kwargs', {'kwargs': 'Dict[Str,Any]'}, 'Dict[Str,Any]', event='prepare', props=ND + ('C20',), modifies=['kwargs{*}'], ensures={
        'the same options': 'result is kwargs',
        'a general alias is used both ways unless one is given for it': f'implies(isinstance({al}, str), '
            + ' and '.join(f"implies({x} is None or {x} is PydanticUndefined, kwargs.get('{k}') == {al}) and implies(isinstance({x}, str), kwargs.get('{k}') == {x})" for x, k in ((sa, 'serialization_alias'), (va, 'validation_alias'))) + ')',
        'nothing else is changed': "all(implies(k != 'serialization_alias' and k != 'validation_alias' or not isinstance(" + al + ", str) and (" + al + " is None or " + al + " is PydanticUndefined), "
            "(k in kwargs) == old(k in kwargs) and kwargs.get(k) == old(kwargs.get(k))) for k in values_('Str'))"})
    R.spec_names['PydanticUndefined'] = 'pydantic_core.PydanticUndefined'
    last = 'cast(result.metadata[len(result.metadata) - 1], "EInfo")'

    def bound(loc, **given):
        f = {'path': 'None', 'ns': 'None', 'nsmap': 'None', 'nillable': 'None', 'wrapped': 'None', **given}
        return (f'len(result.metadata) >= 1 and isinstance(result.metadata[len(result.metadata) - 1], XmlEntityInfo) and {last}.location == EntityLocation.{loc} and '
                + ' and '.join(f'{last}.{k} == {v}' for k, v in f.items()))
    opts = {'the field has the options given': 'call("new_field", 0).default is default and call("new_field", 0).default_factory is default_factory and calls("prepare") == 1 and '
            'call("prepare", 0).kwargs is kwargs and call("new_field", 0).kwargs is call("prepare", 0).ret'}
    DK = {'default': 'Any', 'default_factory': 'Any', 'kwargs': 'Dict[Str,Any]'}
    one = {'a new field': 'calls("new_field") == 1 and result is call("new_field", 0).ret and only("new_field", "prepare")'}
    R.fn(FI + 'attr', {'name': 'Opt[Str]', 'ns': 'Opt[Str]', **DK}, 'FieldObj', props=ND, light=True, allocates=True, ensures={
        **one, **opts, 'declared as an attribute': bound('ATTRIBUTE', path='name', ns='ns')})
    R.fn(FI + 'element', {'tag': 'Opt[Str]', 'ns': 'Opt[Str]', 'nsmap': 'Opt[Map[Any,Str]]', 'nillable': 'Opt[Bool]', **DK}, 'FieldObj', props=ND, light=True, allocates=True, ensures={
        **one, **opts, 'declared as an element': bound('ELEMENT', path='tag', ns='ns', nsmap='nsmap', nillable='nillable')})
    md, mg = 'entity.metadata', 'call("merge_fields", 0).field_infos[1].metadata'
    R.fn(FI + 'wrapped', {'path': 'Str', 'entity': 'Opt[FInfo]', 'ns': 'Opt[Str]', 'nsmap': 'Opt[Map[Any,Str]]', **DK}, 'FieldObj', props=ND + ('C09',), light=True, allocates=True, ensures={
        **opts,
        'declared as a wrapper': f'implies(entity is None, {bound("WRAPPED", path="path", ns="ns", nsmap="nsmap")})',
        'wrapping what is declared inside': f'implies(entity is not None, calls("extract") == 1 and call("extract", 0).field_info is entity and '
            + bound("WRAPPED", path="path", ns="ns", nsmap="nsmap", wrapped='call("extract", 0).ret') + ')',
        'a new field': 'calls("new_field") == 1 and implies(entity is None, result is call("new_field", 0).ret and calls("merge_fields") == 0)',
        'with the options of the inner declaration': 'implies(entity is not None, calls("merge_fields") == 1 and result is call("merge_fields", 0).ret and len(call("merge_fields", 0).field_infos) == 2 and '
            'call("merge_fields", 0).field_infos[0] is call("new_field", 0).ret and calls("copy") == 1 and call("copy", 0).x is entity and call("merge_fields", 0).field_infos[1] is call("copy", 0).ret)',
        'but not its xml declaration': f'implies(entity is not None, all(not isinstance(m, XmlEntityInfo) for m in {mg}))'})
