"""Contracts of the public entry points (model.py)."""
B = 'pydantic_xml.model:BaseXmlModel.'


def register(R):
    NAT = 'pydantic_xml.element.native.'
    R.spec_names['ParsingError'] = 'pydantic_xml.errors.ParsingError'
    R.cls('Native', None, fields={'tag': 'Str', 'text': 'Opt[Str]', 'tail': 'Opt[Str]', 'sourceline': 'Opt[Int]'})
    R.cls('RootSer', None, parent='MBase', fields={'element_name': 'Str', 'nsmap': 'Opt[Map[Any,Str]]'}, methods={'serialize': 'ser_serialize', 'deserialize': 'ser_deserialize'})
    R.schema['ModelCls']['fields']['__xml_serializer__'] = 'Opt[RootSer]'
    R.schema['ModelCls']['methods']['from_xml_tree'] = 'im_from_xml_tree'
    R.schema['ModelV']['fields']['__xml_serializer__'] = 'Opt[RootSer]'
    R.schema['ModelV']['methods'] = {'to_xml_tree': 'im_to_xml_tree'}
    R.im('im_from_xml_tree', {'self': 'ModelCls', 'root': 'Any', 'context': 'Any', 'empty_as_string': 'Bool'}, 'Any', recv='self', event='from_xml_tree',
         raises={'ParsingError': None, 'ValidationError': None}, defaults={'context': None, 'empty_as_string': False})
    R.im('im_to_xml_tree', {'self': 'ModelV', 'skip_empty': 'Bool', 'exclude_none': 'Bool', 'exclude_unset': 'Bool'}, 'Any', recv='self', event='to_xml_tree',
         defaults={'skip_empty': False, 'exclude_none': False, 'exclude_unset': False})
    R.im('native.XmlElement.from_native', {'element': 'Any'}, 'XmlElement', event='from_native', allocates=True, ensures={'new': 'fresh(result) and unref(result)'})
    R.im('native.XmlElement', {'tag': 'Str', 'nsmap': 'Opt[Map[Any,Str]]'}, 'XmlElement', event='new_root', allocates=True, ensures={
        'new': 'fresh(result) and unref(result)'})
    R.im('pydantic_core.to_jsonable_python', {'value': 'Any', 'by_alias': 'Bool', 'fallback': 'Fn'}, 'Any', event='encode')
    R.im('native.etree.fromstring', {'source': 'Any', 'kwargs': 'Any'}, 'Any', event='fromstring', raises={'SyntaxError': None})
    R.im('native.etree.tostring', {'element': 'Any', 'kwargs': 'Any'}, 'Any', event='tostring')

    FX = {'cls': 'ModelCls', 'root': 'Native', 'context': 'Any', 'empty_as_string': 'Bool'}
    ser = 'cls.__xml_serializer__'
    hit = f'root.tag == {ser}.element_name'
    R.fn(B + 'from_xml_tree', FX, 'Any', props=('C19', 'C17'), light=True, allocates=True, event='from_xml_tree',
         raises={'AssertionError': f'{ser} is None', 'ParsingError': f'{ser} is not None and not ({hit})', 'ValidationError': None}, ensures={
             'accepted only if the root element has the name of the model': hit,
             'the root is converted once and read once by the model, with the context and the empty-string choice given':
                 'only("from_native", "ser_deserialize") and calls("from_native") == 1 and calls("ser_deserialize") == 1 and call("from_native", 0).element is root and '
                 f'call("ser_deserialize", 0).self is {ser} and call("ser_deserialize", 0).element is call("from_native", 0).ret and '
                 'call("ser_deserialize", 0).context is context and call("ser_deserialize", 0).empty_as_string == empty_as_string and len(call("ser_deserialize", 0).loc) == 0',
             'what was read is the result': 'result is call("ser_deserialize", 0).ret'},
         at={'ser_deserialize': {'no line is known beforehand': 'len(arg.sourcemap) == 0'}},
         exc_ensures={'ParsingError': {'nothing was converted or validated': 'only()'},
                      'ValidationError': {'of the model': 'calls("ser_deserialize") == 1 and exc is call("ser_deserialize", 0).exc'}})

    FL = {'skip_empty': 'Bool', 'exclude_none': 'Bool', 'exclude_unset': 'Bool'}
    wser = 'self.__xml_serializer__'
    R.fn(B + 'to_xml_tree', {'self': 'ModelV', **FL}, 'Any', props=('C19', 'C10'), light=True, allocates=True, event='to_xml_tree', raises={'AssertionError': f'{wser} is None'}, ensures={
        'one root is made with the name and namespaces of the model': f'calls("new_root") == 1 and call("new_root", 0).tag == {wser}.element_name and call("new_root", 0).nsmap == {wser}.nsmap',
        'the object is encoded once, by field names': 'calls("encode") == 1 and call("encode", 0).value is self and not call("encode", 0).by_alias',
        'and written once into the root by the model, with exactly the flags given':
            f'calls("ser_serialize") == 1 and call("ser_serialize", 0).self is {wser} and call("ser_serialize", 0).element is call("new_root", 0).ret and call("ser_serialize", 0).value is self and '
            'call("ser_serialize", 0).encoded is call("encode", 0).ret and call("ser_serialize", 0).skip_empty == skip_empty and call("ser_serialize", 0).exclude_none == exclude_none and '
            'call("ser_serialize", 0).exclude_unset == exclude_unset',
        'the root is the result, once written': 'calls("to_native") == 1 and call("to_native", 0).self is call("new_root", 0).ret and result is call("to_native", 0).ret and call("to_native", 0).n_ser_serialize == 1',
        'nothing else is done': 'only("new_root", "encode", "ser_serialize", "to_native")'})
    R.fn(B + 'from_xml', {'cls': 'ModelCls', 'source': 'Any', 'context': 'Any', 'empty_as_string': 'Bool', 'kwargs': 'Any'}, 'Any', props=('C19',), light=True, event='from_xml',
         raises={'SyntaxError': None, 'ParsingError': None, 'ValidationError': None}, ensures={
             'the text is parsed once with the options given': 'calls("fromstring") == 1 and call("fromstring", 0).source is source and call("fromstring", 0).kwargs is kwargs',
             'and read as a tree, with the context and the empty-string choice given': 'calls("from_xml_tree") == 1 and call("from_xml_tree", 0).self is cls and call("from_xml_tree", 0).root is call("fromstring", 0).ret and '
                 'call("from_xml_tree", 0).context is context and call("from_xml_tree", 0).empty_as_string == empty_as_string and result is call("from_xml_tree", 0).ret and only("fromstring", "from_xml_tree")'},
         exc_ensures={'ParsingError': {'of the tree': 'calls("from_xml_tree") == 1 and exc is call("from_xml_tree", 0).exc'},
                      'ValidationError': {'of the tree': 'calls("from_xml_tree") == 1 and exc is call("from_xml_tree", 0).exc'}})
    R.fn(B + 'to_xml', {'self': 'ModelV', **FL, 'kwargs': 'Any'}, 'Any', props=('C19', 'C10'), light=True, event='to_xml', ensures={
        'the tree is built with exactly the flags given': 'calls("to_xml_tree") == 1 and call("to_xml_tree", 0).self is self and call("to_xml_tree", 0).skip_empty == skip_empty and '
            'call("to_xml_tree", 0).exclude_none == exclude_none and call("to_xml_tree", 0).exclude_unset == exclude_unset',
        'and written as text once with the options given': 'calls("tostring") == 1 and call("tostring", 0).element is call("to_xml_tree", 0).ret and call("tostring", 0).kwargs is kwargs and '
            'result is call("tostring", 0).ret and only("to_xml_tree", "tostring")'})
    for c, a in (('RootModelSerializer', 'MRoot'), ('ModelSerializer', 'MModel')):  # of proxies: inlined in their readers
        for n, t in (('element_name', 'Str'), ('nsmap', 'Opt[Map[Any,Str]]')):
            R.fn(f'pydantic_xml.serializers.factories.model:{c}.{n}', {'self': a}, t, props=('C19', 'C12'), prop=True, ensures={
                'as resolved when the model was defined': f'result == self._{n}'})

    # ---- class settings (None: no ancestor gives it)
    SET = {'__xml_tag__': ('tag', 'Opt[Str]', 'None'), '__xml_ns__': ('ns', 'Opt[Str]', 'None'), '__xml_ns_attrs__': ('ns_attrs', 'Opt[Bool]', 'False'),
           '__xml_skip_empty__': ('skip_empty', 'Opt[Bool]', 'None'), '__xml_search_mode__': ('search_mode', 'Opt[SearchMode]', 'SearchMode.STRICT')}
    HOOKS = ('__xml_field_serializers__', '__xml_field_validators__')
    R.cls('NewCls', None, kind='heap', fields={**{a: t for a, (_, t, _) in SET.items()}, '__xml_nsmap__': 'Opt[Dict[Any,Str]]', **{h: 'Dict[Str,Any]' for h in HOOKS}})
    R.schema['NewCls']['absent'] = True
    par = 'old(cls.__xml_nsmap__)'
    R.fn(B + '__init_subclass__', {'cls': 'NewCls', 'tag': 'Opt[Str]', 'ns': 'Opt[Str]', 'nsmap': 'Opt[Dict[Any,Str]]', 'ns_attrs': 'Opt[Bool]', 'skip_empty': 'Opt[Bool]',
                                   'search_mode': 'Opt[SearchMode]', 'kwargs': 'Any'}, props=('C13', 'C12'), allocates=True, event='init_subclass',
         modifies=[*['cls.' + a for a in (*SET, '__xml_nsmap__', *HOOKS)]], ensures={
             **{f'{a} is the one given, else the inherited one, else the default':
                f'cls.{a} == ({p} if {p} is not None else (old(cls.{a}) if old(cls.{a}) is not None else {d}))' for a, (p, _, d) in SET.items()},
             'the namespace maps of the class and its ancestors are merged': f'all(implies(({par} is not None and k in {par}) or (nsmap is not None and k in nsmap), cls.__xml_nsmap__ is not None and k in cls.__xml_nsmap__) for k in values_())',
             'entries of the class itself win': 'all(implies(nsmap is not None and k in nsmap, cls.__xml_nsmap__[k] == nsmap[k]) for k in values_())',
             'the others are inherited': f'all(implies(cls.__xml_nsmap__ is not None and k in cls.__xml_nsmap__ and not (nsmap is not None and k in nsmap), {par} is not None and k in {par} and cls.__xml_nsmap__[k] == {par}[k]) for k in values_())',
             'inherited maps are left alone': f'implies({par} is not None and len({par}) > 0, fresh(cls.__xml_nsmap__)) and all(implies({par} is not None, (k in {par}) == old(cls.__xml_nsmap__ is not None and k in cls.__xml_nsmap__) and {par}.get(k) == old(None if cls.__xml_nsmap__ is None else cls.__xml_nsmap__.get(k))) for k in values_())',
             **{f'{h} starts empty and is not shared': f'fresh(cls.{h}) and len(cls.{h}) == 0' for h in HOOKS},
             'hooks of different kinds are kept apart': 'cls.__xml_field_serializers__ is not cls.__xml_field_validators__'})

    # ---- binding a model class
    R.spec_names['BaseXmlModel'] = 'pydantic_xml.model.BaseXmlModel'
    R.spec_names['TypeVar'] = 'typing.TypeVar'
    R.schema['FInfo']['fields']['annotation'] = 'Any'
    R.cls('GMeta', None, fields={'[parameters]': 'Seq[Any]'})
    R.cls('BCls', None, kind='heap', fields={
        '__name__': 'Str', '__xml_serializer__': 'Opt[Serializer]', '__xml_tag__': 'Opt[Str]', '__xml_ns__': 'Opt[Str]', '__xml_nsmap__': 'Opt[Map[Any,Str]]', '__xml_ns_attrs__': 'Bool',
        '__xml_search_mode__': 'SearchMode', '__pydantic_complete__': 'Bool', '__pydantic_root_model__': 'Bool', '__pydantic_core_schema__': 'Schema', '__pydantic_generic_metadata__': 'GMeta',
        'model_fields': 'Map[Str,FInfo]'})
    par = 'len(cls.__pydantic_generic_metadata__["parameters"]) > 0'
    generic = f'{par} and (not cls.__pydantic_root_model__ or cls.model_fields.get("root") is None or isinstance(cls.model_fields["root"].annotation, TypeVar))'
    base = 'cls is BaseXmlModel'
    ctx = 'call("parse", 0).ctx'
    R.fn(B + '__build_serializer__', {'cls': 'BCls'}, props=('C13', 'C12', 'C20'), allocates=True, event='build', modifies=['cls.__xml_serializer__'],
         raises={'ModelError': None, 'ModelFieldError': None, 'TypeError': None, 'AssertionError': None, 'KeyError': None}, ensures={
             'the base model is not bound': f'implies({base}, only() and cls.__xml_serializer__ is old(cls.__xml_serializer__))',
             'neither are generic models with free parameters or unresolved references': f'implies(not ({base}) and ({generic} or not cls.__pydantic_complete__), only() and cls.__xml_serializer__ is None)',
             'others are bound once by their own schema': f'implies(not ({base}) and not ({generic}) and cls.__pydantic_complete__, only("parse") and calls("parse") == 1 and call("parse", 0).schema is cls.__pydantic_core_schema__ and '
                 'cls.__xml_serializer__ is call("parse", 0).ret)',
             'under the settings of the class': f'implies(calls("parse") == 1, {ctx}.model_name == cls.__name__ and {ctx}.namespaced_attrs == cls.__xml_ns_attrs__ and {ctx}.search_mode == cls.__xml_search_mode__ and '
                 f'{ctx}.parent_ctx is None and {ctx}.field_name is None and {ctx}.field_alias is None and not {ctx}.field_computed)',
             'and its own declaration': f'implies(calls("parse") == 1, {ctx}.entity_info is not None and {ctx}.entity_info.location == EntityLocation.ELEMENT and {ctx}.entity_info.path == cls.__xml_tag__ and '
                 f'{ctx}.entity_info.ns == cls.__xml_ns__ and {ctx}.entity_info.nsmap == cls.__xml_nsmap__ and {ctx}.entity_info.wrapped is None and {ctx}.entity_info.nillable is None)'})
    R.schema['BCls']['methods']['__build_serializer__'] = 'build'
    R.im('build', {'self': 'BCls'}, recv='self', event='build', modifies=['self.__xml_serializer__'])
    R.im('super_rebuild', {'cls': 'BCls', 'kwargs': 'Any'}, 'Any', event='super_rebuild', modifies=['cls.__pydantic_complete__'])
    R.ext_handlers['super.model_rebuild'] = lambda vx, st, args, kw: vx.call_imeth(st, vx.reg.imeths['super_rebuild'], None, [st.extra['self'], *args], kw)
    R.fn(B + 'model_rebuild', {'cls': 'BCls', 'kwargs': 'Any'}, props=('C20',), event='model_rebuild', modifies=['cls.__pydantic_complete__', 'cls.__xml_serializer__'], ensures={
        'the model is rebuilt once with the options given': 'calls("super_rebuild") == 1 and call("super_rebuild", 0).kwargs is kwargs',
        'and bound once it is complete, unless it was bound before': 'calls("build") == (1 if old(cls.__xml_serializer__) is None and cls.__pydantic_complete__ else 0)'})
