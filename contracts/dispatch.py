"""Contracts of schema dispatch: unwrapping of core schemas, choice of serializer, refusals at definition time."""
SER = 'pydantic_xml.serializers.serializer'
F = 'pydantic_xml.serializers.factories.'

FAMILIES = ['META', 'PRIMITIVE', 'MODEL', 'HOMOGENEOUS_COLLECTION', 'TUPLE', 'MAPPING', 'TYPED_MAPPING', 'UNION', 'TAGGED_UNION',
            'DEFINITIONS', 'DEFINITION_REF', 'JSON_OR_PYTHON', 'IS_INSTANCE', 'CALL']
# what the property says about kinds of core schemas (the documentation's list of supported types), independent of the table in the code
PRIM = ('none bool int float str bytes enum date time datetime timedelta uuid decimal url multi-host-url json literal lax-or-strict').split()
LAYER = ['function-before', 'function-after', 'function-wrap', 'function-plain', 'default', 'nullable']
SEQS = ['list', 'set', 'frozenset']


def one(t, names):
    return '(' + ' or '.join(f"{t} == '{n}'" for n in names) + ')'


def register(R):
    R.cls('Schema', None, fields={
        '[type]': 'Str', '[schema]': 'Schema', '[serialization]': 'Schema', '[python_schema]': 'Schema', '[definitions]': 'Seq[Schema]', '[ref]': 'Str',
        '[schema_ref]': 'Str', '[keys_schema]': 'Schema', '[values_schema]': 'Schema', '[variadic_item_index]': 'Opt[Int]', '[cls]': 'Any', '[function]': 'Any',
        '[root_model]': 'Bool', '[return_schema]': 'Schema'})
    R.cls('HomoSchema', None, parent='Schema', fields={'[items_schema]': 'Union[Schema,List[Schema]]'})
    R.cls('TupSchema', None, parent='Schema', fields={'[items_schema]': 'Seq[Schema]'})
    R.cls('UnionSchema', None, parent='Schema', fields={'[choices]': 'Seq[Union[Schema,Tup[Schema,Any]]]'})
    R.cls('TagSchema', None, parent='Schema', fields={'[choices]': 'Map[Any,Schema]', '[discriminator]': 'Any'})
    R.cls('ArgsSchema', None, parent='Schema', fields={'[arguments_schema]': 'Seq[Schema]'})
    R.cls('CallSchema', None, parent='Schema', fields={'[arguments_schema]': 'ArgsSchema'})
    R.cls('TDSchema', None, parent='Schema', fields={'[fields]': 'Map[Str,Schema]', '[computed_fields]': 'Seq[Schema]'})
    R.cls('MField', None, fields={'[schema]': 'Schema', '[return_schema]': 'Schema', '[property_name]': 'Str', '[alias]': 'Opt[Str]', '[serialization_alias]': 'Opt[Str]',
                                  '[validation_alias]': 'Any', '[serialization_exclude]': 'Any'})
    R.cls('FieldsSchema', None, parent='Schema', fields={'[schema]': 'FieldsSchema', '[fields]': 'Map[Str,MField]', '[computed_fields]': 'Seq[MField]'})
    R.cls('MSchema', None, parent='Schema', fields={'[cls]': 'ModelCls', '[schema]': 'FieldsSchema'})
    R.cls('RootSchema', None, parent='Schema', fields={'[cls]': 'ModelCls'})
    R.enums['SchemaTypeFamily'] = ('int', {n: i for i, n in enumerate(FAMILIES)})
    R.alias_by_key[SER + ':SchemaTypeFamily'] = 'SchemaTypeFamily'

    R.macro('is_prim', 's', one("s['type']", PRIM))
    R.macro('is_layer', 's', one("s['type']", LAYER))
    R.macro('is_known', 's', one("s['type']", PRIM + LAYER + SEQS + ['is-instance', 'model', 'tuple', 'dict', 'typed-dict', 'union', 'tagged-union', 'definitions', 'definition-ref', 'json-or-python', 'call']))
    R.macro('is_bound', 's', one("s['type']", PRIM + SEQS + ['is-instance', 'model', 'tuple', 'dict', 'typed-dict', 'union', 'tagged-union', 'call']))
    R.macro('inner_of', 's', "s.get('serialization') if s['type'] == 'function-plain' else s.get('schema')")
    # contexts that bind alike: everything but optionality, defaults and visible definitions
    R.macro('alike', 'a b', ' and '.join(f'a.{f} == b.{f}' for f in (
        'model_name', 'field_name', 'field_alias', 'field_computed', 'entity_info', 'namespaced_attrs', 'search_mode', 'hide_input_in_errors', 'parent_ctx')))

    P = 'call("pre", 0)'
    D = '{}.ctx.definitions'.format(P)
    R.fn(SER + ':Serializer.preprocess_schema', {'cls': 'class', 'schema': 'Schema', 'ctx': 'Ctx'}, 'Tup[Schema,Ctx]', props=('C20',), event='pre', allocates=True,
         raises={'ModelError': None}, ensures={
             'a type with a binding is left as it is': 'implies(is_bound(schema), only() and result[0] is schema and result[1] is ctx)',
             'the result always has a binding': 'is_bound(result[0])',
             'only supported kinds pass': 'is_known(schema)',
             'the context keeps everything that decides the binding': 'alike(result[1], ctx)',
             'layers are removed one after the other': 'implies(not is_bound(schema), only("pre") and calls("pre") == 1 and result[0] is call("pre", 0).ret[0] and result[1] is call("pre", 0).ret[1] and '
                                                     'alike(call("pre", 0).ctx, ctx))',
             'validators, defaults and optionality are transparent': f'implies(is_layer(schema), {P}.schema is (inner_of(schema)) and {D} == ctx.definitions)',
             'the python side of a split schema is bound': f"implies(schema['type'] == 'json-or-python', {P}.schema is schema['python_schema'] and {D} == ctx.definitions)",
             'definitions become visible to what they enclose': f"implies(schema['type'] == 'definitions', {P}.schema is schema['schema'] and "
                f"all((k in {D}) == (any(schema['definitions'][j]['ref'] == k for j in range(0, len(schema['definitions']))) or k in ctx.definitions) for k in values_()) and "
                f"all(implies(k in {D} and all(schema['definitions'][j]['ref'] != k for j in range(0, len(schema['definitions']))), {D}[k] is ctx.definitions[k]) for k in values_()))",
             'the innermost definition of a reference wins': f"implies(schema['type'] == 'definitions', all(implies(k in {D} and any(schema['definitions'][j]['ref'] == k for j in range(0, len(schema['definitions']))), "
                f"any(schema['definitions'][j] is {D}[k] and schema['definitions'][j]['ref'] == k for j in range(0, len(schema['definitions'])))) for k in values_()))",
             'a reference is bound as what it refers to': f"implies(schema['type'] == 'definition-ref', schema['schema_ref'] in ctx.definitions and {P}.schema is ctx.definitions[schema['schema_ref']] and {D} == ctx.definitions)"},
         exc_ensures={'ModelError': {'refused only without a binding': "not is_bound(schema) and (calls('pre') == 1 or not is_known(schema) or (is_layer(schema) and (inner_of(schema)) is None) or "
                                     "(schema['type'] == 'definition-ref' and schema['schema_ref'] not in ctx.definitions))"}},
         holes={'_D': 'Dict[Any,Any]'},
         invs=["all(schema['definitions'][j]['ref'] in _D for j in range(0, K))",
               "all(implies(k in _D, any(schema['definitions'][j]['ref'] == k and schema['definitions'][j] is _D[k] for j in range(0, K))) for k in values_())"])

    # ---- choice of a serializer
    R.exc_bases.setdefault('ModelError', 'Exception'); R.exc_bases.setdefault('ModelFieldError', 'Exception')
    S3 = {'schema': 'Schema', 'ctx': 'Ctx'}
    CLS = {'cls': 'class', **S3}
    DEFERR = {'ModelError': None, 'ModelFieldError': None, 'TypeError': None, 'AssertionError': None, 'KeyError': None}
    NW = ['ctx.entity_location != EntityLocation.WRAPPED']
    el = lambda l: f'ctx.entity_location == EntityLocation.{l}'
    none = 'ctx.entity_location is None'

    def to(ev, cond='True', only=None, c='ctx', s='schema'):
        o = f'only({only or chr(34) + ev + chr(34)})'
        return f'implies({cond}, {o} and calls("{ev}") == 1 and call("{ev}", 0).schema is {s} and call("{ev}", 0).ctx is {c} and result is call("{ev}", 0).ret)'

    def mod(name, event, ensures, params=None, raises=None, props=('C20',), requires=NW, **kw):
        R.fn(F + name + ':from_core_schema', {**S3, **(params or {})}, 'Serializer', props=props, event=event, allocates=True, ensures=ensures,
             raises=DEFERR if raises is None else raises, requires=list(requires), **kw)

    noattr = {'ModelFieldError': el('ATTRIBUTE')}
    R.fn(SER + ':Serializer.parse_core_schema', CLS, 'Serializer', props=('C20',), event='parse', allocates=True, raises=DEFERR, ensures={
        'the serializer is chosen for what remains after removing layers':
            'only("pre", "select") and calls("pre") == 1 and calls("select") == 1 and call("pre", 0).schema is schema and call("pre", 0).ctx is ctx and '
            'call("select", 0).schema is call("pre", 0).ret[0] and call("select", 0).ctx is call("pre", 0).ret[1] and result is call("select", 0).ret'})
    wr = el('WRAPPED')
    nw = f'not ({wr}) and '
    kinds = {'f_primitive': PRIM, 'f_model': ['model'], 'f_homo': SEQS, 'f_tuple': ['tuple'], 'f_mapping': ['dict'], 'f_typed': ['typed-dict'],
             'f_union': ['union'], 'f_tagged': ['tagged-union'], 'f_isinst': ['is-instance'], 'f_call': ['call']}
    R.fn(SER + ':Serializer.select_serializer', CLS, 'Serializer', props=('C20', 'C09'), event='select', allocates=True, raises=DEFERR, requires=['is_bound(schema)'], ensures={
        'a wrapped field is bound by its path first': to('f_wrapper', wr),
        **{f'{ks[0]} kinds are bound by {ev[2:]}': to(ev, nw + one("schema['type']", ks)) for ev, ks in kinds.items()}})
    mod('primitive', 'f_primitive', {'elements': to('def_elem', el('ELEMENT')), 'attributes': to('def_attr', el('ATTRIBUTE')), 'text': to('def_text', none)},
        raises={'ModelError': None, 'ModelFieldError': None}, props=('C20', 'C15'))
    mod('raw', 'f_raw', {'an element of its own': to('def_raw')}, raises={'ModelFieldError': None, 'ModelError': None}, props=('C20', 'C17'),
        exc_ensures={'ModelFieldError': {'attributes cannot hold elements': f'({el("ATTRIBUTE")} and only()) or only("def_raw")'},
                     'ModelError': {'refused by the naming': 'only("def_raw")'}})
    ok = lambda c: one(c + "['type']", PRIM)
    mod('mapping', 'f_mapping', {
        'keys and values are of primitive types': 'calls("pre") == 2 and call("pre", 0).schema is schema["keys_schema"] and call("pre", 1).schema is schema["values_schema"] and '
                                                  'is_prim(call("pre", 0).ret[0]) and is_prim(call("pre", 1).ret[0])',
        'elements': to('def_mapelem', el('ELEMENT'), '"pre", "def_mapelem"'), 'own attributes': to('def_mapattr', none, '"pre", "def_mapattr"'),
        'attributes hold no mappings': f'not ({el("ATTRIBUTE")})'},
        raises={'ModelError': None, 'ModelFieldError': None}, props=('C20', 'C16'),
        exc_ensures={'ModelFieldError': {'refused for a reason': f'({el("ATTRIBUTE")}) or calls("def_mapelem") == 1 or not is_prim(call("pre", 0).ret[0]) or not is_prim(call("pre", 1).ret[0])'}})
    MEN = {'ModelError': None, 'ModelFieldError': None}
    mod('typed_mapping', 'f_typed', {
        'every value is of a primitive type': 'calls("pre") == len(schema["fields"]) + len(schema["computed_fields"]) and all(is_prim(call("pre", j).ret[0]) for j in range(0, calls("pre")))',
        'elements': to('def_mapelem', el('ELEMENT'), '"pre", "def_mapelem"'), 'own attributes': to('def_mapattr', none, '"pre", "def_mapattr"'),
        'attributes hold no mappings': f'not ({el("ATTRIBUTE")})'}, params={'schema': 'TDSchema'}, raises=MEN, props=('C20', 'C16'),
        invs=['calls("pre") == K', 'all(is_prim(call("pre", j).ret[0]) for j in range(0, K))', 'len(_L) == K'])
    R.ghosts['subclass_of'] = {'sig': ['V', 'V', 'Bool']}
    R.ghosts['is_class'] = {'sig': ['V', 'Bool']}

    # ---- collections
    ITEM = PRIM + ['model', 'dict', 'typed-dict', 'union', 'tagged-union', 'is-instance', 'call']
    COLL = ITEM + ['tuple']

    def items(event, n, item, allowed, unnamed, extra=''):
        p = lambda j: f'call("pre", {j})'
        return {
            'every item type is looked at': f'calls("pre") == {n} and all({p("j")}.schema is {item} for j in range(0, {n}))',
            'items have a binding inside a collection': f'all({one(p("j") + ".ret[0][" + chr(39) + "type" + chr(39) + "]", allowed)} for j in range(0, {n}))',
            'only models, unions and the like need no element name': f'implies({none}, all({one(p("j") + ".ret[0][" + chr(39) + "type" + chr(39) + "]", unnamed)} for j in range(0, {n})))',
            'bound as a collection': f'only("pre", "{event}") and calls("{event}") == 1 and result is call("{event}", 0).ret and alike(call("{event}", 0).ctx, ctx){extra}',
            'attributes hold no collections': f'not ({el("ATTRIBUTE")})'}

    def iteminvs(item, allowed, unnamed):
        t = lambda names: one("call('pre', j).ret[0]['type']", names)
        return ['calls("pre") == K', f'all(call("pre", j).schema is {item} for j in range(0, K))', f'all({t(allowed)} for j in range(0, K))',
                f'implies({none}, all({t(unnamed)} for j in range(0, K)))', 'alike(_S, ctx)']
    hs = "(cast(schema['items_schema'], 'List[Schema]')[0] if isinstance(schema['items_schema'], list) else schema['items_schema'])"
    HS = {'schema': 'HomoSchema'}
    mod('homogeneous', 'f_homo', items('def_homo', '1', hs, COLL, ['model', 'union', 'tagged-union', 'tuple', 'call'], ' and call("def_homo", 0).schema is schema'), params=HS, props=('C20', 'C07'), raises=DEFERR)
    mod('heterogeneous', 'f_het', items('def_het', 'len(schema["items_schema"])', 'schema["items_schema"][j]', ITEM, ['model', 'union'], ' and call("def_het", 0).schema is schema'),
        params={'schema': 'TupSchema'}, props=('C20', 'C08'), raises=DEFERR, invs=iteminvs('schema["items_schema"][j]', ITEM, ['model', 'union']))
    args = 'schema["arguments_schema"]["arguments_schema"]'
    mod('named_tuple', 'f_nt', items('def_nt', f'len({args})', args + '[j]["schema"]', ITEM, ['model', 'union'], ' and call("def_nt", 0).schema is schema["arguments_schema"]'),
        params={'schema': 'CallSchema'}, props=('C20', 'C08'), raises=DEFERR, invs=iteminvs(args + '[j]["schema"]', ITEM, ['model', 'union']))
    var = "schema.get('variadic_item_index')"
    mod('tuple', 'f_tuple', {
        'fixed tuples are bound position by position': to('f_het', f'{var} is None'), 'variadic tuples are collections': to('f_homo', f'{var} is not None'),
        'prefixed variadic tuples are refused': f'{var} is None or {var} == 0'}, raises=DEFERR)
    mod('model', 'f_model', {
        'a model at the root is bound with its fields': to('def_mmodel', 'ctx.parent_ctx is None and not schema["root_model"]'),
        'a root model at the root is bound as its root': to('def_mroot', 'ctx.parent_ctx is None and schema["root_model"]'),
        'any other model is bound as a sub-element': to('def_mproxy', 'ctx.parent_ctx is not None'),
        'attributes hold no models': f'ctx.parent_ctx is None or not ({el("ATTRIBUTE")})'}, raises=DEFERR, props=('C20', 'C12'))
    mod('wrapper', 'f_wrapper', {'bound by its path': to('def_wrap')}, raises=DEFERR, props=('C20', 'C09'), requires=[el('WRAPPED')])

    # ---- unions
    choice = "(cast(schema['choices'][j], 'Tup[Schema,Any]')[0] if isinstance(schema['choices'][j], tuple) else schema['choices'][j])"
    n = "len(schema['choices'])"
    pt = lambda names: one("call('pre', j).ret[0]['type']", names)
    UK = PRIM + ['is-instance', 'model']
    mod('union', 'f_union', {
        'every alternative is looked at': f'{n} > 0 and calls("pre") == {n} and all(call("pre", j).schema is {choice} for j in range(0, {n}))',
        'alternatives are all models or all primitive': f'implies(calls("def_umodel") == 1, all({pt(["model"])} for j in range(0, {n}))) and '
            f'implies(calls("def_uprim") == 1, all({pt(PRIM + ["is-instance"])} for j in range(0, {n})))',
        'bound as what its alternatives are': 'only("pre", "def_umodel", "def_uprim") and calls("def_umodel") + calls("def_uprim") == 1 and '
            'implies(calls("def_umodel") == 1, result is call("def_umodel", 0).ret and call("def_umodel", 0).schema is schema and alike(call("def_umodel", 0).ctx, ctx)) and '
            'implies(calls("def_uprim") == 1, result is call("def_uprim", 0).ret and call("def_uprim", 0).schema is schema and alike(call("def_uprim", 0).ctx, ctx))'},
        params={'schema': 'UnionSchema'}, raises=DEFERR, props=('C20', 'C05'), requires=[],
        invs=['calls("pre") == K', f'all(call("pre", j).schema is {choice} for j in range(0, K))', f'all({pt(UK)} for j in range(0, K))', 'alike(_S, ctx)',
              'implies(K > 0, len(_D) > 0)',
              f'all(implies({pt(["model"])}, SchemaTypeFamily.MODEL in _D) for j in range(0, K))',
              f'all(implies({pt(PRIM)}, SchemaTypeFamily.PRIMITIVE in _D) for j in range(0, K))',
              f'all(implies({pt(["is-instance"])}, SchemaTypeFamily.IS_INSTANCE in _D) for j in range(0, K))',
              'all(implies(k in _D, k == SchemaTypeFamily.MODEL or k == SchemaTypeFamily.PRIMITIVE or k == SchemaTypeFamily.IS_INSTANCE) for k in values_())'])
    R.spec_names['SchemaTypeFamily'] = SER + '.SchemaTypeFamily'
    p = 'call("pre", j)'
    mod('tagged_union', 'f_tagged', {
        'every alternative is a model with fields': 'calls("pre") == len(schema["choices"]) and all(call("pre", j).ret[0]["type"] == "model" and not call("pre", j).ret[0]["root_model"] for j in range(0, calls("pre")))',
        'bound as a tagged union': 'only("pre", "def_tagged") and calls("def_tagged") == 1 and result is call("def_tagged", 0).ret and call("def_tagged", 0).schema is schema and alike(call("def_tagged", 0).ctx, ctx)'},
        params={'schema': 'TagSchema'}, raises=DEFERR, props=('C20', 'C06'), requires=[],
        invs=['calls("pre") == K', 'all(call("pre", j).ret[0]["type"] == "model" and not call("pre", j).ret[0]["root_model"] for j in range(0, K))', 'alike(_S, ctx)'])
    mod('is_instance', 'f_isinst', {'elements stay raw, other classes are primitive': 'only("f_raw", "f_primitive") and calls("f_raw") + calls("f_primitive") == 1 and '
        'implies(calls("f_raw") == 1, call("f_raw", 0).schema is schema and call("f_raw", 0).ctx is ctx and result is call("f_raw", 0).ret) and '
        'implies(calls("f_primitive") == 1, call("f_primitive", 0).schema is schema and call("f_primitive", 0).ctx is ctx and result is call("f_primitive", 0).ret)'}, raises=MEN, props=('C20', 'C17'))
    mod('call', 'f_call', {'named tuples': to('f_nt')}, raises=DEFERR, params={'schema': 'CallSchema'}, exc_ensures={'ModelError': {'other calls are refused': 'only() or only("f_nt")'}})
