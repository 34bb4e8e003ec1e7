"""Contracts of the definition phase: names and namespaces, contexts, choice of serializers."""
from pyvc import lib

SER = 'pydantic_xml.serializers.serializer'
F = 'pydantic_xml.serializers.factories.'
U = 'pydantic_xml.utils'
C = SER + ':Serializer.Context'


def register(R):
    lib.register(R)
    R.cls('EInfo', 'pydantic_xml.fields:XmlEntityInfo', fields={
        'location': 'Opt[EntityLocation]', 'path': 'Opt[Str]', 'ns': 'Opt[Str]', 'nsmap': 'Opt[Map[Any,Str]]', 'nillable': 'Opt[Bool]', 'wrapped': 'Opt[EInfo]'})
    R.enums['EntityLocation'] = ('int', {'ELEMENT': 1, 'ATTRIBUTE': 2, 'WRAPPED': 3})
    R.alias_by_key['pydantic_xml.typedefs:EntityLocation'] = 'EntityLocation'
    R.spec_names['EntityLocation'] = 'pydantic_xml.typedefs.EntityLocation'
    R.cls('Ctx', C, fields={
        'model_name': 'Str', 'field_name': 'Opt[Str]', 'field_alias': 'Opt[Str]', 'field_computed': 'Bool', 'entity_info': 'Opt[EInfo]',
        'namespaced_attrs': 'Bool', 'search_mode': 'SearchMode', 'optional': 'Bool', 'has_default': 'Bool', 'definitions': 'Map[Str,Schema]',
        'hide_input_in_errors': 'Bool', 'parent_ctx': 'Opt[Ctx]'})

    # ---- namespaces
    N = ('C12',)
    R.fn(U + ':select_ns', {'nss': 'Seq[Opt[Str]]'}, 'Opt[Str]', pure=True, props=N, ensures={
        'the first given namespace wins': 'all(implies(nss[j] is not None and all(nss[i] is None for i in range(0, j)), result == nss[j]) for j in range(0, len(nss)))',
        'none given is none': 'implies(all(nss[j] is None for j in range(0, len(nss))), result is None)',
        'of two the first given wins': 'implies(len(nss) == 2, result == (nss[0] if nss[0] is not None else nss[1]))',
        'of three the first given wins': 'implies(len(nss) == 3, result == (nss[0] if nss[0] is not None else (nss[1] if nss[1] is not None else nss[2])))'},
        invs=['all(nss[j] is None for j in range(0, K))'])
    declared = 'maps[{j}] is not None and k in maps[{j}]'
    R.fn(U + ':merge_nsmaps', {'maps': 'Seq[Opt[Map[Any,Str]]]'}, 'Map[Any,Str]', pure=True, props=N + ('C21',), ensures={
        'a prefix is declared when some map declares it': f'all((k in result) == any({declared.format(j="j")} for j in range(0, len(maps))) for k in values_())',
        'the first map declaring a prefix wins': f'all(all(implies({declared.format(j="j")} and all(not ({declared.format(j="i")}) for i in range(0, j)), result[k] == maps[j][k]) '
                                               'for j in range(0, len(maps))) for k in values_())',
        'of two maps the first wins': f'implies(len(maps) == 2, all((k in result) == (({declared.format(j=0)}) or ({declared.format(j=1)})) and '
                                      f'implies(k in result, result[k] == (maps[0][k] if ({declared.format(j=0)}) else maps[1][k])) for k in values_()))',
        'of three maps the first wins': f'implies(len(maps) == 3, all((k in result) == (({declared.format(j=0)}) or ({declared.format(j=1)}) or ({declared.format(j=2)})) and '
                                        f'implies(k in result, result[k] == (maps[0][k] if ({declared.format(j=0)}) else (maps[1][k] if ({declared.format(j=1)}) else maps[2][k]))) for k in values_()))',
        'of three maps empty when all are': 'implies(len(maps) == 3, (len(result) == 0) == all(maps[j] is None or len(maps[j]) == 0 for j in range(0, 3)))',
        'of two maps empty when both are': 'implies(len(maps) == 2, (len(result) == 0) == ((maps[0] is None or len(maps[0]) == 0) and (maps[1] is None or len(maps[1]) == 0)))'})
    R.fn(U + ':QName.from_alias', {'cls': 'class', 'tag': 'Str', 'ns': 'Opt[Str]', 'nsmap': 'Opt[Map[Any,Str]]', 'is_attr': 'Bool'}, 'QName', props=N + ('C16',), allocates=True,
         raises={'ModelError': 'ns is not None and nsmap is not None and len(nsmap) > 0 and ns not in nsmap'}, ensures={
             'the tag is kept': 'result.tag == tag',
             'an explicit prefix is resolved by the map': 'implies(ns is not None and nsmap is not None and len(nsmap) > 0, result.ns == nsmap[ns])',
             'without a map there is no namespace': 'implies(nsmap is None or len(nsmap) == 0, result.ns is None)',
             'an unprefixed element is in the default namespace': "implies(ns is None and not is_attr and nsmap is not None and len(nsmap) > 0, result.ns == nsmap.get(''))",
             'an unprefixed attribute is in no namespace': 'implies(ns is None and is_attr, result.ns is None)'})
    R.fn(C + '.parent_ns', {'self': 'Ctx'}, 'Opt[Str]', pure=True, props=N, ensures={
        'the top has none': 'implies(self.parent_ctx is None, result is None)',
        'the nearest enclosing namespace': 'implies(self.parent_ctx is not None, result == (self.parent_ctx.entity_ns if self.parent_ctx.entity_ns is not None else self.parent_ctx.parent_ns))'})
    pm = 'self.parent_ctx.parent_nsmap'
    em = 'self.parent_ctx.entity_nsmap'
    R.fn(C + '.parent_nsmap', {'self': 'Ctx'}, 'Opt[Map[Any,Str]]', pure=True, props=N, ensures={
        'the top has none': 'iff(self.parent_ctx is None, result is None)',
        'prefixes of all enclosing scopes': f'implies(self.parent_ctx is not None, all((k in result) == (({em} is not None and k in {em}) or ({pm} is not None and k in {pm})) for k in values_()))',
        'the inner scope wins': f'implies(self.parent_ctx is not None, all(implies(k in result, result[k] == ({em}[k] if {em} is not None and k in {em} else {pm}[k])) for k in values_()))'})

    # ---- naming of bound entities
    own, par = 'ctx.entity_nsmap is not None and k in ctx.entity_nsmap', 'ctx.parent_nsmap is not None and k in ctx.parent_nsmap'
    R.macro('declared', 'k', f'({own}) or ({par})')
    R.macro('uri_of', 'k', f'ctx.entity_nsmap[k] if ({own}) else ctx.parent_nsmap[k]')
    R.macro('scoped', 'x', '(ctx.entity_nsmap is not None and len(ctx.entity_nsmap) > 0) or (ctx.parent_nsmap is not None and len(ctx.parent_nsmap) > 0)')
    R.macro('ent_name', 'x', 'ctx.entity_path or ctx.field_alias or ctx.field_name')
    R.macro('el_ns', 'x', 'ctx.entity_ns if ctx.entity_ns is not None else ctx.parent_ns')
    R.macro('at_ns', 'x', 'ctx.entity_ns if ctx.entity_ns is not None else (ctx.parent_ns if ctx.namespaced_attrs else None)')
    R.macro('qualified', 'u n', 'f"{{{cast(u, \'Str\')}}}{cast(n, \'Str\')}" if u is not None and bool(u) else n')
    R.macro('el_qname', 'n', "n if not scoped(0) else (qualified(uri_of(el_ns(0)), n) if el_ns(0) is not None else (qualified(uri_of(''), n) if declared('') else n))")
    R.macro('at_qname', 'n', 'n if not scoped(0) or at_ns(0) is None else qualified(uri_of(at_ns(0)), n)')
    scope = lambda f: {'the namespaces in scope are those of the field and of what encloses it':
                       f'all((k in {f}) == (declared(k)) and implies(k in {f}, {f}[k] == uri_of(k)) for k in values_())'}
    DEF = {'cls': 'class', 'schema': 'Schema', 'ctx': 'Ctx'}
    undeclared = 'scoped(0) and {ns} is not None and not declared({ns})'
    noname = 'ent_name(0) is None'
    comp = {'computed fields are write only': 'result._computed == ctx.field_computed'}
    mode = {'the search mode is that of the model': 'result._search_mode == ctx.search_mode'}
    P = F + 'primitive:'
    NC = ('C12', 'C20')
    R.fn(P + 'TextSerializer.from_core_schema', DEF, 'PText', props=('C20', 'C11', 'C18'), event='def_text', allocates=True, ensures={
        **comp, 'nillable as declared': 'result._nillable == ctx.nillable'})
    R.fn(P + 'AttributeSerializer.from_core_schema', DEF, 'PAttr', props=NC, event='def_attr', allocates=True,
         raises={'ModelFieldError': f"(at_ns(0)) == '' or {noname}",
                 'ModelError': f"not ((at_ns(0)) == '' or {noname}) and " + undeclared.format(ns='(at_ns(0))')}, ensures={
             **comp, 'the attribute is named by path, alias or field and its own namespace, the enclosing one only when the model asks for it':
                 'result._attr_name == at_qname(ent_name(0))'})
    elem_err = {'ModelFieldError': noname, 'ModelError': f'not ({noname}) and ' + undeclared.format(ns='(el_ns(0))')}
    def el_named(f, n='ent_name(0)', pre='True'):
        return {
            'the element is named by path, alias or field when no namespace is in scope': f'implies({pre} and not scoped(0), {f} == ({n}))',
            'the element is named in its own or the enclosing namespace': f'implies({pre} and scoped(0) and el_ns(0) is not None, {f} == qualified(result._nsmap[el_ns(0)], {n}))',
            'an unprefixed element is named in the default namespace in scope': f"implies({pre} and scoped(0) and el_ns(0) is None and declared(''), {f} == qualified(result._nsmap[''], {n}))",
            'an unprefixed element without a default namespace has a plain name': f"implies({pre} and scoped(0) and el_ns(0) is None and not declared(''), {f} == ({n}))"}
    named = el_named('result._element_name')
    R.fn(P + 'ElementSerializer.from_core_schema', DEF, 'PElem', props=NC + ('C01',), event='def_elem', allocates=True, raises=elem_err, ensures={
        **comp, **mode, **named, **scope('result._nsmap'), 'nillable as declared': 'result._nillable == ctx.nillable'})
    MP = F + 'mapping:'
    R.fn(MP + 'AttributesSerializer.from_core_schema', DEF, 'MapAttr', props=NC + ('C16',), event='def_mapattr', allocates=True, ensures={
        **comp, **scope('result._nsmap'), 'keys are in the namespace of the element': 'result._ns == el_ns(0) and result._namespaced_attrs == ctx.namespaced_attrs'})
    R.fn(MP + 'ElementSerializer.from_core_schema', DEF, 'MapElem', props=NC + ('C16', 'C01'), event='def_mapelem', allocates=True, raises=elem_err, ensures={
        **comp, **mode, **named, **scope('result._nsmap'), 'keys are in the namespace of the element': 'result._ns == el_ns(0) and result._namespaced_attrs == ctx.namespaced_attrs'})
    R.fn(F + 'raw:ElementSerializer.from_core_schema', DEF, 'Raw', props=NC + ('C17', 'C01'), event='def_raw', allocates=True, raises=elem_err, ensures={
        **comp, **mode, **named, **scope('result._nsmap')})

    # ---- wrapper path: every step is named in the namespace of the wrapping declaration
    DEFERR = {'ModelError': None, 'ModelFieldError': None, 'TypeError': None, 'AssertionError': None, 'KeyError': None}
    parts = "ctx.entity_path.split('/')"
    R.fn(F + 'wrapper:ElementPathSerializer.from_core_schema', DEF, 'Wrap', props=('C09', 'C12', 'C20'), event='def_wrap', allocates=True, raises=DEFERR, ensures={
        **comp, **mode, **scope('result._nsmap'),
        'one step per part of the path': f'ctx.entity_path is not None and len(result._path) == len({parts}) and len(result._path) >= 1',
        'steps are plainly named when no namespace is in scope': f'implies(not scoped(0), all(result._path[j] == {parts}[j] for j in range(0, len(result._path))))',
        'steps are named in the namespace of the wrapping declaration': f'implies(scoped(0) and el_ns(0) is not None, all(result._path[j] == qualified(result._nsmap[el_ns(0)], {parts}[j]) for j in range(0, len(result._path))))',
        'unprefixed steps are named in the default namespace in scope': f"implies(scoped(0) and el_ns(0) is None and declared(''), all(result._path[j] == qualified(result._nsmap[''], {parts}[j]) for j in range(0, len(result._path))))",
        'unprefixed steps without a default namespace have plain names': f"implies(scoped(0) and el_ns(0) is None and not declared(''), all(result._path[j] == {parts}[j] for j in range(0, len(result._path))))",
        'what is wrapped is bound by its own declaration, inside': 'only("parse") and calls("parse") == 1 and call("parse", 0).schema is schema and call("parse", 0).ctx.entity_info == ctx.entity_wrapped and '
            'call("parse", 0).ctx.parent_ctx is ctx and inherits(call("parse", 0).ctx, ctx) and call("parse", 0).ctx.field_name == ctx.field_name and call("parse", 0).ctx.field_alias == ctx.field_alias and '
            'call("parse", 0).ctx.field_computed == ctx.field_computed and call("parse", 0).ctx.hide_input_in_errors == ctx.hide_input_in_errors and result._inner_serializer is call("parse", 0).ret'},
         invs=['len(_L) == K', f"implies(scoped(0) and el_ns(0) is None and declared(''), all(_L[j] == qualified(uri_of(''), {parts}[j]) for j in range(0, K)))",
               f"implies(scoped(0) and el_ns(0) is None and not declared(''), all(_L[j] == {parts}[j] for j in range(0, K)))",
               'implies(K > 0 and scoped(0) and el_ns(0) is not None, declared(el_ns(0)))', f'implies(not scoped(0), all(_L[j] == {parts}[j] for j in range(0, K)))',
               f'implies(scoped(0) and el_ns(0) is not None, all(_L[j] == qualified(uri_of(el_ns(0)), {parts}[j]) for j in range(0, K)))'])
    R.macro('inherits', 'a b', 'a.model_name == b.model_name and a.namespaced_attrs == b.namespaced_attrs and a.search_mode == b.search_mode and a.definitions == b.definitions')

    # ---- collections, tuples: the item readers are those of the item types, in the same place
    from_ctx = {'computed, named and hidden as the field': 'result._computed == ctx.field_computed and result._model_name == ctx.model_name and result._hide_input_in_errors == ctx.hide_input_in_errors'}
    p1 = 'only("parse") and calls("parse") == {n} and all(call("parse", j).schema is {s} and call("parse", j).ctx is ctx for j in range(0, {n}))'
    pinv = ['calls("parse") == K', 'all(call("parse", j).schema is {s} and call("parse", j).ctx is ctx for j in range(0, K))', 'len(_L) == K', 'all(_L[j] is call("parse", j).ret for j in range(0, K))']
    inner = 'len({f}) == calls("parse") and all({f}[j] is call("parse", j).ret for j in range(0, len({f})))'
    hs = "(cast(schema['items_schema'], 'List[Schema]')[0] if isinstance(schema['items_schema'], list) else schema['items_schema'])"
    R.fn(F + 'homogeneous:ElementSerializer.from_core_schema', {**DEF, 'schema': 'HomoSchema'}, 'Homo', props=('C20', 'C07'), event='def_homo', allocates=True, raises=DEFERR, ensures={
        **from_ctx, 'items are bound by the item type': p1.format(n=1, s=hs) + ' and result._inner_serializer is call("parse", 0).ret'})
    it = 'schema["items_schema"][j]'
    R.fn(F + 'heterogeneous:ElementSerializer.from_core_schema', {**DEF, 'schema': 'TupSchema'}, 'Hetero', props=('C20', 'C08'), event='def_het', allocates=True, raises=DEFERR, ensures={
        **from_ctx, 'every component is bound by its own type, in order': p1.format(n='len(schema["items_schema"])', s=it) + ' and ' + inner.format(f='result._inner_serializers')},
        invs=[x.format(s=it) for x in pinv])
    it = 'schema["arguments_schema"][j]["schema"]'
    R.fn(F + 'named_tuple:ElementSerializer.from_core_schema', {**DEF, 'schema': 'ArgsSchema'}, 'NTuple', props=('C20', 'C08'), event='def_nt', allocates=True, raises=DEFERR, ensures={
        **{k: v.replace('result.', 'result._inner_serializer.') for k, v in from_ctx.items()},
        'every component is bound by its own type, in order': p1.format(n='len(schema["arguments_schema"])', s=it) + ' and ' + inner.format(f='result._inner_serializer._inner_serializers')},
        invs=[x.format(s=it) for x in pinv])

    # ---- unions
    choice = "(cast(schema['choices'][j], 'Tup[Schema,Any]')[0] if isinstance(schema['choices'][j], tuple) else schema['choices'][j])"
    US = {**DEF, 'schema': 'UnionSchema'}
    n = "len(schema['choices'])"
    R.fn(F + 'union:PrimitiveTypeSerializer.from_core_schema', US, 'UPrim', props=('C20', 'C05'), event='def_uprim', allocates=True, raises=DEFERR, ensures={
        **comp, 'every alternative is looked at': p1.format(n=n, s=choice), 'the alternatives share one binding': 'calls("parse") > 0 and result._inner_serializer is call("parse", 0).ret and '
            'all(classof(call("parse", j).ret) == classof(call("parse", 0).ret) for j in range(0, calls("parse")))'},
        invs=[x.format(s=choice) for x in pinv])
    R.fn(F + 'union:ModelSerializer.from_core_schema', US, 'UModel', props=('C20', 'C05'), event='def_umodel', allocates=True, raises=DEFERR, ensures={
        **from_ctx, 'the alternatives are the declared ones, in order': 'calls("parse") > 0 and ' + p1.format(n=n, s=choice) + ' and ' + inner.format(f='result._inner_serializers')},
        invs=[x.format(s=choice) for x in pinv])

    # ---- models
    m = "schema['cls']"
    mdecl = f"{m}.__xml_nsmap__ is not None and k in {m}.__xml_nsmap__"
    R.macro('mdeclared', 'k', f'({own}) or ({mdecl}) or ({par})')
    R.macro('muri_of', 'k', f'ctx.entity_nsmap[k] if ({own}) else ({m}.__xml_nsmap__[k] if ({mdecl}) else ctx.parent_nsmap[k])')
    R.macro('mscoped', 'x', f'(ctx.entity_nsmap is not None and len(ctx.entity_nsmap) > 0) or ({m}.__xml_nsmap__ is not None and len({m}.__xml_nsmap__) > 0) or (ctx.parent_nsmap is not None and len(ctx.parent_nsmap) > 0)')
    R.macro('m_name', 'x', f'ctx.entity_path or {m}.__xml_tag__ or ctx.field_alias or ctx.field_name or {m}.__name__')
    R.macro('m_ns', 'x', f'ctx.entity_ns if ctx.entity_ns is not None else ({m}.__xml_ns__ if {m}.__xml_ns__ is not None else ctx.parent_ns)')
    M = F + 'model:'
    f, n = 'result._element_name', 'm_name(0)'
    R.fn(M + 'ModelProxySerializer.from_core_schema', {**DEF, 'schema': 'MSchema'}, 'MProxy', props=('C12', 'C20', 'C01'), event='def_mproxy', allocates=True,
         raises={'AssertionError': None, 'ModelError': 'mscoped(0) and m_ns(0) is not None and not mdeclared(m_ns(0))'}, ensures={
             **comp, **mode, 'nillable as declared': 'result._nillable == ctx.nillable', 'of the model': f'result._model is {m}',
             'the namespaces in scope are those of the field, the model and what encloses them':
                 'all((k in result._nsmap) == (mdeclared(k)) and implies(k in result._nsmap, result._nsmap[k] == (muri_of(k))) for k in values_())',
             'a sub-model is named by path, tag, alias, field or model': f'implies(not mscoped(0), {f} == ({n}))',
             'in the namespace of the field, the model or what encloses it': f'implies(mscoped(0) and m_ns(0) is not None, {f} == qualified(result._nsmap[m_ns(0)], {n}))',
             'unprefixed it is in the default namespace in scope': f"implies(mscoped(0) and m_ns(0) is None and mdeclared(''), {f} == qualified(result._nsmap[''], {n}))",
             'unprefixed without a default namespace it is plainly named': f"implies(mscoped(0) and m_ns(0) is None and not mdeclared(''), {f} == ({n}))"})
