"""Contracts of xml declarations (fields.py) and of what models make of them at definition time."""
FI = 'pydantic_xml.fields:'
F = 'pydantic_xml.serializers.factories.'
MO = F + 'model:'


def register(R):
    R.cls('Meta', None)
    R.cls('XInfo', FI + 'XmlEntityInfo', parent='EInfo')
    R.cls('CXInfo', FI + 'ComputedXmlEntityInfo', parent='EInfo')
    R.cls('FInfo', None, fields={'metadata': 'Seq[Meta]'})
    R.skip_calls.add('pydantic_xml.utils:register_nsmap')
    R.opaque_consts['pydantic_xml.config.REGISTER_NS_PREFIXES'] = 'Bool'

    # ---- merging: each attribute comes from the last declaration that gives it
    ND = ('C21',)
    n = 'len(entity_infos)'

    # lastof(k, n): the last of the first n declarations whose map has the prefix k (-1: none)
    R.ghosts['lastof'] = {'sig': ['V', 'Int', 'Int']}
    R.macro('decl', 'k j', 'entity_infos[j].nsmap is not None and k in entity_infos[j].nsmap')

    def nsm(dst, cnt):
        return (f'all(({dst} is not None and k in {dst}) == (lastof(k, {cnt}) >= 0) and implies(lastof(k, {cnt}) >= 0, {dst}[k] == entity_infos[lastof(k, {cnt})].nsmap[k]) for k in values_())')

    def lst(cnt):
        return {'within the declarations': f'all(lastof(k, {cnt}) >= -1 and lastof(k, {cnt}) < {cnt} for k in values_())',
                'which has the prefix': f'all(implies(lastof(k, {cnt}) >= 0, decl(k, lastof(k, {cnt}))) for k in values_())',
                'and no later one does': f'all(implies(i > lastof(k, {cnt}), not decl(k, i)) for k in values_() for i in range(0, {cnt}))'}
    FS = ('location', 'path', 'ns', 'nillable', 'wrapped')
    for f in FS:  # by_f(n): the last of the first n declarations that gives the attribute f (-1: none)
        R.ghosts['by_' + f] = {'sig': ['Int', 'Int']}

    def val(f, cnt, dst):
        return f'{dst} == (entity_infos[by_{f}({cnt})].{f} if by_{f}({cnt}) >= 0 else None)'

    def given(f, cnt):
        return (f'by_{f}({cnt}) >= -1 and by_{f}({cnt}) < {cnt} and implies(by_{f}({cnt}) >= 0, entity_infos[by_{f}({cnt})].{f} is not None) and '
                f'all(entity_infos[i].{f} is None for i in range(by_{f}({cnt}) + 1, {cnt}))')
    R.fn(FI + 'XmlEntityInfo.merge', {'entity_infos': 'Seq[EInfo]'}, 'XInfo', props=ND, allocates=True, event='merge', ensures={
        **{f'{f} is that of the last declaration giving it': val(f, n, 'result.' + f) + ' and ' + given(f, n) for f in FS},
        'namespace maps are merged, entries of the last declaration win': nsm('result.nsmap', n),
        **{'namespace maps are merged, entries of the last declaration win, ' + k: v for k, v in lst(n).items()}},
        ghostdef=['all(lastof(k, 0) == -1 for k in values_())', f'all(lastof(k, j + 1) == (j if decl(k, j) else lastof(k, j)) for k in values_() for j in range(0, {n}))',
                  *[f'by_{f}(0) == -1' for f in FS], *[f'all(by_{f}(j + 1) == (j if entity_infos[j].{f} is not None else by_{f}(j)) for j in range(0, {n}))' for f in FS]],
        invs=[*[given(f, 'K') for f in FS], *[val(f, 'K', h) for f, h in zip(FS, ('_V1', '_V2', '_V2', '_V3', '_V4'))], *lst('K').values(), nsm('_V5', 'K'), nsm('_D', 'K')],
        holes={'_V1': 'EntityLocation', '_V2': 'Str', '_V3': 'Bool', '_V4': 'EInfo', '_V5': 'Map[Any,Str]'})

    R.spec_names['XmlEntityInfo'] = 'pydantic_xml.fields.XmlEntityInfo'
    md = 'field_info.metadata'
    isx = f'isinstance({md}[j], XmlEntityInfo)'
    infos = 'call("merge", 0).entity_infos'
    some = f'any({isx} for j in range(0, len({md})))'
    R.fn(FI + 'extract_field_xml_entity_info', {'field_info': 'FInfo'}, 'Opt[EInfo]', props=ND, allocates=True, event='extract', ensures={
        'no declaration, no entity': f'implies(not {some}, result is None and only())',
        'the xml declarations of the field are merged': f'implies({some}, only("merge") and calls("merge") == 1 and result is call("merge", 0).ret)',
        'all of them': f'implies({some}, all(implies({isx}, any({infos}[i] is {md}[j] for i in range(0, len({infos})))) for j in range(0, len({md}))))',
        'and nothing else': f'implies({some}, all(any({isx} and {infos}[i] is {md}[j] for j in range(0, len({md}))) for i in range(0, len({infos}))))',
        'in order': f'implies({some}, all(implies(i < h, any({isx} and isinstance({md}[l], XmlEntityInfo) and j < l and {infos}[i] is {md}[j] and {infos}[h] is {md}[l] '
                    f'for j in range(0, len({md})) for l in range(0, len({md})))) for i in range(0, len({infos})) for h in range(0, len({infos}))))'})

    # ---- models at definition time
    DEFERR = {'ModelError': None, 'ModelFieldError': None, 'TypeError': None, 'AssertionError': None, 'KeyError': None}
    DEF = {'cls': 'class', 'schema': 'Schema', 'ctx': 'Ctx'}
    R.cls('Deco', None, fields={'info': 'Any'})
    R.cls('Decos', None, fields={'computed_fields': 'Map[Str,Deco]'})
    m = "schema['cls']"
    own = f'{m}.__xml_nsmap__'
    tag = f'({m}.__xml_tag__ or {m}.__name__)'
    top = {
        'the model is kept': f'result._model is {m} and result._nsmap == {own}',
        'the root is named by its tag or class': f'implies({own} is None or len({own}) == 0, result._element_name == {tag})',
        'in the namespace of the model': f'implies({own} is not None and len({own}) > 0 and {m}.__xml_ns__ is not None, result._element_name == qualified({own}[{m}.__xml_ns__], {tag}))',
        'unprefixed in its default namespace': f"implies({own} is not None and len({own}) > 0 and {m}.__xml_ns__ is None, result._element_name == qualified({own}.get(''), {tag}))",
        'inputs are hidden as the model or its user asks': f'result._hide_input_in_errors == {m}.model_config.get("hide_input_in_errors", ctx.hide_input_in_errors)'}
    hide = f'{m}.model_config.get("hide_input_in_errors", ctx.hide_input_in_errors)'
    pc = 'call("parse", {j}).ctx'
    kid = (f'{pc}.parent_ctx is ctx and inherits({pc}, ctx) and {pc}.hide_input_in_errors == {hide}')
    R.fn(MO + 'RootModelSerializer.from_core_schema', {**DEF, 'schema': 'RootSchema'}, 'MRoot', props=('C12', 'C19', 'C20', 'C21'), event='def_mroot', allocates=True, raises=DEFERR, ensures={
        **top, 'the root is bound by its type and its own declaration': f'only("extract", "parse") and calls("extract") == 1 and calls("parse") == 1 and call("extract", 0).field_info is {m}.model_fields["root"] and '
            'call("parse", 0).schema is schema["schema"] and call("parse", 0).ctx.entity_info is call("extract", 0).ret and result._root_serializer is call("parse", 0).ret and '
            + kid.format(j=0) + ' and call("parse", 0).ctx.field_name is None and call("parse", 0).ctx.field_alias == ctx.field_alias and call("parse", 0).ctx.field_computed == ctx.field_computed'})

    # core(s): the schema of the fields below the before-validators of s; nb(j): how many of the first j fields are bound to xml
    R.ghosts['core'] = {'sig': ['V', 'V'], 'ret': 'FieldsSchema'}
    R.ghosts['fpos'] = {'sig': ['V', 'Int']}
    R.ghosts['cidx'] = {'sig': ['V', 'Int']}
    R.ghosts['nb'] = {'sig': ['Int', 'Int']}
    fs = "core(schema['schema'])['fields']"
    cs = "core(schema['schema'])['computed_fields']"
    R.macro('fname', 'j', f'key({fs}, j)')
    R.macro('finfo', 'j', f'{m}.model_fields[fname(j)]')
    R.macro('fbound', 'j', 'NoXml not in finfo(j).metadata')
    R.macro('fsch', 'j', f'{fs}[fname(j)]')
    R.macro('cname', 'j', f"{cs}[j]['property_name']")
    R.macro('cinfo', 'j', f'{m}.__pydantic_decorators__.computed_fields[cname(j)].info')
    R.spec_names['ComputedXmlEntityInfo'] = 'pydantic_xml.fields.ComputedXmlEntityInfo'
    R.spec_names['NoXml'] = 'pydantic_xml.fields.NoXml'
    nf, nc = f'len({fs})', f'len({cs})'
    R.macro('field_ok', 'j', 'call("extract", nb(j)).field_info is finfo(j) and call("parse", nb(j)).schema is fsch(j)["schema"] and call("parse", nb(j)).ctx.entity_info is call("extract", nb(j)).ret and '
            + kid.format(j='nb(j)') + ' and call("parse", nb(j)).ctx.field_name == fname(j) and call("parse", nb(j)).ctx.field_alias == fsch(j).get("serialization_alias") and '
            'call("parse", nb(j)).ctx.field_computed == ctx.field_computed')
    cj = f'(nb({nf}) + j)'
    R.macro('ci', 'j', f'j - nb({nf})')
    R.macro('comp_ok', 'j', f'call("parse", j).schema is {cs}[ci(j)]["return_schema"] and ' + kid.format(j='j') + ' and call("parse", j).ctx.field_computed and '
            f'call("parse", j).ctx.field_name == cname(ci(j)) and call("parse", j).ctx.field_alias == {cs}[ci(j)].get("alias")')
    R.macro('distinct', 'x', f'all(cidx(cname(j)) == j and cname(j) not in {fs} for j in range(0, {nc}))')  # cidx: any function telling computed fields apart
    fok = lambda n: f'all(implies(fbound(j), 0 <= nb(j) and nb(j) < nb({n}) and field_ok(j)) for j in range(0, {n}))'
    fser = lambda n, d: f'all(implies(fbound(j), fname(j) in {d} and {d}[fname(j)] is call("parse", nb(j)).ret and key({d}, nb(j)) == fname(j)) for j in range(0, {n}))'
    R.macro('comp_info', 'j', f'call("parse", j).ctx.entity_info is (cinfo(ci(j)) if isinstance(cinfo(ci(j)), ComputedXmlEntityInfo) else None)')
    cok = lambda n: f'all(comp_ok(j) for j in range(nb({nf}), nb({nf}) + {n}))'
    cin = lambda n: f'all(comp_info(j) for j in range(nb({nf}), nb({nf}) + {n}))'
    known = lambda n, d: f'all(implies(k in {d}, 0 <= fpos(k) and fpos(k) < {n} and fname(fpos(k)) == k) for k in values_())'
    cknown = lambda n, d: f'all(implies(k in {d}, k in {fs} or (0 <= cidx(k) and cidx(k) < {n} and cname(cidx(k)) == k)) for k in values_())'
    cser = lambda n, d: f'all(cname(j) in {d} and {d}[cname(j)] is call("parse", {cj}).ret and key({d}, {cj}) == cname(j) for j in range(0, {n}))'
    R.macro('excluded', 'j', 'bool(fsch(j).get("serialization_exclude", False))')
    R.macro('aliased', 'j', 'bool(fsch(j).get("validation_alias")) and isinstance(fsch(j).get("validation_alias"), str)')
    excl = lambda n, d: f'all(implies(fbound(j), (fname(j) in {d}) == excluded(j)) for j in range(0, {n}))'
    alia = lambda n, d: f'all(implies(fbound(j), (fname(j) in {d}) == (aliased(j)) and implies(aliased(j), {d}[fname(j)] == fsch(j).get("validation_alias"))) for j in range(0, {n}))'
    R.fn(MO + 'ModelSerializer.from_core_schema', {**DEF, 'schema': 'MSchema'}, 'MModel', props=('C12', 'C18', 'C20', 'C21'), event='def_mmodel', allocates=True, raises=DEFERR, cost=3, ensures={
        **top, 'as many bindings as there are bound and computed fields': f'calls("extract") == nb({nf}) and calls("parse") == nb({nf}) + {nc} and only("extract", "parse")',
        'every field not hidden from xml is bound by its type and its own declaration, in order': fok(nf),
        'every computed field is bound by its type and its own declaration, write only': cok(nc),
        'computed fields are bound by their own declaration': cin(nc),
        'bound fields excluded from serialization are not written': excl(nf, 'result._fields_serialization_exclude') + ' and ' + known(nf, 'result._fields_serialization_exclude'),
        'bound fields are validated under their aliases': alia(nf, 'result._fields_validation_aliases') + ' and ' + known(nf, 'result._fields_validation_aliases'),
        'fields are read and written by their own bindings, in declaration order': f'implies(distinct(0), {fser(nf, "result._field_serializers")})',
        'computed fields follow, in order': f'implies(distinct(0), {cser(nc, "result._field_serializers")})',
        'nothing else is bound': f'implies(distinct(0), len(result._field_serializers) == nb({nf}) + {nc})'},
        ghostdef=["all(core(s) is (core(s['schema']) if s['type'] == 'function-before' else s) for s in values_('FieldsSchema'))",
                  'nb(0) == 0', f'all(fpos(fname(j)) == j for j in range(0, {nf}))', f'all(nb(j + 1) == nb(j) + (1 if fbound(j) else 0) for j in range(0, {nf}))'],
        invs=["core(_V) is core(schema['schema'])", 'calls("extract") == nb(K)', 'calls("parse") == nb(K)', 'nb(K) >= 0', fok('K'), fser('K', '_D9'), known('K', '_D9'), known('K', '_D8'), excl('K', '_D8'), alia('K', '_D9'), cin('K'), f'implies(distinct(0), {cknown("K", "_D9")})', 'len(_D9) == nb(K)',
              f'calls("extract") == nb({nf})', f'calls("parse") == nb({nf}) + K', f'nb({nf}) >= 0', fok(nf), cok('K'),
              f'implies(distinct(0), {fser(nf, "_D9")})', f'implies(distinct(0), {cser("K", "_D9")})', f'implies(distinct(0), len(_D9) == nb({nf}) + K)'],
        holes={'_D9': 'Dict[Any,Any]', '_D8': 'Set[Any]'})

    # ---- tagged unions at definition time
    for n in ('primitive.AttributeSerializer', 'model.ModelSerializer', 'model.ModelProxySerializer'):
        R.spec_names[n.split('.')[1]] = F + n
    R.macro('tag', 'j', "key(schema['choices'], j)")
    R.macro('proxy', 'j', "cast(call('parse', j).ret, 'MProxy')")
    R.macro('disc', 'j', "cast(proxy(j)._model.__xml_serializer__, 'MModel')._field_serializers.get(schema['discriminator'])")
    nt = "len(schema['choices'])"
    alts = lambda n: f"all(call('parse', j).schema is schema['choices'][tag(j)] and call('parse', j).ctx is ctx for j in range(0, {n}))"
    under = lambda n, d: f"all(tag(j) in {d} and {d}[tag(j)] is call('parse', j).ret and key({d}, j) == tag(j) for j in range(0, {n}))"
    same = lambda n, a: f"all(isinstance(disc(j), AttributeSerializer) and cast(disc(j), 'PAttr')._attr_name == {a} for j in range(0, {n}))"
    kinds = lambda n: (f"all(isinstance(tag(j), str) and isinstance(call('parse', j).ret, ModelProxySerializer) and isinstance(proxy(j)._model.__xml_serializer__, ModelSerializer) for j in range(0, {n}))")
    R.fn(F + 'tagged_union:ModelSerializer.from_core_schema', {**DEF, 'schema': 'TagSchema'}, 'TUnion', props=('C06', 'C20'), event='def_tagged', allocates=True, raises=DEFERR, ensures={
        'computed fields are write only': 'result._computed == ctx.field_computed', 'the search mode is that of the model': 'result._search_mode == ctx.search_mode',
        'every alternative is bound by its own type': f"only('parse') and calls('parse') == {nt} and " + alts(nt),
        'under its own tag, in order': under(nt, 'result._inner_serializers') + f' and len(result._inner_serializers) == {nt}',
        'alternatives are models with string tags': kinds(nt),
        'the discriminator is one attribute of all alternatives': f"{nt} > 0 and isinstance(schema['discriminator'], str) and result._discriminator == schema['discriminator'] and " + same(nt, 'result._discriminating_attr_name')},
        invs=["calls('parse') == K", alts('K'), under('K', '_D'), 'len(_D) == K', 'all(implies(k in _D, 0 <= tpos(k) and tpos(k) < K and tag(tpos(k)) == k) for k in values_())', kinds('K'),
              'implies(K > 0, _V is not None)', 'implies(K == 0, _V is None)', f"implies(K > 0, {same('K', '_V')})"],
        ghostdef=[f'all(tpos(tag(j)) == j for j in range(0, {nt}))'])
    R.ghosts['tpos'] = {'sig': ['V', 'Int']}
