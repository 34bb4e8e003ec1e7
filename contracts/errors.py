"""Contracts of error reporting: merging, locating and attributing validation errors."""
U = 'pydantic_xml.utils:'


def register(R):
    # what pydantic keeps in and shows of a validation error (assumed)
    R.cls('ErrD', None, fields={'[type]': 'Str', '[msg]': 'Str', '[loc]': 'Seq[Any]', '[input]': 'Any', '[ctx]': 'Any'})
    R.cls('CustErr', None, fields={'type': 'Str', 'message': 'Str', 'context': 'Any'})
    R.cls('LineErr', None, fields={'type': 'CustErr', 'loc': 'Seq[Any]', 'input': 'Any'})
    R.im('verr_errors', {'self': 'VErr'}, 'Seq[ErrD]', recv='self', pure=True, ensures={'the reported ones': 'result == self.errs'})
    R.im('pydantic_core.PydanticCustomError', {'type': 'Str', 'message': 'Str', 'context': 'Any'}, 'CustErr', ensures={
        'as given': 'result.type == type and result.message == message and result.context is context'})
    R.im('pydantic_core.InitErrorDetails', {'type': 'CustErr', 'loc': 'Seq[Any]', 'input': 'Any'}, 'LineErr', ensures={
        'as given': 'result.type is type and result.loc == loc and result.input is input'})
    R.im('pydantic.ValidationError.from_exception_data', {'title': 'Str', 'line_errors': 'Seq[LineErr]', 'input_type': 'Str', 'hide_input': 'Bool'}, 'VErr', defaults={
        'input_type': 'python', 'hide_input': False}, ensures={'as given': 'result.title == title and result.lines == line_errors and result.hidden == hide_input'})

    # ---- errors of named parts: off(j) of them come before those of the j-th part, own(h) is the part of the h-th
    R.ghosts['off'] = {'sig': ['Int', 'Int']}
    R.ghosts['own'] = {'sig': ['Int', 'Int']}
    R.macro('part', 'j', 'old(key(errors_map, j))')
    R.macro('perr', 'j', 'old(errors_map[key(errors_map, j)]).errs')
    n = 'old(len(errors_map))'
    R.macro('lerr', 'h', 'perr(own(h))[h - off(own(h))]')
    R.macro('kept', 'l e', "l.type.type == e['type'] and l.type.message == e['msg'] and l.type.context is e.get('ctx') and l.input is e['input']")
    R.macro('within', 'l k e', "(len(l.loc) == len(e['loc']) + 1 and l.loc[0] == k and all(l.loc[i + 1] == e['loc'][i] for i in range(0, len(e['loc'])))) if k is not None else l.loc == e['loc']")
    placed = lambda c: f'all(0 <= own(h) and own(h) < {n} and off(own(h)) <= h and h < off(own(h)) + len(perr(own(h))) for h in range(0, {c}))'
    kept = lambda l, c: f'all(kept({l}[h], lerr(h)) for h in range(0, {c}))'
    loc = lambda l, c: f'all(within({l}[h], part(own(h)), lerr(h)) for h in range(0, {c}))'
    R.fn(U + 'into_validation_error', {'title': 'Str', 'errors_map': 'Dict[Any,VErr]', 'hide_input': 'Bool'}, 'VErr', event='into_validation_error', props=('C14', 'C07', 'C08', 'C05'),
         modifies=['errors_map{*}'], allocates=True, ensures={
             'title and hiding as asked': 'result.title == title and result.hidden == hide_input',
             'as many errors as all parts have': f'len(result.lines) == off({n})',
             'in the order of the parts, then as in the part': placed(f'off({n})'),
             'type, message, context and input are kept': kept('result.lines', f'off({n})'),
             'the location is that within the part, after the name of the part': loc('result.lines', f'off({n})')},
         ghostdef=['off(0) == 0', f'all(off(j + 1) == off(j) + len(perr(j)) for j in range(0, {n}))',
                   f'all(own(h) == j for j in range(0, {n}) for h in range(off(j), off(j) + len(perr(j))))'],
         invs=['@0 len(_L) == off(K)', '@0 off(K) >= 0', '@0 all(off(j) <= off(K) for j in range(0, K))', *['@0 ' + x for x in (placed('off(K)'), kept('_L', 'off(K)'), loc('_L', 'off(K)'))],
               '@1 len(_L) == off(K0) + K', *['@1 ' + x for x in (placed('off(K0) + K'), kept('_L', 'off(K0) + K'), loc('_L', 'off(K0) + K'))],
               f'@0 all(part(j) in errors_map and errors_map[part(j)] is old(errors_map[key(errors_map, j)]) for j in range(K, {n}))'])

    # ---- attributing errors to source lines: that of the longest prefix of the location with a known line (-1 if none)
    R.ghosts['nearest'] = {'sig': ['V', 'Int']}
    said = lambda l, e: f"{l}.type.type == {e}['type'] and {l}.loc == {e}['loc'] and {l}.input is {e}['input'] and {l}.type.message == '[line {{sourceline}}]: {{orig}}'"
    ctx = lambda l, e: f"cast({l}.type.context, 'Dict[Str,Any]')['orig'] == {e}['msg'] and cast({l}.type.context, 'Dict[Str,Any]')['sourceline'] == nearest({e}['loc'])"
    R.fn(U + 'set_validation_error_sourceline', {'err': 'VErr', 'sourcemap': 'Dict[Any,Int]', 'hide_input': 'Bool'}, 'VErr', event='set_sourceline', props=('C14',), allocates=True, ensures={
             'title and hiding as asked': 'result.title == err.title and result.hidden == hide_input',
             'as many errors as before': 'len(result.lines) == len(err.errs)',
             'type, location and input are kept, the message is prefixed with the line': f"all({said('result.lines[h]', 'err.errs[h]')} for h in range(0, len(err.errs)))",
             'the line is the one of the closest located ancestor, the text the original message': f"all({ctx('result.lines[h]', 'err.errs[h]')} for h in range(0, len(err.errs)))"},
         ghostdef=["all(nearest(l) == (sourcemap.get(l, -1) if sourcemap.get(l, -1) != -1 or len(l) == 0 else nearest(l[:-1])) for l in values_('Seq[Any]'))"],
         invs=['@0 len(_L) == K', f"@0 all({said('_L[h]', 'err.errs[h]')} for h in range(0, K))", f"@0 all({ctx('_L[h]', 'err.errs[h]')} for h in range(0, K))",
               "@0 all(known(_L[h].type.context) for h in range(0, K))", "@1 nearest(_V) == nearest(err.errs[K0]['loc'])", '@1 _I == sourcemap.get(_V, -1)'])

    # ---- unbound items of an element and everything below it (unb names what get_unbound yields in the one state its callers use it in)
    UNB = 'Seq[Tup[Seq[XmlElement],Opt[Str],Str]]'
    R.ghosts['unb'] = {'sig': ['V', 'V', 'V'], 'ret': UNB}
    R.ghosts['uoff'] = {'sig': ['Int', 'Int']}
    R.ghosts['uown'] = {'sig': ['Int', 'Int']}
    S = 'self._state'
    for g in ('nt', 'nl', 'na', 'nown'):
        R.ghosts[g] = {'sig': ['Int']}
    R.macro('below', 'j', f'unb({S}.elements[j], path + ({S}.elements[j],))')
    n = f'len({S}.elements)'
    as_item = lambda r: f"cast({r}, 'Tup[Seq[XmlElement],Opt[Str],Str]')"
    item = lambda r, p, a, v: f'{as_item(r)}[0] == {p} and {as_item(r)}[1] {a} and {as_item(r)}[2] == {v}'
    attr = lambda L, c: f"all({item(L + '[h]', 'path', f'== key({S}.attrib, h - nt() - nl())', f'{S}.attrib[key({S}.attrib, h - nt() - nl())]')} for h in range(nt() + nl(), nt() + nl() + {c}))"
    own = lambda L: {
        'non-blank text is reported, stripped': f"implies(nt() == 1, {item(L + '[0]', 'path', 'is None', S + '.text.strip()')})",
        'non-blank trailing text is reported, stripped': f"implies(nl() == 1, {item(L + '[nt()]', 'path', 'is None', S + '.tail.strip()')})"}
    every = lambda L: {'every attribute is reported': f"implies(na() != 0, {attr(L, 'na()')})"}
    kids = lambda L, c: {
        'every further item belongs to one child, in order': f'all(0 <= uown(h) and uown(h) < {c} and uoff(uown(h)) <= h and h < uoff(uown(h)) + len(below(uown(h))) for h in range(nown(), uoff({c})))',
        'and is what the child reports with the path extended by it': f'all({L}[h] == below(uown(h))[h - uoff(uown(h))] for h in range(nown(), uoff({c})))'}
    R.fn('pydantic_xml.element.element:XmlElement.get_unbound', {'self': 'XmlElement', 'path': 'Seq[XmlElement]'}, UNB, event='get_unbound', props=('C04',), named=True, cost=9,
         defaults={'path': ()}, ghostdef=[
             f'nt() == (1 if {S}.text and {S}.text.strip() != "" else 0)', f'nl() == (1 if {S}.tail and {S}.tail.strip() != "" else 0)',
             f'na() == (len({S}.attrib) if {S}.attrib is not None else 0)', 'nown() == nt() + nl() + na()',
             f'uoff(0) == nown()', f'all(uoff(j + 1) == uoff(j) + len(below(j)) for j in range(0, {n}))',
             f'all(uown(h) == j for j in range(0, {n}) for h in range(uoff(j), uoff(j) + len(below(j))))'],
         invs=['len(_L) == nt() + nl() + K', attr('_L', 'K'), 'len(_L) == uoff(K)', 'uoff(K) >= nown()', 'all(uoff(j) <= uoff(K) for j in range(0, K))', *own('_L').values(), *every('_L').values(), *kids('_L', 'K').values()],
         ensures={'as many items as the element and its children have': f'len(result) == uoff({n})', **own('result'), **every('result'), **kids('result', n)},
         defines={'name of the result': 'result == unb(self, path)'})
    # ---- forbidden extras
    last = lambda p: f'({p}[len({p}) - 1] if len({p}) != 0 else element)'
    u = 'call("get_unbound", 0).ret'
    ll = lambda l, i: (f"{l}.type.type == 'extra_forbidden' and {l}.type.message == '[line {{sourceline}}]: {{orig}}' and {l}.input == {i}[2] and "
                       f"cast({l}.type.context, 'Dict[Str,Any]')['orig'] == 'Extra inputs are not permitted' and cast({l}.type.context, 'Dict[Str,Any]')['sourceline'] == lineof({last(i + '[0]')})")
    lo = lambda l, i: (f"len({l}.loc) == len({i}[0]) + (1 if {i}[1] else 0) and all({l}.loc[i] == {i}[0][i]._tag for i in range(0, len({i}[0]))) and "
                       f"implies({i}[1], {l}.loc[len({i}[0])] == '@' + {i}[1])")
    R.fn('pydantic_xml.serializers.factories.model:BaseModelSerializer._check_extra', {'cls': 'Any', 'error_title': 'Str', 'element': 'XmlElement', 'hide_input_in_errors': 'Bool'}, event='check_extra',
         light=True, props=('C04', 'C14'), ensures={
             'the element is inspected as a whole, once': 'calls("get_unbound") == 1 and call("get_unbound", 0).self is element and len(call("get_unbound", 0).path) == 0',
             'nothing unbound is left': f'len({u}) == 0'},
         raises={'ValidationError': None}, exc_ensures={'ValidationError': {
             'the element is inspected as a whole, once': 'calls("get_unbound") == 1 and call("get_unbound", 0).self is element and len(call("get_unbound", 0).path) == 0',
             'titled and hiding inputs as asked': "cast(exc, 'VErr').title == error_title and cast(exc, 'VErr').hidden == hide_input_in_errors",
             'something is unbound': f'len({u}) != 0',
             'every unbound item is reported once, in order': f"len(cast(exc, 'VErr').lines) == len({u})",
             'with its value and the line of its element': f"all({ll(chr(99) + 'ast(exc, ' + repr('VErr') + ').lines[h]', u + '[h]')} for h in range(0, len({u})))",
             'located by the path of element names and the attribute': f"all({lo('cast(exc, ' + repr('VErr') + ').lines[h]', u + '[h]')} for h in range(0, len({u})))"}},
         invs=['len(_L) == K', f"all({ll('_L[h]', u + '[h]')} for h in range(0, K))", f"all({lo('_L[h]', u + '[h]')} for h in range(0, K))", "all(known(_L[h].type.context) for h in range(0, K))"])
