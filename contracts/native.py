"""Contracts of the conversion between native element trees and the internal one (element/native/{lxml,std}.py)."""
N = 'pydantic_xml.element.native.'


def register(R):
    R.cls('NatNode', None, fields={'tag': 'Any', 'text': 'Opt[Str]', 'tail': 'Opt[Str]', 'sourceline': 'Opt[Int]', 'attrib': 'Map[Str,Str]', 'kids': 'Seq[NatNode]'})
    R.schema['NatNode']['iter'] = 'kids'
    R.ghosts['nk'] = {'sig': ['Int', 'Int']}
    R.ghosts['ntx'] = {'sig': ['Int', 'V'], 'ret': 'Opt[Str]'}
    R.ghosts['ntl'] = {'sig': ['Int', 'V'], 'ret': 'Opt[Str]'}
    R.ghosts['ntp'] = {'sig': ['Int', 'V'], 'ret': 'Opt[Str]'}
    R.ghosts['ntext'] = {'sig': ['V', 'V'], 'ret': 'Opt[Str]'}
    kid = 'element.kids[j]'
    n = 'len(element.kids)'
    joined = lambda a, b: f"(({a} or '') + {b})"
    sep = lambda k, l: (f'all(alive({l}[j]) for j in range(0, nk({k})))', f'all(known({l}[j]) and known({l}[j]._state) for j in range(0, nk({k})))', f'all(fresh({l}[j]) for j in range(0, nk({k})))', f'all(fresh({l}[j]._state) for j in range(0, nk({k})))',
                        f'all(all(implies(i != j, {l}[i] is not {l}[j]) for i in range(0, nk({k}))) for j in range(0, nk({k})))',
                        f'all(all(implies(i != j, {l}[i]._state is not {l}[j]._state) for i in range(0, nk({k}))) for j in range(0, nk({k})))',
                        f'all({l}[h]._state is not {l}[nk({k}) - 1]._state for h in range(0, nk({k}) - 1))')
    placed = lambda k, l: (f'all(implies(not skipped({kid}), 0 <= nk(j) and nk(j) < nk({k}) and call("nat_from", nk(j)).element is {kid} and '
                           f'{l}[nk(j)] is call("nat_from", nk(j)).ret) for j in range(0, {k}))')
    texts = lambda k, l: f'all(implies(not skipped({kid}), {l}[nk(j)]._state.text == ntext({kid})) for j in range(0, {k}))'
    itails = lambda k, l: (f'all({l}[h]._state.tail == ntp(h) for h in range(0, nk({k}) - 1))', f'implies(nk({k}) > 0, {l}[nk({k}) - 1]._state.tail == ntl({k}))')
    tails = lambda k, l: (f'all(implies(not skipped({kid}) and nk(j) > 0, {l}[nk(j) - 1]._state.tail == ntl(j)) for j in range(0, {k}))',
                          f'implies(nk({k}) > 0, {l}[nk({k}) - 1]._state.tail == ntl({k}))')
    for m, sk in (('lxml', '(isinstance(e, etree._Comment) or isinstance(e, etree._ProcessingInstruction))'), ('std', '(e.tag is etree.Comment or e.tag is etree.ProcessingInstruction)')):
        K = f'{N}{m}:'
        skip = lambda x: x.replace('skipped(', f'skipped_{m}(')
        R.macro(f'skipped_{m}', 'e', sk.replace('etree', f'etree_{m}'))
        R.spec_names[f'etree_{m}'] = {'lxml': 'lxml.etree', 'std': 'xml.etree.ElementTree'}[m]
        R.alias_by_key[K + 'XmlElement'] = 'XmlElement'
        R.fn(K + 'XmlElement.from_native', {'cls': 'class', 'element': 'NatNode'}, 'XmlElement', tree=True, allocates=True, props=('C17', 'C14'), event='nat_from',
             requires=[skip('not skipped(element)')],
             ghostdef=[skip(x) for x in (
                 'nk(0) == 0', f'all(nk(j + 1) == nk(j) + (0 if skipped({kid}) else 1) for j in range(0, {n}))',
                 'ntx(0) == element.text', f'all(ntx(j + 1) == ({joined("ntx(j)", kid + ".tail")} if skipped({kid}) and {kid}.tail and nk(j) == 0 else ntx(j)) for j in range(0, {n}))',
                 f'all(ntl(j + 1) == ({kid}.tail if not skipped({kid}) else ({joined("ntl(j)", kid + ".tail")} if {kid}.tail and nk(j) > 0 else ntl(j))) for j in range(0, {n}))',
                 f'all(implies(not skipped({kid}) and nk(j) > 0, ntp(nk(j) - 1) == ntl(j)) for j in range(0, {n}))',
                 'all(implies(not skipped(x), isinstance(x.tag, str)) for x in values_("NatNode"))')],
             defines={'name of the text': 'result._state.text == ntext(element)'},
             ensures={k: skip(x) for k, x in {
                 'a new element': 'fresh(result) and unref(result) and fresh(result._state)', 'name': 'result._tag == element.tag', 'trailing text': 'result._state.tail == element.tail',
                 'attributes': 'result._state.attrib is not None and dict(result._state.attrib) == dict(element.attrib)',
                 'text, continued by what follows skipped nodes before the first child': f'result._state.text == ntx({n})',
                 'every element below is converted once, in order': f'calls("nat_from") == nk({n}) and len(result._state.elements) == nk({n}) and {placed(n, "result._state.elements")}',
                 'the text following a skipped node continues that of the child before it': ' and '.join(tails(n, 'result._state.elements')),
                 'nothing else is changed in the children': texts(n, 'result._state.elements'),
                 'the read position is at the first child': 'result._state.next_element_idx == 0',
                 'line': 'result._sourceline == ' + ('(element.sourceline if element.sourceline is not None else -1)' if m == 'lxml' else '-1')}.items()},
             invs=[skip(x) for x in ('nk(K) >= 0', 'calls("nat_from") == nk(K)', 'len(_L) == nk(K)', '_V == ntx(K)', *sep('K', '_L'), placed('K', '_L'), *itails('K', '_L'), texts('K', '_L'))],
             holes={'_V': 'Str'})

    # ---- the way back
    R.cls('NatOut', None, kind='heap', fields={'text': 'Opt[Str]', 'tail': 'Opt[Str]', 'kids': 'Seq[Any]'}, methods={'extend': 'nat_extend', 'append': 'nat_append'})
    R.im('nat_extend', {'self': 'NatOut', 'elements': 'Seq[Any]'}, recv='self', tree=True, modifies=['self.kids'], ensures={
        'appended': 'len(self.kids) == old(len(self.kids)) + len(elements) and all(self.kids[j] is old(self.kids)[j] for j in range(0, old(len(self.kids)))) and '
                    'all(self.kids[old(len(self.kids)) + j] is elements[j] for j in range(0, len(elements)))'})
    R.im('nat_append', {'self': 'NatOut', 'element': 'Any'}, recv='self', tree=True, modifies=['self.kids'], ensures={
        'appended': 'len(self.kids) == old(len(self.kids)) + 1 and all(self.kids[j] is old(self.kids)[j] for j in range(0, old(len(self.kids)))) and self.kids[old(len(self.kids))] is element'})
    new = {'new': 'fresh(result) and len(result.kids) == 0 and result.text is None and result.tail is None'}
    R.im('lxml.etree.Element', {'_tag': 'Str', 'attrib': 'Opt[Map[Str,Str]]', 'nsmap': 'Opt[Map[Any,Str]]'}, 'NatOut', event='new_lxml', tree=True, allocates=True, ensures=new)
    R.im('xml.etree.ElementTree.Element', {'tag': 'Str', 'attrib': 'Opt[Map[Str,Str]]'}, 'NatOut', event='new_std', tree=True, allocates=True, ensures=new)
    for m in ('lxml', 'std'):
        at, st, ns = f'call("new_{m}", 0).attrib', 'self._state.attrib', f'call("new_{m}", 0).nsmap'
        tg = '_tag' if m == 'lxml' else 'tag'
        extra = {} if m == 'std' else {
            'namespaces': f'implies(self._nsmap is not None and len(self._nsmap) > 0 and all(implies(k in self._nsmap, k is None or isinstance(k, str)) for k in values_()), {ns} is not None and all((k in {ns}) == (k is None and ("" in self._nsmap or None in self._nsmap) or k is not None and k != "" and k in self._nsmap) for k in values_()) '
                          f'and all(implies(k in {ns} and k is not None, {ns}[k] == self._nsmap[k]) for k in values_()))',
            'no namespaces': f'implies(self._nsmap is None or len(self._nsmap) == 0, {ns} is None or len({ns}) == 0)'}
        R.fn(f'{N}{m}:XmlElement.to_native', {'self': 'XmlElement'}, 'NatOut', tree=True, allocates=True, props=('C17',), ensures={
            'a new native element': f'fresh(result) and calls("new_{m}") == 1 and result is call("new_{m}", 0).ret',
            'name': f'call("new_{m}", 0).{tg} == self._tag',
            'attributes': f'all(({at} is not None and k in {at}) == ({st} is not None and k in {st}) and implies({at} is not None and k in {at}, {at}[k] == {st}.get(k)) for k in values_("Str"))',
            **extra, 'text and trailing text': 'result.text == self._state.text and result.tail == self._state.tail',
            'every child is converted once, in order': 'calls("to_native") == len(self._state.elements) and len(result.kids) == len(self._state.elements) and '
                'all(call("to_native", j).self is self._state.elements[j] and result.kids[j] is call("to_native", j).ret for j in range(0, len(self._state.elements)))'},
             invs=['calls("to_native") == K', 'all(call("to_native", j).self is self._state.elements[j] for j in range(0, K))',
                   f'calls("new_{m}") == 1', f'len(call("new_{m}", 0).ret.kids) == K', f'all(call("new_{m}", 0).ret.kids[j] is call("to_native", j).ret for j in range(0, K))',
                   f'call("new_{m}", 0).ret.text == self._state.text', f'call("new_{m}", 0).ret.tail == self._state.tail'])
    for m in ('lxml', 'std'):
        R.fn(f'{N}{m}:XmlElement.make_element', {'self': 'XmlElement', 'tag': 'Str', 'nsmap': 'Opt[Map[Any,Str]]'}, 'XmlElement', tree=True, allocates=True,
             props=('C03', 'C12', 'C17'), ensures={
                 **R.imeths['make_element'].ensures,
                 **({'the prefixes given are declared': '(nsmap is None and result._nsmap is None) or (nsmap is not None and result._nsmap is not None and dict(result._nsmap) == dict(nsmap))'} if m == 'lxml' else {})})
        R.fn(f'{N}{m}:XmlElement.get_sourceline', {'self': 'XmlElement'}, 'Int', tree=True, props=('C14',), ensures={
            'the line read from the document' if m == 'lxml' else 'the standard library reports no lines': 'result == self._sourceline' if m == 'lxml' else 'result == -1'})
