"""Contracts and the typed view of the repository's (and its dependencies') objects."""
from .terms import parse_type


class Contract:
    def __init__(self, key, params, ret='None', requires=(), ensures=None, raises=None, exact=None, exc_ensures=None,
                 modifies=None, tree_arg=None, let=None, invs=(), at=None, ghost_dead=(), ghost_ref=(), allocates=False, tree=False,
                 pure=False, inline=False, event=None, recv=None, defaults=None, varkw=False, handler=None, prop=False,
                 props=(), defines=None, short=None, trusted=False, post=None, own=(), note='', cost=0, light=False, ghostdef=(), holes=None, named=False):
        self.key = key
        self.short = short or key.split(':')[-1]
        self.params = dict(params)
        self.ret = ret
        self.requires = list(requires)
        self.ensures = dict(ensures or {})
        self.raises = dict(raises or {})
        self.exact = dict(exact or {})
        self.exc_ensures = dict(exc_ensures or {})
        self.modifies = modifies
        self.tree_arg = tree_arg
        self.let = dict(let or {})
        self.invs = list(invs)
        self.at = dict(at or {})
        self.ghost_dead = list(ghost_dead)
        self.ghost_ref = list(ghost_ref)
        self.allocates = allocates
        self.tree = tree
        self.pure = pure
        self.inline = inline
        self.event = event
        self.recv = recv
        self.defaults = dict(defaults or {})
        self.varkw = varkw
        self.handler = handler
        self.prop = prop
        self.props = tuple(props)          # properties this contract belongs to
        self.defines = dict(defines or {})  # ghost facts introduced by definition (assumed at call sites only)
        self.trusted = trusted
        self.post = post                   # extra verification hook
        self.own = tuple(own)              # parameters handed over (children / dicts): existing objects
        self.note = note
        self.cost = cost
        self.ghostdef = list(ghostdef)     # recursive definitions of ghost functions (conservative)
        self.named = named                 # callers are only told the name (`defines`) of the result
        self.holes = dict(holes or {})     # declared types of the holes of loop invariants
        self.light = light                 # client of the element tree (see Calls.light)


class Registry:
    def __init__(self):
        self.schema, self.families, self.enums, self.alias_by_key = {}, [], {}, {}
        self.ext_consts, self.opaque_consts = {}, {}
        self.contracts, self.imeths, self.events = {}, {}, {}
        self.exc_types, self.exc_alias, self.exc_bases = {}, {}, {}
        self.ext_handlers, self.constructors = {}, {}
        self.setattr_hook = self.getattr_hook = None
        self.skip_calls = set()
        self.macros, self.ghosts, self.spec_calls, self.spec_names = {}, {}, {}, {}
        self.assumptions = []
        self.reading = set()               # recorded operations that change nothing

    def cls(self, alias, cls=None, kind='frozen', fields=None, family=None, parent=None, methods=None, call=None):
        fam = family or (self.schema[parent]['family'] if parent else alias)
        self.schema[alias] = {'kind': kind, 'fields': dict(fields or {}), 'family': fam, 'cls': cls,
                              'parent': parent, 'methods': dict(methods or {})}
        if call:
            self.schema[alias]['call'] = call
        if fam not in self.families:
            self.families.append(fam)
        if cls:
            self.alias_by_key[cls] = alias

    def fn(self, key, params, ret='None', **kw):
        c = self.contracts[key] = Contract(key, params, ret, **kw)
        if c.event:
            self.events[c.event] = c
        return c

    def im(self, name, params, ret='None', **kw):
        c = Contract(name, params, ret, **kw)
        self.imeths[name] = c
        if c.event:
            self.events[c.event] = c
        return c

    def macro(self, name, params, body):
        self.macros[name] = (params.split(), body)
