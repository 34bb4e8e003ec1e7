"""An independent reference interpreter of the documented xml binding, used as the oracle of the scenario suites.

It works on plain trees (N) and on small binding descriptions; it shares no code with the library.  `differential`
generates models, values and documents at random and compares the library with it."""
import types
import typing
from typing import Dict, List, Optional, Tuple, Union

import pydantic as pd

from .lib import BACKEND, LXML, MODES, SearchMode, eq, etree, px, true

NIL = '{http://www.w3.org/2001/XMLSchema-instance}nil'


# ---------------------------------------------------------------------------------------------------- trees
class N:
    def __init__(self, tag, text=None, tail=None, attrib=None, kids=(), line=-1):
        self.tag, self.text, self.tail, self.attrib, self.kids, self.pos, self.line = tag, text, tail, dict(attrib or {}), list(kids), 0, line

    @classmethod
    def of(cls, e):
        line = getattr(e, 'sourceline', None) if LXML else -1
        return cls(e.tag, e.text, e.tail, dict(e.attrib), [cls.of(k) for k in e], -1 if line is None else line)

    def copy(self):
        n = N(self.tag, self.text, self.tail, self.attrib, [k.copy() for k in self.kids], self.line)
        n.pos = self.pos
        return n

    def become(self, o):
        self.text, self.tail, self.attrib, self.kids, self.pos = o.text, o.tail, o.attrib, o.kids, o.pos

    def empty(self):
        return not (self.text or self.tail or self.attrib or self.kids)

    def search(self, tag, mode, behind=False, step=True):
        if behind and self.pos and self.kids[self.pos - 1].tag == tag:
            return self.kids[self.pos - 1]
        if mode == SearchMode.STRICT:
            hits = [self.pos] if self.pos < len(self.kids) and self.kids[self.pos].tag == tag else []
        else:
            hits = [i for i in range(self.pos, len(self.kids)) if self.kids[i].tag == tag]
        if not hits:
            return None
        h = self.kids[hits[0]]
        if mode == SearchMode.UNORDERED:
            self.kids[hits[0]], self.kids[self.pos] = self.kids[self.pos], h
            self.pos += step
        elif step:
            self.pos = hits[0] + 1
        return h

    def nil(self):
        return self.attrib.pop(NIL, None) == 'true'

    def unbound(self, path=()):
        out = [(path, v.strip(), self.line) for v in (self.text, self.tail) if v and v.strip()]
        out += [(path + ('@' + a,), v, self.line) for a, v in self.attrib.items()]
        for k in self.kids:
            out += k.unbound(path + (k.tag,))
        return out

    def xml(self):
        e = etree.Element(self.tag, dict(self.attrib))
        e.text, e.tail = self.text, self.tail
        for k in self.kids:
            e.append(k.xml())
        return e

    def canon(self):
        return (self.tag, dict(self.attrib), self.text or '', [(k.canon(), k.tail or '') for k in self.kids])

    def add(self, k):
        self.kids.append(k)
        self.pos = len(self.kids)


def native_canon(e):
    return (e.tag, dict(e.attrib), e.text or '', [(native_canon(k), k.tail or '') for k in e])


class Bad(Exception):
    """Validation errors: [(loc, type, message, line, input)]; line is None for those not attributed yet."""

    def __init__(self, title, errs):
        self.title, self.errs = title, errs

    def under(self, loc):
        return [((loc, *l), t, m, ln, i) for l, t, m, ln, i in self.errs]


class Opts:
    def __init__(self, skip_empty=False, exclude_none=False, exclude_unset=False):
        self.skip_empty, self.exclude_none, self.exclude_unset = skip_empty, exclude_none, exclude_unset

    def kw(self):
        return {'skip_empty': self.skip_empty, 'exclude_none': self.exclude_none, 'exclude_unset': self.exclude_unset}

    def __repr__(self):
        return ','.join(k for k, v in self.kw().items() if v) or 'no flags'


class Rd:
    """What reaches every nested entity when reading."""

    def __init__(self, mode, eas, lines, loc):
        self.mode, self.eas, self.lines, self.loc = mode, eas, lines, loc

    def at(self, i):
        return Rd(self.mode, self.eas, self.lines, self.loc + (i,))


def text_of(v):
    return '' if v is None else str(v).lower() if isinstance(v, bool) else str(v)


# ---------------------------------------------------------------------------------------------------- primitive types
class P:
    def __init__(self, kind, opt=False):
        self.kind, self.opt = kind, opt

    def ann(self):
        t = {'int': int, 'str': str, 'bool': bool}[self.kind]
        return Optional[t] if self.opt else t

    def gen(self, rng):
        if self.opt and rng.random() < .3:
            return None
        return {'int': rng.choice([0, 1, -7, 42]), 'str': rng.choice(['', 'a', ' b ', '0', 'é<&>"']), 'bool': rng.random() < .5}[self.kind]

    def check(self, raw):
        """-> (value, error type)"""
        if raw is None:
            return (None, None) if self.opt else (None, {'int': 'int_type', 'str': 'string_type', 'bool': 'bool_type'}[self.kind])
        if self.kind == 'str':
            return raw, None
        if self.kind == 'int':
            t = raw.strip()
            if t.lstrip('+-').isdigit() and t.isascii():
                return int(t), None
            return None, 'int_parsing'
        if raw in ('true', '1', 'True'):
            return True, None
        if raw in ('false', '0', 'False'):
            return False, None
        return None, 'bool_parsing'


# ---------------------------------------------------------------------------------------------------- bindings
class Bind:
    def named(self, name):
        """The field's alias or name, used by sub-models that have no name of their own."""

    def validate(self, raw):
        """-> (value, [(loc, type, input)]) of a raw non-missing value"""
        raise NotImplementedError


class Prim(Bind):
    def __init__(self, p, nillable=False):
        self.p, self.nillable = p, nillable

    def ann(self):
        return self.p.ann()

    def gen(self, rng):
        return self.p.gen(rng)

    def validate(self, raw):
        v, e = self.p.check(raw)
        return v, [((), e, raw)] if e else []

    def tags(self):
        return []


class Attr(Prim):
    def __init__(self, p, name):
        super().__init__(p)
        self.name = name

    def info(self):
        return dict(kind='attr', name=self.name)

    def read(self, n, rd):
        return n.attrib.pop(self.name, None)

    def write(self, n, v, o):
        if v is None and (o.skip_empty or o.exclude_none):
            return
        n.attrib[self.name] = text_of(v)


class Text(Prim):
    def info(self):
        return None

    def read(self, n, rd):
        if self.nillable and n.nil():
            return None
        t, n.text = n.text, None
        return t or ('' if rd.eas else None)

    def write(self, n, v, o):
        if v is None and (o.skip_empty or o.exclude_none):
            return
        if self.nillable and v is None:
            n.attrib[NIL] = 'true'
        n.text = text_of(v)


class Elem(Text):
    def __init__(self, p, tag, nillable=False):
        super().__init__(p, nillable)
        self.tag = tag

    def info(self):
        return dict(kind='element', tag=self.tag, nillable=self.nillable)

    def tags(self):
        return [self.tag]

    def read(self, n, rd):
        k = n.search(self.tag, rd.mode)
        if k is None:
            return None
        rd.lines[rd.loc] = k.line
        return Text.read(self, k, rd)

    def write(self, n, v, o):
        if v is None and (o.skip_empty or o.exclude_none):
            return
        k = N(self.tag)
        Text.write(self, k, v, o)
        if not (o.skip_empty and k.empty()):
            n.add(k)


class Sub(Bind):
    def __init__(self, m, tag=None, nillable=False, opt=True):
        self.m, self.tag, self.nillable, self.opt = m, tag or m.owntag, nillable, opt
        self.explicit = tag

    def named(self, name):
        self.tag = self.explicit or self.m.owntag or name

    def ann(self):
        return Optional[self.m.cls] if self.opt else self.m.cls

    def info(self):
        return dict(kind='element', tag=self.explicit, nillable=self.nillable) if self.explicit or self.nillable else None

    def tags(self):
        return [self.tag] + self.m.alltags()

    def gen(self, rng):
        return None if self.opt and rng.random() < .25 else self.m.gen(rng)

    def validate(self, raw):
        return raw, []

    def read(self, n, rd):
        k = n.search(self.tag, rd.mode)
        if k is None:
            return None
        rd.lines[rd.loc] = k.line
        if k.nil():
            return None
        return self.m.read(k, rd.eas)

    def write(self, n, v, o):
        if v is None:
            if self.nillable and not o.exclude_none:
                n.add(N(self.tag, attrib={NIL: 'true'}))
            return
        k = N(self.tag)
        self.m.write(k, v, o)
        if not (o.skip_empty and k.empty()):
            n.add(k)


class ListOf(Bind):
    def __init__(self, item, opt=True):
        self.item, self.opt = item, opt

    def named(self, name):
        self.item.named(name)

    def ann(self):
        return Optional[List[self.item.ann()]] if self.opt else List[self.item.ann()]

    def info(self):
        return self.item.info()

    def tags(self):
        return self.item.tags()

    def gen(self, rng):
        return None if self.opt and rng.random() < .2 else [self.item.gen(rng) for _ in range(rng.choice([0, 1, 2, 3]))]

    def validate(self, raw):
        vals, errs = [], []
        for i, r in enumerate(raw):
            v, e = self.item.validate(r)
            vals.append(v)
            errs += [((i, *l), t, inp) for l, t, inp in e]
        return vals, errs

    def read(self, n, rd):
        out, errs, i = [], [], 0
        while True:
            try:
                v = self.item.read(n, rd.at(i))
                if v is None:
                    break
                out.append(v)
            except Bad as b:
                errs += b.under(i)
            i += 1
        if errs:
            raise Bad('', errs)
        return out or None

    def write(self, n, v, o):
        for x in v or []:
            if not (o.skip_empty and x is None):
                self.item.write(n, x, o)


class TupleOf(Bind):
    """All components share the field's declaration (the library has one declaration per field)."""

    def __init__(self, items, opt=True):
        self.items, self.opt = items, opt

    def named(self, name):
        for i in self.items:
            i.named(name)

    def ann(self):
        t = Tuple[tuple(i.ann() for i in self.items)]
        return Optional[t] if self.opt else t

    def info(self):
        return self.items[0].info()

    def tags(self):
        return [t for i in self.items for t in i.tags()]

    def gen(self, rng):
        return None if self.opt and rng.random() < .2 else tuple(i.gen(rng) for i in self.items)

    def validate(self, raw):
        vals, errs = [], []
        for i, (b, r) in enumerate(zip(self.items, raw)):
            v, e = b.validate(r)
            vals.append(v)
            errs += [((i, *l), t, inp) for l, t, inp in e]
        return tuple(vals), errs

    def read(self, n, rd):
        out, errs = [], []
        for i, b in enumerate(self.items):
            try:
                out.append(b.read(n, rd.at(i)))
            except Bad as e:
                errs += e.under(i)
        if errs:
            raise Bad('', errs)
        return None if all(v is None for v in out) else out

    def write(self, n, v, o):
        for b, x in zip(self.items, v or ()):
            b.write(n, x, o)


class Wrap(Bind):
    def __init__(self, path, inner):
        self.path, self.inner = path, inner

    def named(self, name):
        self.inner.named(name)

    def ann(self):
        return self.inner.ann()

    def info(self):
        return dict(kind='wrapped', path='/'.join(self.path), inner=self.inner.info())

    def tags(self):
        return list(self.path) + self.inner.tags()

    def gen(self, rng):
        return self.inner.gen(rng)

    def validate(self, raw):
        return self.inner.validate(raw)

    def read(self, n, rd):
        for p in self.path:
            n = n.search(p, rd.mode, behind=True)
            if n is None:
                return None
        rd.lines[rd.loc] = n.line
        return self.inner.read(n, rd)

    def write(self, n, v, o):
        if v is None or (o.skip_empty and hasattr(v, '__len__') and len(v) == 0):
            return
        for p in self.path:
            if not (n.kids and n.kids[-1].tag == p):
                n.add(N(p))
            n = n.kids[-1]
        self.inner.write(n, v, o)


class Mapping(Bind):
    def __init__(self, tag=None, kind='str', opt=True):
        self.tag, self.p, self.opt = tag, P(kind), opt

    def ann(self):
        t = Dict[str, self.p.ann()]
        return Optional[t] if self.opt else t

    def info(self):
        return dict(kind='element', tag=self.tag) if self.tag else None

    def tags(self):
        return [self.tag] if self.tag else []

    def gen(self, rng):
        return None if self.opt and rng.random() < .2 else {k: self.p.gen(rng) for k in 'pqrb' if rng.random() < .5}

    def validate(self, raw):
        out, errs = {}, []
        for k, r in raw.items():
            v, e = self.p.check(r)
            out[k] = v
            if e:
                errs.append(((k,), e, r))
        return out, errs

    def read(self, n, rd):
        if self.tag:
            n = n.search(self.tag, rd.mode)
            if n is None:
                return None
            rd.lines[rd.loc] = n.line
        a, n.attrib = n.attrib, {}
        return a

    def write(self, n, v, o):
        if self.tag:
            if (v is None and (o.skip_empty or o.exclude_none)) or (o.skip_empty and not v):
                return
            k = N(self.tag)
            n.add(k)
            n = k
        if v is not None:
            n.attrib.update({k: text_of(x) for k, x in v.items()})


class UnionOf(Bind):
    def __init__(self, alts, opt=True):
        self.alts, self.opt = alts, opt

    def named(self, name):
        for i in self.alts:
            i.named(name)

    def ann(self):
        t = Union[tuple(a.m.cls for a in self.alts)]
        return Optional[t] if self.opt else t

    def info(self):
        return self.alts[0].info()

    def tags(self):
        return [t for a in self.alts for t in a.tags()]

    def gen(self, rng):
        return None if self.opt and rng.random() < .2 else rng.choice(self.alts).m.gen(rng)

    def validate(self, raw):
        return raw, []

    def read(self, n, rd):
        errs, first = {}, None
        for a in self.alts:
            s = n.copy()
            try:
                v = a.read(s, rd)
                if v is not None:
                    n.become(s)
                    return v
            except Bad as b:
                errs[b.title] = b.under(b.title)
                first = first or s
        if first is not None:
            n.become(first)
            raise Bad('', [e for es in errs.values() for e in es])
        return None

    def write(self, n, v, o):
        if v is None:
            return
        for a in self.alts:
            if type(v) is a.m.cls:
                return a.write(n, v, o)
        raise AssertionError('no alternative')


class Field:
    def __init__(self, name, bind, required=False, default=None, alias=None):
        self.name, self.bind, self.required, self.default, self.alias = name, bind, required, default, alias


def make_info(info, kw):
    if info is None:
        return pd.Field(**kw)
    i = dict(info)
    k = i.pop('kind')
    if k == 'attr':
        return px.attr(name=i['name'], **kw)
    if k == 'element':
        return px.element(tag=i.get('tag'), nillable=i.get('nillable') or None, **kw)
    return px.wrapped(i['path'], make_info(i['inner'], {}) if i['inner'] is not None else None, **kw)


class M:
    """A model: fields in declaration order."""

    def __init__(self, name, fields, tag=None, mode=SearchMode.STRICT, extra='ignore', skip_empty=None):
        self.name, self.fields, self.tag, self.mode, self.extra, self.skip = name, fields, tag or name, mode, extra, skip_empty
        self.owntag = tag
        for f in fields:
            f.bind.named(f.alias or f.name)
        body = {'__annotations__': {}, 'model_config': {'extra': extra}, '__module__': __name__}
        for f in fields:
            kw = {} if f.required else {'default': f.default}
            if f.alias:
                kw['alias'] = f.alias
            body['__annotations__'][f.name] = f.bind.ann()
            body[f.name] = make_info(f.bind.info(), kw)
        kwds = dict(search_mode=mode)
        if tag:
            kwds['tag'] = tag
        if skip_empty is not None:
            kwds['skip_empty'] = skip_empty
        self.cls = types.new_class(name, (px.BaseXmlModel,), kwds, lambda ns: ns.update(body))

    def alltags(self):
        return [t for f in self.fields for t in f.bind.tags()]

    def gen(self, rng):
        kw = {}
        for f in self.fields:
            if f.required or rng.random() < .8:
                kw[f.alias or f.name] = f.bind.gen(rng)
        return self.cls(**kw)

    def write(self, n, v, o):
        o = Opts(o.skip_empty if self.skip is None else self.skip, o.exclude_none, o.exclude_unset)
        for f in self.fields:
            if o.exclude_unset and f.name not in v.model_fields_set:
                continue
            f.bind.write(n, getattr(v, f.name), o)

    def tree(self, v, o):
        n = N(self.tag)
        self.write(n, v, o)
        return n

    def read(self, n, eas=False):
        lines = {(): n.line}
        raw, errs = {}, []
        for f in self.fields:
            loc = (f.alias or f.name,)
            lines[loc] = n.line
            try:
                raw[f.name] = f.bind.read(n, Rd(self.mode, eas, lines, loc))
            except Bad as b:
                errs += b.under(f.name)
        if errs:
            raise Bad(self.name, errs)
        if self.extra == 'forbid':
            u = n.unbound()
            if u:
                raise Bad(self.name, [(p, 'extra_forbidden', None, ln, v) for p, v, ln in u])
        out = {}
        for f in self.fields:
            r, loc = raw[f.name], (f.alias or f.name,)
            if r is None:
                if f.required:
                    errs.append((loc, 'missing', None, self.line(lines, loc), '*'))
                out[f.name] = f.default
                continue
            v, es = f.bind.validate(r)
            out[f.name] = v
            errs += [(loc + l, t, None, self.line(lines, loc + l), i) for l, t, i in es]
        if errs:
            raise Bad(self.name, errs)
        return Obj(self, out)

    @staticmethod
    def line(lines, loc):
        while lines.get(loc, -1) == -1 and loc:
            loc = loc[:-1]
        return lines.get(loc, -1)


class Obj:
    def __init__(self, m, values):
        self.m, self.values = m, values


def plain(v):
    """Comparable form of a parsed value (library instance or reference object)."""
    if isinstance(v, Obj):
        return (v.m.name, {k: plain(x) for k, x in v.values.items()})
    if isinstance(v, pd.BaseModel):
        return (type(v).__name__, {k: plain(getattr(v, k)) for k in type(v).model_fields})
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return (type(v).__name__, v)


def key(e):
    return repr(e)


def error_rows(exc, lines=True):
    out = []
    for e in exc.errors():
        ln = (e.get('ctx') or {}).get('sourceline')
        true('[line %s]: ' % ln in e['msg'], f'message {e["msg"]!r} carries the line {ln}')
        inp = '*' if e['type'] == 'missing' else e['input'].strip() if isinstance(e['input'], str) else e['input']
        out.append((e['loc'], e['type'], ln, inp) if lines else (e['loc'], e['type']))
    return out


def check_read(m, doc, eas=False, ordered=True):
    """The library and the reference agree on the document (native element or text)."""
    root = etree.fromstring(doc) if isinstance(doc, (str, bytes)) else doc
    before = native_canon(root)
    try:
        want, bad = m.read(N.of(root), eas), None
    except Bad as b:
        want, bad = None, b
    src = etree.tostring(root)
    try:
        got = m.cls.from_xml_tree(root, empty_as_string=eas)
    except pd.ValidationError as e:
        true(bad is not None, f'{src}: rejected with {e.errors()}, expected {plain(want) if want else None}')
        g = error_rows(e)
        w = [(l, t, ln, i.strip() if isinstance(i, str) else i) for l, t, _, ln, i in bad.errs]
        if not ordered or m.extra == 'forbid':
            g, w = sorted(g, key=key), sorted(w, key=key)
        eq(g, w, f'errors of {src}')
    else:
        true(bad is None, f'{src}: accepted as {got!r}, expected errors {bad and bad.errs}')
        eq(plain(got), plain(want), f'value of {src}')
    eq(native_canon(root), before, 'the native tree is not modified')


def check_write(m, v, o):
    got = v.to_xml_tree(**o.kw())
    want = m.tree(v, o)
    if native_canon(got) != want.canon():
        raise AssertionError(f'{v!r} with {o!r}: got {etree.tostring(got)}, expected {etree.tostring(want.xml())}')
    return got


TEXTS = ['', '1', '2', 'x', ' ', 'true', '-5']


def mutate(rng, n, tags, attrs=('a', 'b', 'p', NIL)):
    """A random edit of a document somewhere in its tree."""
    all_ = []

    def walk(x):
        all_.append(x)
        for k in x.kids:
            walk(k)
    walk(n)
    x = rng.choice(all_)
    k = rng.random()
    if k < .2 and x.kids:
        x.kids.pop(rng.randrange(len(x.kids)))
    elif k < .4:
        x.kids.insert(rng.randint(0, len(x.kids)), N(rng.choice(tags), rng.choice(TEXTS), rng.choice([None, None, 't', '\n'])))
    elif k < .5 and len(x.kids) > 1:
        i, j = rng.sample(range(len(x.kids)), 2)
        x.kids[i], x.kids[j] = x.kids[j], x.kids[i]
    elif k < .65:
        x.text = rng.choice(TEXTS)
    elif k < .75 and x.kids:
        i = rng.randrange(len(x.kids))
        x.kids.insert(rng.randint(0, len(x.kids)), x.kids[i].copy())
    elif k < .9:
        x.attrib[rng.choice(attrs)] = rng.choice(['true', 'x', '1', ''])
    elif x.attrib:
        x.attrib.pop(rng.choice(list(x.attrib)))


def document(rng, m, edits=3):
    n = m.tree(m.gen(rng), Opts())
    tags = sorted(set(m.alltags())) + ['zz']
    for _ in range(rng.randint(0, edits)):
        mutate(rng, n, tags)
    return n.xml()


def spread(root):
    """Re-parse with every start tag on a line of its own (line breaks inside tags: the content is not changed)."""
    s = etree.tostring(root, encoding='unicode')
    out, q, intag = [], None, False
    for i, c in enumerate(s):
        if intag:
            if q:
                q = None if c == q else q
            elif c in '"\'':
                q = c
            elif c == '>':
                intag = False
                out.append('\n')
        elif c == '<' and s[i + 1] not in '/?!':
            intag = True
        out.append(c)
    return etree.fromstring(''.join(out).replace('/\n>', '\n/>'))


# ---------------------------------------------------------------------------------------------------- random models
class Gen:
    """Random model descriptions made of the given kinds of bindings."""

    def __init__(self, rng, kinds, mode=None, extra='ignore', tags='xyzw', nillable=False, depth=2, skips=False):
        self.skips = skips
        self.rng, self.kinds, self.mode, self.extra, self.tags, self.nillable, self.depth, self.n = rng, kinds, mode, extra, tags, nillable, depth, 0

    def p(self, opt=None):
        return P(self.rng.choice(['int', 'int', 'str', 'bool']), self.rng.random() < .5 if opt is None else opt)

    def model(self, depth=None, top=True, extra=None, skip_empty=None):
        rng, depth = self.rng, self.depth if depth is None else depth
        self.n += 1
        name = f'M{self.n}'
        fields, seen = [], set()
        for i in range(rng.randint(1, 4)):
            kind = rng.choice([k for k in self.kinds if depth > 0 or k in ('attr', 'text', 'elem', 'list', 'tuple', 'wrap', 'delem')] or ['elem'])
            b = self.bind(kind, depth, seen)
            if b is None:
                continue
            req = rng.random() < .25
            fields.append(Field(f'f{i}', b, required=req, alias=f'al{i}' if rng.random() < .15 else None))
        if not fields:
            fields = [Field('f', Elem(self.p(), rng.choice(self.tags)))]
        return M(name, fields, tag=rng.choice([None, 'x', 'y']) if not top else None, mode=self.mode or rng.choice(MODES),
                 extra=extra or (rng.choice(['ignore', 'forbid']) if self.extra == 'mixed' else self.extra),
                 skip_empty=rng.choice([None, True, False]) if self.skips and skip_empty is None else skip_empty)

    def nil(self):
        return self.nillable and self.rng.random() < .5

    def bind(self, kind, depth, seen):
        rng, t = self.rng, self.rng.choice(self.tags)
        if kind in ('text', 'dattr') and kind in seen:
            return None
        if kind in ('text', 'dattr', 'attr'):
            seen.add(kind)
        if kind == 'attr':
            name = rng.choice('abc')
            if 'attr' + name in seen:
                return None
            seen.add('attr' + name)
            return Attr(self.p(), name)
        if kind == 'text':
            return Text(self.p())
        if kind == 'elem':
            return Elem(self.p(), t, self.nil())
        if kind == 'sub':
            return Sub(self.model(depth - 1, False), rng.choice([None, t]), self.nil())
        if kind == 'list':
            return ListOf(self.bind(rng.choice([k for k in ('elem', 'sub', 'delem', 'union') if k in self.kinds and (depth > 0 or k in ('elem', 'delem'))] or ['elem']), depth, seen))
        if kind == 'tuple':
            if 'sub' in self.kinds and depth > 0 and rng.random() < .5:
                return TupleOf([Sub(self.model(depth - 1, False)) for _ in range(rng.randint(1, 3))])
            nl = self.nil()
            return TupleOf([Elem(self.p(), t, nl) for _ in range(rng.randint(1, 3))])
        if kind == 'wrap':
            ks = [k for k in self.kinds if k in ('attr', 'elem', 'text', 'list', 'sub', 'delem') and (depth > 0 or k != 'sub')] or ['elem']
            inner = self.bind(rng.choice(ks), depth, set())
            return Wrap([rng.choice('vwx') for _ in range(rng.randint(1, 3))], inner)
        if kind == 'delem':
            return Mapping(t, rng.choice(['int', 'str', 'bool']))
        if kind == 'dattr':
            return Mapping(None, rng.choice(['int', 'str', 'bool']))
        if kind == 'union':
            tag = rng.choice([None, None, t])
            return UnionOf([Sub(self.model(depth - 1, False), tag) for _ in range(rng.randint(2, 3))])


def read_cases(group, rng, count, gen, docs=8, eas=(False, True), spread_lines=True):
    for i in range(count):
        seed = rng.randrange(1 << 30)

        def run(seed=seed):
            import random
            r = random.Random(seed)
            m = gen(r)
            for _ in range(docs):
                try:
                    d = document(r, m)
                except pd.ValidationError:
                    continue
                if spread_lines:
                    d = spread(d)
                check_read(m, d, r.choice(list(eas)))
        yield f'{group}/{i}', run


def write_cases(group, rng, count, gen, values=4, flags=None):
    flags = flags or [Opts(a, b, c) for a in (False, True) for b in (False, True) for c in (False, True)]
    for i in range(count):
        seed = rng.randrange(1 << 30)

        def run(seed=seed):
            import random
            r = random.Random(seed)
            m = gen(r)
            for _ in range(values):
                v = m.gen(r)
                for o in flags:
                    check_write(m, v, o)
        yield f'{group}/{i}', run
