"""Mechanical extraction: parses /repo's current sources and resolves names.  Nothing is rewritten; type
annotations, docstrings, decorators other than property/classmethod/staticmethod/dataclass/cached_property and
`typing.cast` are ignored by the semantics (all are no-ops at run time for the functions under contract)."""
import ast
import os


class FuncInfo:
    def __init__(self, mod, node, cls=None):
        self.mod, self.node, self.cls = mod, node, cls
        self.name = node.name
        self.qual = (cls.name + '.' if cls else '') + node.name
        decs = {ast.unparse(d) for d in node.decorator_list}
        self.decs = decs
        self.is_property = bool(decs & {'property', 'cached_property', 'functools.cached_property'})
        self.is_classmethod = 'classmethod' in decs
        self.is_static = 'staticmethod' in decs
        self.is_abstract = any('abstractmethod' in d for d in decs)
        self.other_decs = [d for d in decs if d.split('.')[-1] not in (
            'property', 'cached_property', 'classmethod', 'staticmethod', 'abstractmethod', 'overload')
            and not d.startswith('te.')]

    @property
    def key(self):
        return f'{self.mod.name}:{self.qual}'

    def __repr__(self):
        return f'<func {self.key}>'


class ClassInfo:
    def __init__(self, mod, node, outer=None):
        self.mod, self.node = mod, node
        self.name = (outer.name + '.' if outer else '') + node.name
        self.methods, self.classes, self.attrs, self.fields = {}, {}, {}, []
        self.is_dataclass = any('dataclass' in ast.unparse(d) and 'transform' not in ast.unparse(d)
                                for d in node.decorator_list)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                f = FuncInfo(mod, s, self)
                if not any('overload' in d for d in f.decs):
                    self.methods[s.name] = f
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(mod, s, self)
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                self.attrs[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.fields.append((s.target.id, s.value))
                if s.value is not None:
                    self.attrs[s.target.id] = s.value
        self.bases = [ast.unparse(b.value if isinstance(b, ast.Subscript) else b) for b in node.bases]

    @property
    def key(self):
        return f'{self.mod.name}:{self.name}'

    def __repr__(self):
        return f'<class {self.key}>'


class ModInfo:
    def __init__(self, name, path, src, is_pkg):
        self.name, self.path, self.src, self.is_pkg = name, path, src, is_pkg
        self.tree = ast.parse(src)
        self.names = {}
        self._scan(self.tree.body)

    def _pkg(self, level):
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        return '.'.join(parts[:len(parts) - (level - 1)])

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.names[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = (self._pkg(s.level) + ('.' + s.module if s.module else '')) if s.level else s.module
                for a in s.names:
                    self.names[a.asname or a.name] = ('import', f'{base}.{a.name}')
            elif isinstance(s, ast.FunctionDef):
                if not any('overload' in ast.unparse(d) for d in s.decorator_list):
                    self.names[s.name] = ('func', FuncInfo(self, s))
            elif isinstance(s, ast.ClassDef):
                self.names[s.name] = ('class', ClassInfo(self, s))
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.names[s.targets[0].id] = ('const', s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.names[s.target.id] = ('const', s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)


class Program:
    def __init__(self, root='/repo', package='pydantic_xml'):
        self.root, self.package, self.mods = root, package, {}
        self._resolving = set()

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = os.path.join(self.root, *name.split('.'))
        m = None
        if name.split('.')[0] == self.package:
            if os.path.isdir(p) and os.path.isfile(p + '/__init__.py'):
                f = p + '/__init__.py'
                m = ModInfo(name, f, open(f).read(), True)
            elif os.path.isfile(p + '.py'):
                m = ModInfo(name, p + '.py', open(p + '.py').read(), False)
        self.mods[name] = m
        return m

    def dotted(self, name):
        """-> ('mod', ModInfo) | ('func', FuncInfo) | ('class', ClassInfo) | ('const', ModInfo, expr) | ('ext', dotted)"""
        m = self.module(name)
        if m is not None:
            return ('mod', m)
        if '.' in name:
            base, last = name.rsplit('.', 1)
            r = self.dotted(base)
            return self.member(r, last, name)
        return ('ext', name)

    def member(self, r, attr, full=None):
        if r[0] == 'mod':
            if r[1].name == 'pydantic_xml.element.native':
                return ('ext', 'native.' + attr)       # backend chosen at run time
            got = self.lookup(r[1], attr)
            if got is not None:
                return got
            sub = self.module(f'{r[1].name}.{attr}')
            if sub is not None:
                return ('mod', sub)
            return ('ext', f'{r[1].name}.{attr}')
        if r[0] == 'ext':
            return ('ext', f'{r[1]}.{attr}')
        if r[0] == 'class':
            c = r[1]
            if attr in c.classes:
                return ('class', c.classes[attr])
        return None

    def lookup(self, mod, name):
        e = mod.names.get(name)
        if e is None:
            return None
        if e[0] == 'import':
            return self.dotted(e[1])
        if e[0] == 'const':
            return ('const', mod, e[1])
        return e

    def mro(self, cls):
        """Linearised repository ancestors (left-to-right depth first; the repository has no diamonds that matter)."""
        out = [cls]
        for b in cls.bases:
            parts = b.split('.')
            r = self.lookup(cls.mod, parts[0])
            for p in parts[1:]:
                r = self.member(r, p) if r else None
            if r and r[0] == 'class':
                for c in self.mro(r[1]):
                    if c not in out:
                        out.append(c)
        return out

    def find_method(self, cls, name, after=None):
        seen = after is None
        for c in self.mro(cls):
            if seen and name in c.methods:
                return c.methods[name]
            if c is after:
                seen = True
        return None

    def get(self, key):
        """'module:Class.func' -> FuncInfo or None."""
        modname, qual = key.split(':')
        mod = self.module(modname)
        if mod is None:
            return None
        parts = qual.split('.')
        r = mod.names.get(parts[0])
        if r is None or r[0] not in ('func', 'class'):
            return None
        o = r[1]
        for p in parts[1:]:
            if not isinstance(o, ClassInfo):
                return None
            o = o.classes.get(p) or o.methods.get(p)
            if o is None:
                return None
        return o
