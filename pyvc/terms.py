"""Logic: sorts, smart constructors, types and symbolic values of the verifier.

All Python values live in one algebraic sort V.  References are integers allocated from a counter;
mutable object fields, list contents and dict contents are separate arrays indexed by reference
(Burstall components).  Integers are mathematical (as Python's are), strings are an uninterpreted sort
with concatenation, tuples and frozen maps are heap independent identities with observers.
"""
import ast
import z3

S = z3.DeclareSort('S')
_V = z3.Datatype('V')
_V.declare('none')
_V.declare('bool', ('b', z3.BoolSort()))
_V.declare('int', ('i', z3.IntSort()))
_V.declare('str', ('s', S))
_V.declare('ref', ('r', z3.IntSort()))
_V.declare('tup', ('t', z3.IntSort()))
_V.declare('map', ('m', z3.IntSort()))
_V.declare('sym', ('k', z3.IntSort()))
_V.declare('other', ('o', z3.IntSort()))
V = _V.create()
I, B = z3.IntSort(), z3.BoolSort()
SQ = z3.DeclareSort('SQ')          # abstract sequences (used for flattened outputs)

NONE = V.none
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

# observers of immutable tuples / frozen maps
tn = z3.Function('tn', I, I)
tat = z3.Function('tat', I, I, V)
mn = z3.Function('mn', I, I)
mkey = z3.Function('mkey', I, I, V)
mval = z3.Function('mval', I, V, V)
mhas = z3.Function('mhas', I, V, B)
mpos = z3.Function('mpos', I, V, I)
kindof = z3.Function('kindof', I, I)
clsof = z3.Function('clsof', I, I)
subcls = z3.Function('subcls', I, I, B)
sid = z3.Function('sid', S, I)
cat = z3.Function('cat', S, S, S)
tostr = z3.Function('tostr', V, S)
# abstract sequences
sq_empty = z3.Const('sq_empty', SQ)
sq_snoc = z3.Function('sq_snoc', SQ, V, SQ)
sq_cat = z3.Function('sq_cat', SQ, SQ, SQ)

AIV = z3.ArraySort(I, V)


def simp(t):
    return z3.simplify(t)


def mkbool(b):
    return V.bool(b)


def getb(t):
    if z3.is_app(t) and t.decl().name() == 'bool' and t.num_args() == 1:
        return t.arg(0)
    return V.b(t)


def geti(t):
    if z3.is_app(t) and t.decl().name() == 'int' and t.num_args() == 1:
        return t.arg(0)
    return V.i(t)


def gets(t):
    if z3.is_app(t) and t.decl().name() == 'str' and t.num_args() == 1:
        return t.arg(0)
    return V.s(t)


def getr(t):
    if z3.is_app(t) and t.decl().name() == 'ref' and t.num_args() == 1:
        return t.arg(0)
    return V.r(t)


def gett(t):
    if z3.is_app(t) and t.decl().name() == 'tup' and t.num_args() == 1:
        return t.arg(0)
    return V.t(t)


def getm(t):
    if z3.is_app(t) and t.decl().name() == 'map' and t.num_args() == 1:
        return t.arg(0)
    return V.m(t)


def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            ys.extend(x)
        else:
            ys.append(x)
    ys = [y for y in ys if not z3.is_true(y)]
    if any(z3.is_false(y) for y in ys):
        return FALSE
    if not ys:
        return TRUE
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            ys.extend(x)
        else:
            ys.append(x)
    ys = [y for y in ys if not z3.is_false(y)]
    if any(z3.is_true(y) for y in ys):
        return TRUE
    if not ys:
        return FALSE
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def Not(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


def If(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_not(c):  # one form only, the one z3's own simplifier produces
        return z3.If(c.arg(0), b, a)
    return z3.If(c, a, b)


_BADPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES}


def bad_pattern(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or (not z3.is_app(x) and not z3.is_var(x)):
            return True
        if z3.is_app(x):
            if x.decl().kind() in _BADPAT:
                return True
            todo.extend(x.children())
    return False


def _consts(t):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0:
                out.add(x.get_id())
            todo.extend(x.children())
    return out


def ForAll(vs, body, patterns=()):
    """Universal quantifier; patterns the solver would reject are left out."""
    ids = {v.get_id() for v in vs}
    ps = []
    for p in patterns:
        if isinstance(p, z3.PatternRef):
            ps.append(p)
        elif z3.is_app(p) and p.num_args() > 0 and not bad_pattern(p) and ids <= _consts(p):
            ps.append(p)
    if z3.is_true(body):
        return TRUE
    return z3.ForAll(vs, body, patterns=ps)


# --------------------------------------------------------------------------- types
class Ty(tuple):
    """('int',) ('bool',) ('str',) ('none',) ('any',) ('opt',T) ('list',T) ('dict',K,T) ('seq',T)
    ('map',K,T) ('set',T) ('tup',T..) ('inst',Name) ('float',) ('callable',)"""
    __slots__ = ()

    def __repr__(self):
        return self[0] + ('[' + ','.join(map(repr, self[1:])) + ']' if len(self) > 1 else '')


def ty(*a):
    return Ty(a)


INT, BOOL, STR, NONET, ANY = ty('int'), ty('bool'), ty('str'), ty('none'), ty('any')


def parse_type(s):
    if isinstance(s, Ty):
        return s
    return _pt(ast.parse(s, mode='eval').body)


_BASE = {'Int': INT, 'Bool': BOOL, 'Str': STR, 'None_': NONET, 'Any': ANY}


def _pt(n):
    if isinstance(n, ast.Constant) and n.value is None:
        return NONET
    if isinstance(n, ast.Name):
        return _BASE.get(n.id) or ty('inst', n.id)
    if isinstance(n, ast.Subscript):
        args = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
        args = [_pt(a) for a in args]
        h = n.value.id
        if h == 'Opt' and args[0][0] == 'opt':
            return args[0]
        return ty({'Opt': 'opt', 'List': 'list', 'Dict': 'dict', 'Seq': 'seq', 'Map': 'map', 'Set': 'set',
                   'Tup': 'tup', 'FSet': 'fset', 'Union': 'union'}[h], *args)
    raise ValueError(ast.dump(n))


def unopt(t):
    return t[1] if t[0] == 'opt' else t


def join_ty(a, b):
    if a == b:
        return a
    if a == NONET:
        return b if b[0] in ('opt', 'any', 'none') else ty('opt', b)
    if b == NONET:
        return a if a[0] in ('opt', 'any', 'none') else ty('opt', a)
    if unopt(a) == unopt(b):
        return ty('opt', unopt(a))
    return ANY


# --------------------------------------------------------------------------- symbolic values
class SV:
    """A symbolic Python value: a V term and/or a static payload, with a static type."""
    __slots__ = ('t', 'ty', 'st')

    def __init__(self, t, ty_, st=None):
        self.t, self.ty, self.st = t, ty_, st

    def __repr__(self):
        return f'<{self.ty!r} {self.st[0] if self.st else self.t}>'


class OOS(Exception):
    """Construct outside the supported subset."""

    def __init__(self, msg, node=None):
        super().__init__(msg + (f' (line {getattr(node, "lineno", "?")})' if node is not None else ''))


class Lits:
    """String literals and symbols shared by one verification task."""

    def __init__(self):
        self.strs = {}
        self.syms = {}
        self.n = 0

    def fresh(self, name, sort):
        self.n += 1
        return z3.Const(f'{name}!{self.n}', sort)

    def lit(self, s):
        if s not in self.strs:
            self.strs[s] = z3.Const('lit_%d_%s' % (len(self.strs), ''.join(c if c.isalnum() else '_' for c in s)), S)
        return self.strs[s]

    def sym(self, key):
        if key not in self.syms:
            self.syms[key] = len(self.syms) + 1
        return self.syms[key]

    def axioms(self):
        return [sid(c) == k for k, c in enumerate(self.strs.values())]
