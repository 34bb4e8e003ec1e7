"""Total versions of Python's primitive operations; each returns (value, [(definedness condition, exception)])."""
import ast
import z3
from .terms import *
from .state import *
from .engine import Base, KIND
from .source import FuncInfo, ClassInfo


class Ops(Base):
    STR_METHODS = {'strip': ('S',), 'lower': ('S',), 'upper': ('S',), 'lstrip': ('S',), 'rstrip': ('S',)}

    def op_attr(self, st, sv, name):
        sv = self.resolve_priv(st, sv)
        if sv.st:
            k = sv.st[0]
            if k == 'mod':
                r = self.prog.member(('mod', sv.st[1]), name)
                return self.entity(st, r, name), []
            if k == 'ext':
                return self.ext_entity(f'{sv.st[1]}.{name}'), []
            if k == 'class':
                return self.class_attr(st, sv, name), []
            if k == 'super':
                cls, recv = sv.st[1], sv.st[2]
                start = sv.st[3]
                m = self.prog.find_method(start, name, after=cls)
                if m is None:
                    if name == '__init_subclass__':
                        return SV(None, ANY, ('builtin', 'noop')), []
                    return SV(None, ANY, ('extsuper', name, recv)), []
                return SV(None, ANY, ('func', m, recv)), []
            if k == 'classof':
                if name == '__name__':
                    return SV(V.str(self.ufunc('clsname', V, S)(self.term(st, sv))), STR), []
                return self.op_clsattr(st, sv, name)
            if k == 'priv':
                return SV(None, ANY, ('cmeth', name, sv)), []
            if k == 'record':
                return SV(None, ANY, ('cmeth', name, sv)), []
        t = unopt(sv.ty)
        oks = []
        if sv.ty[0] == 'opt' or (sv.ty[0] == 'any'):
            oks = [(Not(V.is_none(sv.t)), 'AttributeError')]
        if sv.ty == NONET:
            oks = [(FALSE, 'AttributeError')]
            return SV(self.fresh('bad', V), ANY), oks
        if t[0] in ('list', 'dict', 'set', 'map', 'fset', 'seq', 'tup'):
            return SV(None, ANY, ('cmeth', name, SV(sv.t, t))), oks
        if t[0] == 'str':
            return SV(None, ANY, ('smeth', name, SV(sv.t, t, sv.st))), oks
        if t[0] == 'inst':
            return self.inst_attr(st, SV(sv.t, t), name), oks
        raise OOS(f'attribute {name} of {sv!r}')

    def op_clsattr(self, st, sv, name):
        raise OOS(f'class attribute {name}')

    def inst_attr(self, st, sv, name):
        alias = sv.ty[1]
        if name == '__class__':
            return SV(None, ANY, ('classof', sv))
        en = self.reg.enums.get(alias)
        if en:
            raise OOS(f'enum attribute {name}')
        ft = self.field_type(alias, name)
        if ft is not None:
            kind, t = ft
            if t[0] == 'method':
                return SV(None, ANY, ('imeth', t[1], sv))
            if kind == 'heap':
                return self.read(st, st.comps['f:' + name][getr(sv.t)], t)
            if kind == 'sym':
                return self.read(st, self.ufunc('as:' + name, V, V)(sv.t), t)
            return self.read(st, self.fa(name)(getr(sv.t)), t)
        e = self.reg.schema.get(alias)
        # declared interface methods
        seen, todo = set(), [alias]
        while todo:
            a = todo.pop(0)
            if a in seen:
                continue
            seen.add(a)
            e = self.reg.schema.get(a)
            if not e:
                continue
            if name in e.get('methods', {}):
                return SV(None, ANY, ('imeth', e['methods'][name], sv))
            ci = self.classinfo(a)
            if ci:
                m = self.prog.find_method(ci, name)
                if m is not None:
                    if m.is_classmethod:
                        return SV(None, ANY, ('func', m, SV(None, ANY, ('class', ci))))
                    if m.is_static:
                        return SV(None, ANY, ('func', m, None))
                    return SV(None, ANY, ('func', m, sv))
                for c in self.prog.mro(ci):
                    if name in c.classes:
                        return SV(None, ANY, ('class', c.classes[name]))
                    if name in c.attrs and not c.is_dataclass:
                        return self.static_expr(st, c.attrs[name], c.mod)
            if e.get('parent'):
                todo.append(e['parent'])
        if name == 'get':
            return SV(None, ANY, ('recget', sv))
        if self.reg.schema[alias].get('open'):
            return SV(self.ufunc('anyattr', V, V, V)(self.term(st, sv), self.const(name).t), ANY)
        for b, e in list(self.reg.schema.items()):  # a more specific class the code has checked for
            ci = self.classinfo(b)
            if b != alias and ci is not None and e.get('kind') != 'class' and self.family(b) == self.family(alias) and (
                    self.field_type(b, name) is not None or self.prog.find_method(ci, name) is not None):
                ct = self.term(st, SV(None, ANY, ('class', ci)))
                if self.prove(st, self.ufunc('isinst', V, V, B)(sv.t, ct)):
                    return self.inst_attr(st, SV(sv.t, ty('inst', b)), name)
        raise OOS(f'unknown attribute {name} of {alias}')

    def class_attr(self, st, sv, name):
        ci = sv.st[1]
        alias = self.alias_of(ci)
        en = self.reg.enums.get(alias)
        if en:
            base, vals = en
            if name in vals:
                v = self.const(vals[name])
                return SV(v.t, ty('inst', alias), ('const', vals[name]))
        if name == '__name__':
            return self.lit(ci.name)
        m = self.prog.find_method(ci, name)
        if m is not None:
            if m.is_classmethod:
                return SV(None, ANY, ('func', m, sv))
            return SV(None, ANY, ('func', m, None))
        for c in self.prog.mro(ci):
            if name in c.classes:
                return SV(None, ANY, ('class', c.classes[name]))
            if name in c.attrs:
                return self.static_expr(st, c.attrs[name], c.mod)
        raise OOS(f'class attribute {ci.name}.{name}')

    # ---- names
    def entity(self, st, r, name='?'):
        if r is None:
            raise OOS(f'unresolved name {name}')
        k = r[0]
        if k == 'mod':
            return SV(None, ANY, ('mod', r[1]))
        if k == 'func':
            return SV(None, ANY, ('func', r[1], None))
        if k == 'class':
            return SV(None, ANY, ('class', r[1]))
        if k == 'ext':
            return self.ext_entity(r[1])
        if k == 'const':
            return self.module_const(st, r[1], name, r[2])
        raise OOS(str(r))

    def ext_entity(self, dotted):
        c = self.reg.ext_consts.get(dotted)
        if c is not None:
            return SV(None, ANY, ('class', self.prog.get(c)))
        return SV(None, ANY, ('ext', dotted))

    def module_const(self, st, mod, name, expr):
        key = f'{mod.name}.{name}'
        if key in self.reg.opaque_consts:
            tt = self.norm_type(self.reg.opaque_consts[key])
            return SV(z3.Const('const:' + key, V), tt)
        return self.static_expr(st, expr, mod)

    def static_expr(self, st, expr, mod):
        """Value of a module level / class level constant expression."""
        if isinstance(expr, ast.Constant):
            return self.const(expr.value)
        if isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.USub) and isinstance(expr.operand, ast.Constant) and type(expr.operand.value) is int:
            return self.const(-expr.operand.value)
        if isinstance(expr, ast.Dict) and all(k is not None for k in expr.keys):
            items = [(self.static_expr(st, k, mod), self.static_expr(st, v, mod)) for k, v in zip(expr.keys, expr.values)]
            return SV(None, ANY, ('record', [(k.st[1], v) for k, v in items]))
        if isinstance(expr, (ast.Tuple, ast.List)):
            return SV(None, ANY, ('tuple', [self.static_expr(st, e, mod) for e in expr.elts]))
        if isinstance(expr, ast.Name):
            r = self.prog.lookup(mod, expr.id)
            return self.entity(st, r, expr.id)
        if isinstance(expr, ast.Attribute):
            v, ok = self.op_attr(st, self.static_expr(st, expr.value, mod), expr.attr)
            return v
        if isinstance(expr, ast.Subscript) or (isinstance(expr, ast.Call) and ast.unparse(expr.func).split('.')[-1] == 'TypeVar'):      # a typing construct
            return SV(None, ANY, ('ext', 'typing.' + ast.unparse(expr)))
        raise OOS(f'constant expression {ast.unparse(expr)}')

    # ---- subscripts
    def norm_index(self, i, n):
        if z3.is_int_value(i):
            v = i.as_long()
            if v < 0:
                return n + v, n >= -v
            return i, n > v
        return i, And(i >= 0, i < n)

    def op_index(self, st, sv, ix):
        sv = self.resolve_priv(st, sv)
        if sv.st and sv.st[0] == 'tuple' and ix.st and ix.st[0] == 'const':
            els, i = sv.st[1], ix.st[1]
            if -len(els) <= i < len(els):
                return els[i], []
            return SV(self.fresh('bad', V), ANY), [(FALSE, 'IndexError')]
        if sv.st and sv.st[0] == 'record':
            return self.record_get(st, sv, ix)
        if sv.ty == NONET:
            return SV(self.ufunc('anyat', V, I, V)(sv.t, 0), ANY), [(FALSE, 'TypeError')]
        t = unopt(sv.ty)
        oks = [] if not (sv.t is not None and sv.ty[0] in ('opt', 'any')) else [(Not(V.is_none(sv.t)), 'TypeError')]
        if t[0] == 'tup' and ix.st and ix.st[0] == 'const' and ix.st[1] >= 0:
            i = ix.st[1]
            return SV(tat(gett(sv.t), z3.IntVal(i)), t[1 + i]), oks
        if t[0] in ('list', 'seq', 'tup') or (sv.st and sv.st[0] == 'tuple'):
            pl = self.load_list(st, sv)
            i, ok = self.norm_index(self.intt(ix), pl.n)
            oks.append((ok, 'IndexError'))
            return SV(self.at(st, pl, i), pl.ety), oks
        if t[0] in ('dict', 'map'):
            d = self.load_dict(st, sv)
            k = self.term(st, ix)
            oks.append((self.dict_has(d, k), 'KeyError'))
            return SV(self.dict_val(d, k), d.vty), oks
        if t[0] == 'inst' and ix.st and ix.st[0] == 'const' and isinstance(ix.st[1], str):
            # typed-dict like access to an immutable external record
            ft = self.field_type(t[1], '[' + ix.st[1] + ']')
            if ft is None:
                raise OOS(f'item {ix.st[1]!r} of {t[1]}')
            kind, ft = ft
            return self.read(st, self.fa('[' + ix.st[1] + ']')(getr(sv.t)), ft), oks
        raise OOS(f'subscript of {sv!r}')

    def record_get(self, st, sv, ix, default=None):
        """Literal dict: ordered list of (constant key, value)."""
        if ix.st and ix.st[0] == 'const':
            for k, v in sv.st[1]:
                if k == ix.st[1]:
                    return v, []
            if default is not None:
                return default, []
            return SV(self.fresh('bad', V), ANY), [(FALSE, 'KeyError')]
        kt = self.term(st, ix)
        res = self.term(st, default) if default is not None else self.fresh('bad', V)
        rt = default.ty if default is not None else None
        for k, v in reversed(sv.st[1]):
            res = If(kt == self.const(k).t, self.term(st, v), res)
            rt = v.ty if rt is None else join_ty(rt, v.ty)
        ok = Or(*[kt == self.const(k).t for k, v in sv.st[1]])
        return SV(res, rt or ANY), ([] if default is not None else [(ok, 'KeyError')])

    def op_slice(self, st, sv, lo, hi):
        ts = self.static_tuple(sv)
        c = lambda x: x is None or (x.st and x.st[0] == 'const')
        if ts is not None and c(lo) and c(hi):
            return SV(None, ANY, ('tuple', ts[(lo.st[1] if lo else None):(hi.st[1] if hi else None)])), []
        t = unopt(sv.ty)
        if lo is None and hi is not None and hi.st and hi.st[0] == 'const' and hi.st[1] == -1 and \
                (t[0] == 'seq' or sv.ty == ANY):
            # all but the last
            m = gett(sv.t)
            inv1, inv2 = self.ufunc('tinit', I, I), self.ufunc('tlast', I, V)
            r = inv1(m)
            key = ('tinit', r.get_id())
            if key not in st.extra:
                st.extra[key] = r
                i = z3.Int('i!t')
                st.add(Implies(tn(m) > 0, And(tn(r) == tn(m) - 1, self.ufunc('tsnoc', I, V, I)(r, inv2(m)) == m)))
                st.add(Implies(tn(m) == 0, r == m), tn(r) >= 0, tn(m) >= 0)
                st.add(ForAll([i], Implies(And(i >= 0, i < tn(r)), tat(r, i) == tat(m, i)), patterns=[tat(r, i)]))
                st.add(Implies(tn(m) == 0, m == z3.Const('tup_empty', I)))
                st.add(Implies(tn(r) == 0, r == z3.Const('tup_empty', I)))
            return SV(V.tup(r), t if t[0] == 'seq' else ty('seq', ANY)), []
        if t[0] in ('seq', 'list') or self.is_priv(st, sv):
            pl = self.load_list(st, sv)
            n = pl.n

            def clamp(x, d):
                if x is None:
                    return d
                v = self.intt(x)
                v = If(v < 0, v + n, v)
                return If(v < 0, z3.IntVal(0), If(v > n, n, v))
            a, b = clamp(lo, z3.IntVal(0)), clamp(hi, n)
            m = If(b > a, b - a, z3.IntVal(0))
            i = z3.Int('i!s')
            at = self.fresh('sl', AIV)
            st.add(ForAll([i], Implies(And(i >= 0, i < m), at[i] == z3.Select(pl.at, i + a)), patterns=[at[i]]))
            if lo is not None and z3.is_const(pl.at):
                st.add(ForAll([i], Implies(And(i >= a, i < a + m), at[i - a] == z3.Select(pl.at, i)), patterns=[z3.Select(pl.at, i)]))
            pl2 = PList(m, at, self.fresh('sq', SQ), pl.ety)
            if t[0] == 'seq':
                return self.freeze_list(st, pl2), []
            return self.put_priv(st, pl2, 'list'), []
        raise OOS(f'slice of {sv!r}')

    # ---- comparisons
    def op_compare(self, st, op, a, b, code=False):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b.st and b.st[0] == 'const' and b.st[1] is None:
                r = self.is_none(st, a)
            elif a.st and a.st[0] == 'const' and a.st[1] is None:
                r = self.is_none(st, b)
            else:
                r = self.identical(st, a, b)
            return (r if isinstance(op, ast.Is) else Not(r)), []
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(st, a, b, code)
            return (r if isinstance(op, ast.Eq) else Not(r)), []
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            for x in (a, b):
                if x.ty[0] not in ('int', 'bool'):
                    raise OOS('ordering of non integers')
            x, y = self.intt(a), self.intt(b)
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)], []
        if isinstance(op, (ast.In, ast.NotIn)):
            r, oks = self.contains(st, b, a, code)
            return (r if isinstance(op, ast.In) else Not(r)), oks
        raise OOS('comparison')

    def identical(self, st, a, b):
        x, y = self.term(st, a), self.term(st, b)
        return x == y

    def contains(self, st, c, x, code=False):
        c = self.resolve_priv(st, c)
        ts = self.static_tuple(c)
        if ts is not None:
            return Or(*[self.eq(st, x, e, code) for e in ts]), []
        if c.st and c.st[0] == 'record':
            return Or(*[self.eq(st, x, self.const(k), code) for k, _ in c.st[1]]), []
        d = self.load_dict(st, c)
        oks = [] if c.ty[0] != 'opt' else [(Not(V.is_none(c.t)), 'TypeError')]
        if d is not None:
            return self.dict_has(d, self.term(st, x)), oks
        pl = self.load_list(st, c)
        if pl is not None:
            i = self.fresh('i!in', I)
            t = self.term(st, x)
            k = z3.Int('i!in')
            return z3.Exists([k], And(k >= 0, k < pl.n, z3.Select(pl.at, k) == t)), oks
        if c.ty == NONET:
            return FALSE, [(FALSE, 'TypeError')]
        raise OOS(f'membership in {c!r}')

    # ---- arithmetic and concatenation
    def op_bin(self, st, op, a, b):
        a, b = self.resolve_priv(st, a), self.resolve_priv(st, b)
        num = lambda x: x.ty in (INT, BOOL) and x.t is not None
        if num(a) and num(b):
            x, y = geti(a.t) if a.ty == INT else If(getb(a.t), z3.IntVal(1), z3.IntVal(0)), \
                geti(b.t) if b.ty == INT else If(getb(b.t), z3.IntVal(1), z3.IntVal(0))
            if isinstance(op, ast.Add):
                return self.mkint(x + y), []
            if isinstance(op, ast.Sub):
                return self.mkint(x - y), []
            if isinstance(op, ast.Mult):
                return self.mkint(x * y), []
        if isinstance(op, ast.Mod) and a.st and a.st[0] == 'const' and isinstance(a.st[1], str):
            args = self.static_tuple(b)
            args = [b] if args is None else args
            parts = a.st[1].split('%s')
            if any('%' in p for p in parts) or len(parts) - 1 != len(args):
                raise OOS('string formatting')
            pieces = [parts[0]]
            for x, p in zip(args, parts[1:]):
                pieces += [self.strof(st, x), p]
            return self.mkstr(st, pieces), []
        if isinstance(op, ast.Add):
            ta, tb = self.static_tuple(a), self.static_tuple(b)
            if ta is not None and tb is not None:
                return SV(None, ANY, ('tuple', ta + tb)), []
            if unopt(a.ty) == STR and unopt(b.ty) == STR:
                oks = [(V.is_str(x.t), 'TypeError') for x in (a, b) if x.ty[0] == 'opt']
                g = lambda x: x.st[1] if x.st and x.st[0] == 'const' else gets(x.t)
                return self.mkstr(st, [g(a), g(b)]), oks
            if tb is not None and unopt(a.ty)[0] == 'seq':
                m = gett(a.t)
                et = unopt(a.ty)[1]
                for e in tb:
                    m = self.tsnoc(st, m, self.term(st, e))
                    et = join_ty(et, e.ty)
                return SV(V.tup(m), ty('seq', et)), []
            if ta is not None and unopt(b.ty)[0] == 'seq':
                m = gett(b.t)
                et = unopt(b.ty)[1]
                for e in reversed(ta):
                    m = self.tcons(st, self.term(st, e), m)
                    et = join_ty(et, e.ty)
                return SV(V.tup(m), ty('seq', et)), []
            if unopt(a.ty)[0] == 'seq' and unopt(b.ty)[0] == 'seq':
                f = self.ufunc('tcat', I, I, I)
                x, y = gett(a.t), gett(b.t)
                r = f(x, y)
                i = z3.Int('i!t')
                st.add(tn(r) == tn(x) + tn(y))
                st.add(ForAll([i], Implies(And(i >= 0, i < tn(r)), tat(r, i) == If(
                    i < tn(x), tat(x, i), tat(y, i - tn(x)))), patterns=[tat(r, i)]))
                return SV(V.tup(r), ty('seq', join_ty(a.ty[1], b.ty[1]))), []
            la, lb = self.load_list(st, a), self.load_list(st, b)
            if la is not None and lb is not None and (self.is_priv(st, a) or unopt(a.ty)[0] == 'list'):
                at = self.fresh('ap', AIV)
                i = z3.Int('i!p')
                st.add(ForAll([i], Implies(And(i >= 0, i < la.n + lb.n), at[i] == If(
                    i < la.n, z3.Select(la.at, i), z3.Select(lb.at, i - la.n))), patterns=[at[i]]))
                sq = sq_cat(la.sq, lb.sq) if la.sq is not None and lb.sq is not None else self.fresh('sq', SQ)
                return self.put_priv(st, PList(la.n + lb.n, at, sq, join_ty(la.ety, lb.ety)), 'list'), []
        raise OOS(f'operator {type(op).__name__} on {a!r}, {b!r}')

    def mkint(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return self.const(t.as_long())
        return SV(V.int(t), INT)

    # ---- isinstance
    def isinstance_(self, st, sv, cls):
        ts = self.static_tuple(cls)
        if ts is not None:
            return Or(*[self.isinstance_(st, sv, c) for c in ts])
        sv = self.resolve_priv(st, sv)
        name = None
        if cls.st and cls.st[0] == 'ext':
            name = cls.st[1].split('.')[-1]
        elif cls.st and cls.st[0] == 'class':
            name = self.alias_of(cls.st[1])
        if name in ('str', 'int', 'bool', 'list', 'tuple', 'dict', 'bytes', 'NoneType') and cls.st[0] == 'ext':
            if sv.t is None:
                k = sv.st[0]
                return z3.BoolVal({'tuple': name == 'tuple', 'priv': k == 'priv' and name == (
                    sv.st[2] if k == 'priv' else None), 'record': name == 'dict'}.get(k, False))
            t = sv.t
            m = {'str': V.is_str(t), 'int': Or(V.is_int(t), V.is_bool(t)), 'bool': V.is_bool(t),
                 'tuple': V.is_tup(t), 'list': And(V.is_ref(t), kindof(getr(t)) == KIND['list']),
                 'dict': And(V.is_ref(t), kindof(getr(t)) == KIND['dict']),
                 'bytes': self.ufunc('is_bytes', V, B)(t), 'NoneType': V.is_none(t)}[name]
            if sv.ty[0] in ('list', 'seq', 'str', 'int', 'bool', 'dict', 'map') and name != 'int':
                want = {'str': ('str',), 'bool': ('bool',), 'tuple': ('seq', 'tup'), 'list': ('list',), 'dict': ('dict', 'map'),
                        'bytes': ()}[name]
                return z3.BoolVal(sv.ty[0] in want)
            return m
        if sv.t is None:
            return FALSE
        if name == 'Sized':
            return self.ufunc('is_sized', V, B)(sv.t)
        ct = self.term(st, cls)
        r = self.ufunc('isinst', V, V, B)(sv.t, ct)
        st.add(Implies(r, Not(V.is_none(sv.t))))
        if unopt(sv.ty) == ANY and cls.st and cls.st[0] == 'class' and name in self.reg.schema:
            st.add(Implies(r, self.typeinv(st, sv.t, ty('inst', name))))
        if unopt(sv.ty)[0] == 'inst':
            # a declared class is an instance of itself and of its ancestors
            a = unopt(sv.ty)[1]
            ci = self.classinfo(a)
            if ci is not None and cls.st[0] == 'class' and cls.st[1] in self.prog.mro(ci):
                return Not(self.is_none(st, sv))
        return r
