"""Specification language: Python expressions, evaluated symbolically without forking.

Extra vocabulary: old(e), implies(a, b), iff(a, b), all/any over `x in range(..)|seq|dict`, result, exc, calls(op),
call(op, j).<column>, fresh(e), alive(e), unchanged(), same(list, list), keys order via items(d), macros."""
import ast
import z3
from .terms import *
from .state import *
from .engine import Exc, KIND, Obligation
from .loops import Loops


class Spec(Loops):

    _asts = {}

    def parse(self, ex):
        if ex not in self._asts:
            self._asts[ex] = ast.parse(ex.strip(), mode='eval').body
        return self._asts[ex]

    def spec(self, ex, st, names, old=None):
        """Boolean formula of a specification expression in state st (facts are added to st)."""
        v = self.spec_value(ex, st, names, old)
        return self.truth(st, v)

    def spec_value(self, ex, st, names, old=None):
        node = self.parse(ex) if isinstance(ex, str) else ex
        o = old if old is not None else (st.entry or st)
        o2 = o.copy()
        n0 = len(o2.pc)
        ctx = {'st': st, 'names': names, 'old': o2, 'bound': []}
        v = self.sv(node, ctx)
        for f in o2.pc[n0:]:
            st.add(f)
        return v

    # ------------------------------------------------------------------
    def sv(self, e, c):
        m = getattr(self, 'sv_' + type(e).__name__, None)
        if m is None:
            raise OOS(f'spec: {type(e).__name__}')
        return m(e, c)

    def sv_Constant(self, e, c):
        return self.const(e.value)

    def sv_Name(self, e, c):
        n = c['names'].get(e.id)
        if n is not None:
            return n
        if e.id in self.reg.spec_names:
            return self.entity(c['st'], self.prog.dotted(self.reg.spec_names[e.id]), e.id)
        if e.id in ('int', 'str', 'bool', 'list', 'dict', 'tuple'):
            return SV(None, ANY, ('ext', e.id))
        raise OOS(f'spec: unknown name {e.id}')

    def sv_Attribute(self, e, c):
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == 'call':
            op = e.value.args[0].value
            j = self.intt(self.sv(e.value.args[1], c))
            arr = c['st'].tr.cols.get((op, e.attr))
            if arr is None:
                sort = B if e.attr == 'raised' else I if e.attr == 'al' or e.attr.startswith('n_') else V
                arr = z3.Const(f'ev.{op}.{e.attr}', z3.ArraySort(I, sort))
            t = arr[j]
            if e.attr == 'raised':
                return self.boolv(t)
            if e.attr == 'al' or e.attr.startswith('n_'):
                return self.intv(t)
            im = self.reg.events.get(op)
            ty_ = ANY
            if im is not None:
                if e.attr == 'ret':
                    ty_ = self.norm_type(im.ret)
                elif e.attr in im.params:
                    ty_ = self.norm_type(im.params[e.attr])
                elif e.attr == 'exc':
                    ty_ = ty('inst', 'VErr')
            return SV(t, ty_)
        v = self.sv(e.value, c)
        if v.st and v.st[0] == 'args':
            return v.st[1][e.attr]
        v, _ = self.op_attr(c['st'], v, e.attr)
        if v.st and v.st[0] == 'func' and v.st[1].is_property:
            return self.spec_prop(c, v)
        return v

    def spec_prop(self, c, v):
        fi, recv = v.st[1], v.st[2]
        ct = self.reg.contracts.get(fi.key)
        if ct is not None and ct.pure and not ct.inline:
            f = self.ufunc('F:' + ct.key, V, V)
            t = self.norm_type(ct.ret)
            r = SV(f(self.term(c['st'], recv)), t)
            c['st'].add(self.typeinv(c['st'], r.t, t)) if not c['bound'] else None
            return r
        body = [s for s in fi.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Return):
            st = c['st']
            saved = st.env, st.extra.get('fn')
            s2 = st.copy()
            s2.env = {fi.node.args.args[0].arg: recv}
            s2.extra['fn'] = fi
            s2.extra['self'] = recv
            self.quiet += 1
            outs = self.ev(body[0].value, s2)
            self.quiet -= 1
            outs = [o for o in outs if not isinstance(o[1], Exc)]
            if len(outs) == 1:
                if not c['bound']:
                    for f in outs[0][0].pc[len(st.pc):]:
                        st.add(f)
                return outs[0][1]
        raise OOS(f'spec: property {fi.qual}')

    def sv_Subscript(self, e, c):
        v = self.sv(e.value, c)
        if isinstance(e.slice, ast.Slice):
            lo = self.sv(e.slice.lower, c) if e.slice.lower else None
            hi = self.sv(e.slice.upper, c) if e.slice.upper else None
            return self.op_slice(c['st'], v, lo, hi)[0]
        ix = self.sv(e.slice, c)
        if v.st is None and v.ty == ANY:
            return SV(self.ufunc('anyat', V, I, V)(v.t, geti(ix.t)), ANY) if ix.ty == INT else \
                SV(self.ufunc('anyget', V, V, V)(v.t, self.term(c['st'], ix)), ANY)
        r = self.op_index(c['st'], v, ix)[0]
        if unopt(v.ty)[0] == 'map' and v.st is None and r.ty != ANY and not self.has_bound(r.t, c['bound']):  # values of maps are of their declared type
            st = c['st']
            st.add(Implies(And(V.is_map(v.t), mhas(getm(v.t), self.term(st, ix))), self.typeinv(st, r.t, r.ty)))
        return r

    def has_bound(self, t, bound):
        if not bound:
            return False
        ids = {b.get_id() for b in bound}
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in ids:
                return True
            if x.get_id() not in seen:
                seen.add(x.get_id())
                todo.extend(x.children())
        return False

    def sv_Compare(self, e, c):
        l = self.sv(e.left, c)
        out = []
        for op, r in zip(e.ops, e.comparators):
            r = self.sv(r, c)
            out.append(self.sv_cmp(c, op, l, r))
            l = r
        return self.boolv(And(*out))

    def sv_cmp(self, c, op, a, b):
        st = c['st']
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            la = self.is_container(st, a)
            lb = self.is_container(st, b)
            if isinstance(op, (ast.Eq, ast.NotEq)) and (la or lb):
                r = self.same_container(st, a, b)
                return r if isinstance(op, ast.Eq) else Not(r)
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            x, y = geti(a.t), geti(b.t)
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
        return self.op_compare(st, op, a, b)[0]

    def is_container(self, st, v):
        v = self.resolve_priv(st, v)
        if v.st and v.st[0] in ('priv', 'snap', 'record'):
            return True
        return v.ty[0] in ('list', 'dict', 'set')

    def same_container(self, st, a, b):
        a, b = self.resolve_priv(st, a), self.resolve_priv(st, b)
        for x, y in ((a, b), (b, a)):
            if x.st and x.st[0] == 'record':
                d = self.load_dict(st, y) if not (y.st and y.st[0] == 'record') else None
                if d is None:
                    raise OOS('spec: record comparison')
                ks = [self.const(k).t for k, _ in x.st[1]]
                return And(d.n == len(ks), *[And(self.dict_has(d, k), self.dict_val(d, k) == self.term(st, v))
                                             for k, (_, v) in zip(ks, x.st[1])])
        da, db = self.load_dict(st, a), self.load_dict(st, b)
        if da is not None and db is not None:
            x = z3.Const('x!sc', V)
            ha, hb, va, vb = (self.sel(m, x) for m in (da.has, db.has, da.val, db.val))
            return And(da.n == db.n, ForAll([x], And(ha == hb, Implies(ha, va == vb)), patterns=[ha, hb, va, vb]))
        la, lb = self.load_list(st, a), self.load_list(st, b)
        if la is None or lb is None:
            raise OOS('spec: container comparison')
        i = z3.Int('i!sc')
        return And(la.n == lb.n, ForAll([i], Implies(And(i >= 0, i < la.n), self.sel(la.at, i) == self.sel(lb.at, i))))

    def sv_BoolOp(self, e, c):
        vs = [self.sv(x, c) for x in e.values]
        st = c['st']
        if all(v.ty == BOOL for v in vs):
            ts = [self.truth(st, v) for v in vs]
            return self.boolv(And(*ts) if isinstance(e.op, ast.And) else Or(*ts))
        # value semantics
        r = vs[-1]
        for v in reversed(vs[:-1]):
            t = self.truth(st, v)
            if isinstance(e.op, ast.And):
                r = self.ite(st, t, r, v)
            else:
                r = self.ite(st, t, v, r)
        return r

    def ite(self, st, t, a, b):
        if z3.is_true(t):
            return a
        if z3.is_false(t):
            return b
        if a.ty == BOOL and b.ty == BOOL:
            return self.boolv(If(t, getb(a.t), getb(b.t)))
        if a.ty == INT and b.ty == INT:
            return self.intv(If(t, geti(a.t), geti(b.t)))
        pa, pb = self.is_container(st, a) or None, self.is_container(st, b) or None
        if pa and pb and (a.t is None or b.t is None):
            la, lb = self.load_list(st, a), self.load_list(st, b)
            if la is not None and lb is not None:
                return SV(None, ty('list', join_ty(la.ety, lb.ety)), ('snap', PList(If(t, la.n, lb.n), If(t, la.at, lb.at), None, join_ty(la.ety, lb.ety))))
        return SV(If(t, self.term(st, a), self.term(st, b)), join_ty(a.ty, b.ty))

    def sv_UnaryOp(self, e, c):
        v = self.sv(e.operand, c)
        if isinstance(e.op, ast.Not):
            return self.boolv(Not(self.truth(c['st'], v)))
        return self.mkint(-geti(v.t))

    def sv_BinOp(self, e, c):
        return self.op_bin(c['st'], e.op, self.sv(e.left, c), self.sv(e.right, c))[0]

    def sv_IfExp(self, e, c):
        t = self.truth(c['st'], self.sv(e.test, c))
        return self.ite(c['st'], t, self.sv(e.body, c), self.sv(e.orelse, c))

    def sv_Tuple(self, e, c):
        return SV(None, ANY, ('tuple', [self.sv(x, c) for x in e.elts]))

    def sv_List(self, e, c):
        return self.new_plist(c['st'], [self.sv(x, c) for x in e.elts])

    def sv_Dict(self, e, c):
        return SV(None, ANY, ('record', [(k.value, self.sv(v, c)) for k, v in zip(e.keys, e.values)]))

    def sv_JoinedStr(self, e, c):
        pieces = []
        for v in e.values:
            pieces.append(v.value if isinstance(v, ast.Constant) else self.strof(c['st'], self.sv(v.value, c)))
        return self.mkstr(c['st'], pieces)

    # ------------------------------------------------------------------ calls
    def sv_Call(self, e, c):
        st = c['st']
        if isinstance(e.func, ast.Name):
            n = e.func.id
            m = getattr(self, 'sf_' + n, None)
            if m is not None:
                return m(e, c)
            if n in self.reg.macros:
                params, body = self.reg.macros[n]
                names = dict(c['names'])
                names.update({p: self.sv(a, c) for p, a in zip(params, e.args)})
                return self.sv(self.parse(body), dict(c, names=names))
            if n in self.reg.ghosts:
                return self.ghost(n, [self.sv(a, c) for a in e.args], c)
            if n in self.reg.spec_calls:
                # application of a pure function under contract, by its contract symbol
                ct = self.reg.contracts[self.reg.spec_calls[n]]
                args = [self.term(st, self.coerce(st, self.sv(a, c), self.norm_type(t))) for a, t in zip(e.args, ct.params.values())]
                f = self.ufunc('F:' + ct.key, *([V] * len(args) + [V]))
                r = SV(f(*args), self.norm_type(ct.ret))
                if not c['bound']:
                    st.add(self.typeinv(st, r.t, r.ty))
                return r
            raise OOS(f'spec: call of {n}')
        if isinstance(e.func, ast.Attribute):
            v = self.sv(e.func.value, c)
            args = [self.sv(a, c) for a in e.args]
            return self.spec_method(c, v, e.func.attr, args)
        raise OOS('spec: call')

    def spec_method(self, c, v, name, args):
        st = c['st']
        v = self.resolve_priv(st, v)
        k = unopt(v.ty)[0]
        if v.st and v.st[0] == 'record' and name == 'get':
            return self.record_get(st, v, args[0], args[1] if len(args) > 1 else self.const(None))[0]
        if k in ('dict', 'map') or (v.st and v.st[0] == 'snap' and isinstance(v.st[1], PDict)):
            d = self.load_dict(st, v)
            if name == 'get':
                dflt = args[1] if len(args) > 1 else self.const(None)
                kt = self.term(st, args[0])
                return SV(If(self.dict_has(d, kt), self.dict_val(d, kt), self.term(st, dflt)), join_ty(d.vty, dflt.ty))
        if k == 'str' and name == 'split':
            return self.string_method(st, v, name, args, {})[0][1]
        if k == 'inst' and name == 'get' and len(args) in (1, 2):
            return self.rec_get(st, v, *args)
        if k == 'str' and name in ('strip', 'lower'):
            r = self.ufunc('str.' + name, S, S)(gets(v.t))
            return SV(V.str(r), STR)
        raise OOS(f'spec: method {name} of {v!r}')

    def sf_old(self, e, c):
        c2 = dict(c, st=c['old'])
        # names denote their entry values; the heap is the entry heap
        v = self.sv(e.args[0], c2)
        return self.snapshot(c['old'], v)

    def sf_implies(self, e, c):
        a, b = (self.truth(c['st'], self.sv(x, c)) for x in e.args)
        return self.boolv(Implies(a, b))

    def sf_iff(self, e, c):
        a, b = (self.truth(c['st'], self.sv(x, c)) for x in e.args)
        return self.boolv(a == b)

    def sf_bool(self, e, c):
        return self.boolv(self.truth(c['st'], self.sv(e.args[0], c)))

    def sf_len(self, e, c):
        return self.intv(self.length(c['st'], self.sv(e.args[0], c)))

    def sf_isinstance(self, e, c):
        return self.boolv(self.isinstance_(c['st'], self.sv(e.args[0], c), self.sv(e.args[1], c)))

    def sf_type(self, e, c):
        return SV(self.ufunc('typeof', V, V)(self.term(c['st'], self.sv(e.args[0], c))), ty('inst', 'Class'))

    def sf_classof(self, e, c):
        return SV(V.sym(clsof(getr(self.sv(e.args[0], c).t))), ty('inst', 'Class'))

    def sf_list(self, e, c):
        return self.snapshot(c['st'], SV(None, ANY, ('snap', self.load_list(c['st'], self.sv(e.args[0], c)))))

    def sf_dict(self, e, c):
        d = self.load_dict(c['st'], self.sv(e.args[0], c))
        return SV(None, ty('dict', d.kty, d.vty), ('snap', d))

    def sf_getattr(self, e, c):
        o, n = (self.sv(a, c) for a in e.args)
        return SV(self.ufunc('anyattr', V, V, V)(self.term(c['st'], o), self.term(c['st'], n)), ANY)

    def sf_calls(self, e, c):
        return self.intv(c['st'].tr.count(e.args[0].value))

    def sf_only(self, e, c):
        """No recorded operation other than the named ones was called."""
        names = {a.value for a in e.args}
        quiet = self.reg.reading
        return self.boolv(And(*[n == 0 for op, n in sorted(c['st'].tr.n.items()) if op not in names and op not in quiet]))

    def sf_str(self, e, c):
        return self.mkstr(c['st'], [self.strof(c['st'], self.sv(e.args[0], c))])

    def sf_fresh(self, e, c):
        v = self.sv(e.args[0], c)
        t = self.term(c['st'], v)
        return self.boolv(Or(Not(V.is_ref(t)), getr(t) >= c['old'].al))

    def sf_fresh_tree(self, e, c):
        """The element and everything reachable from it was allocated during the call."""
        v = self.sv(e.args[0], c)
        return self.boolv(And(getr(v.t) >= c['old'].al, self.closed(c['st'], c['old'].al)))

    def sf_pristine(self, e, c):
        """Nothing that existed before the call has been modified (source map excepted)."""
        st, o = c['st'], c['old']
        r = z3.Int('r!pr')
        gs = []
        skip = []
        sm = c['names'].get('sourcemap')
        for n in COMPS:
            if n in ('L.sq', 'G.owner', 'G.ref'):
                continue
            if st.comps[n].eq(o.comps[n]):
                continue
            ex = [r != getr(sm.t)] if sm is not None and sm.t is not None and n in DICTC else []
            gs.append(ForAll([r], Implies(And(r >= 0, r < o.al, *ex), st.comps[n][r] == o.comps[n][r])))
        return self.boolv(And(*gs))

    def sf_alive(self, e, c):
        v = self.sv(e.args[0], c)
        return self.boolv(And(V.is_ref(v.t), self.is_alive(c['st'], getr(v.t))))

    def sf_known(self, e, c):
        """Not an object that is yet to be allocated."""
        t = self.term(c['st'], self.sv(e.args[0], c))
        return self.boolv(Or(Not(V.is_ref(t)), getr(t) < c['st'].al))

    def sf_unref(self, e, c):
        """No element has it as a child."""
        v = self.sv(e.args[0], c)
        return self.boolv(Not(c['st'].comps['G.ref'][getr(v.t)]))

    def sf_allocated(self, e, c):
        return self.intv(c['st'].al)

    def sf_ref(self, e, c):
        return self.intv(getr(self.sv(e.args[0], c).t))

    def sf_is_none(self, e, c):
        return self.boolv(self.is_none(c['st'], self.sv(e.args[0], c)))

    def sf_int(self, e, c):
        return self.intv(geti(self.sv(e.args[0], c).t))

    def sf_key(self, e, c):
        """i-th key of a dict, in insertion order."""
        d = self.load_dict(c['st'], self.sv(e.args[0], c))
        return SV(self.sel(d.key, geti(self.sv(e.args[1], c).t)), d.kty)

    def sf_min(self, e, c):
        a, b = (geti(self.sv(x, c).t) for x in e.args)
        return self.intv(If(a <= b, a, b))

    def sf_seqof(self, e, c):
        """Abstract sequence of a list (ghost)."""
        pl = self.load_list(c['st'], self.sv(e.args[0], c))
        return SV(None, ANY, ('sq', pl.sq))

    def sf_cast(self, e, c):
        t = self.norm_type(e.args[1].value)
        return SV(self.term(c['st'], self.sv(e.args[0], c)), t)

    def sf_all(self, e, c):
        return self.sv_quant(e.args[0], c, True)

    def sf_any(self, e, c):
        return self.sv_quant(e.args[0], c, False)

    def sv_quant(self, g, c, isall):
        st = c['st']
        names = dict(c['names'])
        bound, guards = [], []
        pats = []
        for gen in g.generators:
            src = gen.iter
            c2 = dict(c, names=names, bound=c['bound'] + bound)
            if isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and src.func.id == 'range':
                args = [self.intt(self.sv(a, c2)) for a in src.args]
                lo, hi = (z3.IntVal(0), args[0]) if len(args) == 1 else (args[0], args[1])
                self.lits.n += 1
                x = z3.Int(f'{gen.target.id}!s{self.lits.n}')
                bound.append(x)
                guards.append(And(x >= lo, x < hi))
                names[gen.target.id] = self.intv(x)
            elif isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and src.func.id == 'refs_':
                t = self.norm_type(src.args[0].value)
                self.lits.n += 1
                x = z3.Int(f'{gen.target.id}!s{self.lits.n}')
                bound.append(x)
                kind = self.kind_of_alias(t[1]) if t[0] == 'inst' else KIND[t[0]]
                guards.append(And(x >= 0, x < c['old'].al, kindof(x) == kind))
                names[gen.target.id] = SV(V.ref(x), t)
            elif isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and src.func.id == 'values_':
                self.lits.n += 1
                x = z3.Const(f'{gen.target.id}!s{self.lits.n}', V)
                bound.append(x)
                names[gen.target.id] = SV(x, self.norm_type(src.args[0].value) if src.args else ANY)
            else:
                v = self.sv(src, c2)
                d = None
                ts = self.static_tuple(v)
                if ts is not None and len(g.generators) == 1:
                    res = []
                    for x in ts:
                        cc = dict(c, names=dict(names, **{gen.target.id: x}))
                        gs = [self.truth(st, self.sv(i, cc)) for i in gen.ifs]
                        b = self.truth(st, self.sv(g.elt, cc))
                        res.append(Implies(And(*gs), b) if isall else And(*gs, b))
                    return self.boolv(And(*res) if isall else Or(*res))
                if not (unopt(v.ty)[0] in ('list', 'seq') or (v.st and v.st[0] == 'snap' and isinstance(v.st[1], PList))):
                    d = self.load_dict(st, v)
                self.lits.n += 1
                if d is not None:
                    x = z3.Const(f'{gen.target.id}!s{self.lits.n}', V)
                    bound.append(x)
                    guards.append(z3.Select(d.has, x) if not z3.is_quantifier(d.has) else z3.simplify(z3.Select(d.has, x)))
                    names[gen.target.id] = SV(x, d.kty)
                else:
                    pl = self.load_list(st, v)
                    x = z3.Int(f'{gen.target.id}!s{self.lits.n}')
                    bound.append(x)
                    guards.append(And(x >= 0, x < pl.n))
                    names[gen.target.id] = SV(self.sel(pl.at, x), pl.ety)
            c2 = dict(c, names=names, bound=c['bound'] + bound)
            for i in gen.ifs:
                guards.append(self.truth(st, self.sv(i, c2)))
        n0 = len(st.pc)
        m0 = len(c['old'].pc)
        body = self.truth(st, self.sv(g.elt, dict(c, names=names, bound=c['bound'] + bound)))
        for s_, k in ((st, n0), (c['old'], m0)):
            s_.pc[k:] = [f for f in s_.pc[k:] if not any(self.mentions(f, b) for b in bound)]
        q = ForAll(bound, Implies(And(*guards), body)) if isall else z3.Exists(bound, And(*guards, body))
        return self.boolv(q)

    # ------------------------------------------------------------------ ghost (recursive) functions
    def ghost(self, name, args, c):
        """Ghost function given by its type and defining axioms (see registry.ghosts)."""
        g = self.reg.ghosts[name]
        st = c['st']
        sorts = {'Int': I, 'V': V, 'SQ': SQ, 'Bool': B}
        ss = [sorts[x] for x in g['sig']]
        f = self.ufunc(g.get('fn') or 'G:' + name, *ss)
        ts = []
        for a, s in zip(args, g['sig']):
            if s == 'Int':
                ts.append(geti(a.t))
            elif s == 'SQ':
                ts.append(a.st[1])
            else:
                ts.append(self.term(st, a))
        r = f(*ts)
        out = g['sig'][-1]
        if out == 'Int':
            return self.intv(r)
        if out == 'Bool':
            return self.boolv(r)
        if out == 'SQ':
            return SV(None, ANY, ('sq', r))
        return SV(r, self.norm_type(g.get('ret', 'Any')))
