"""Path-splitting symbolic executor for the subset of Python used by the code under contract."""
import ast
import builtins
import z3
from .terms import *
from .state import *
from .engine import Exc, KIND
from .ops import Ops
from .source import FuncInfo, ClassInfo

MAXPATHS = 400


class Out:
    """Outcome of a statement list: next | return | raise | break | continue."""
    __slots__ = ('k', 'v')

    def __init__(self, k, v=None):
        self.k, self.v = k, v


NEXT = Out('next')


class Iter:
    """Abstract iteration source: n(st) (None: unbounded) and at(st, i)."""

    def __init__(self, n, at, static=None, ety=ANY):
        self.n, self.at, self.static, self.ety = n, at, static, ety


class Symex(Ops):
    MAXDEPTH = 10

    # ------------------------------------------------------------------ plumbing
    def bind(self, outs, f):
        res = []
        for st, v in outs:
            if isinstance(v, Exc):
                res.append((st, v))
            else:
                res.extend(f(st, v))
        if len(res) > MAXPATHS:
            raise OOS('too many paths')
        return res

    def evs(self, nodes, st, acc=()):
        """Evaluate a list of expressions left to right -> [(st, [values])]"""
        outs = [(st, [])]
        for n in nodes:
            outs = self.bind(outs, lambda s, vs, n=n: [(s2, v if isinstance(v, Exc) else vs + [v])
                                                      for s2, v in self.ev(n, s)])
        return outs

    def split(self, st, cond):
        """-> (state where cond, state where not cond); None when infeasible."""
        c = z3.simplify(cond) if z3.is_expr(cond) else cond
        if z3.is_true(c):
            return st, None
        if z3.is_false(c):
            return None, st
        a, b = st.copy(), st
        a.add(cond)
        b = st.copy()
        b.add(Not(cond))
        if self.infeasible(a):
            return None, b
        if self.infeasible(b):
            return a, None
        return a, b

    def checked(self, st, res):
        """(value, [(ok, exc)]) -> outcomes, raising where a definedness condition fails."""
        v, oks = res
        outs = []
        for ok, exc in oks:
            if st is None:
                break
            if self.prove(st, ok):
                st.add(ok)
                continue
            good, bad = self.split(st, ok)
            if bad is not None:
                outs.append((bad, Exc(exc, None)))
            st = good
        if st is not None:
            outs.append((st, v))
        return outs

    # ------------------------------------------------------------------ names
    def lookup(self, st, name, fn):
        if name in st.env:
            v = st.env[name]
            if v is None:
                raise OOS(f'possibly unbound local {name}')
            return v
        for up in st.extra.get('closure', ()):
            if name in up:
                return up[name]
        r = self.prog.lookup(self.cur_mod(st), name)
        if r is not None:
            return self.entity(st, r, name)
        if hasattr(builtins, name):
            return SV(None, ANY, ('ext', name))
        raise OOS(f'unresolved name {name}')

    def cur_mod(self, st):
        return st.extra['fn'].mod

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise OOS(f'expression {type(e).__name__}', e)
        return m(e, st)

    def ev_Constant(self, e, st):
        return [(st, self.const(e.value))]

    def ev_Name(self, e, st):
        return [(st, self.lookup(st, e.id, None))]

    def ev_Attribute(self, e, st):
        return self.bind(self.ev(e.value, st), lambda s, v: self.get_attr(s, v, e.attr))

    def get_attr(self, st, v, attr):
        res = self.op_attr(st, v, attr)
        outs = self.checked(st, res)

        def prop(s, r):
            if r.st and r.st[0] == 'func' and r.st[1].is_property and r.st[2] is not None:
                return self.call(s, r, [], {})
            if r.st and r.st[0] == 'imeth' and self.reg.imeths[r.st[1]].prop:
                return self.call(s, r, [], {})
            return [(s, r)]
        return self.bind(outs, prop)

    def ev_Subscript(self, e, st):
        def f(s, v):
            if isinstance(e.slice, ast.Slice):
                parts = [e.slice.lower, e.slice.upper]
                if e.slice.step is not None:
                    raise OOS('slice step', e)
                return self.bind(self.evs([p for p in parts if p is not None], s), lambda s2, vs: self.checked(
                    s2, self.op_slice(s2, v, vs[0] if parts[0] is not None else None,
                                      vs[-1] if parts[1] is not None else None)))
            return self.bind(self.ev(e.slice, s), lambda s2, ix: self.do_index(s2, v, ix))
        return self.bind(self.ev(e.value, st), f)

    def do_index(self, st, v, ix):
        h = self.any_index(st, v, ix)
        if h is not None:
            return h
        return self.checked(st, self.op_index(st, v, ix))

    def any_index(self, st, v, ix):
        if v.st is None and v.ty == ANY:
            t = self.term(st, ix)
            return [(st, SV(self.ufunc('anyget', V, V, V)(v.t, t), ANY))]
        if v.st is not None and v.st[0] == 'ext':
            return [(st, v)]           # subscripted typing constructs
        if v.st is not None and v.st[0] == 'class':
            return [(st, v)]
        return None

    def ev_UnaryOp(self, e, st):
        def f(s, v):
            if isinstance(e.op, ast.Not):
                return [(s, self.boolc(Not(self.truth(s, v))))]
            if isinstance(e.op, ast.USub) and v.t is not None:
                return [(s, self.mkint(-geti(v.t)))]
            raise OOS('unary', e)
        return self.bind(self.ev(e.operand, st), f)

    def boolc(self, b):
        b = z3.simplify(b) if not (z3.is_quantifier(b)) else b
        if z3.is_true(b):
            return self.const(True)
        if z3.is_false(b):
            return self.const(False)
        return self.boolv(b)

    def ev_BinOp(self, e, st):
        return self.bind(self.evs([e.left, e.right], st), lambda s, vs: self.checked(s, self.op_bin(s, e.op, *vs)))

    def ev_Compare(self, e, st):
        def go(s, left, ops, rest):
            def f(s2, right):
                outs = self.checked(s2, self.cmp(s2, ops[0], left, right))
                if len(ops) == 1:
                    return outs
                res = []
                for s3, v in outs:
                    if isinstance(v, Exc):
                        res.append((s3, v))
                        continue
                    a, b = self.split(s3, self.truth(s3, v))
                    if b is not None:
                        res.append((b, self.const(False)))
                    if a is not None:
                        res.extend(go(a, right, ops[1:], rest[1:]))
                return res
            return self.bind(self.ev(rest[0], s), f)
        return self.bind(self.ev(e.left, st), lambda s, l: go(s, l, e.ops, e.comparators))

    def cmp(self, st, op, a, b):
        r, oks = self.op_compare(st, op, a, b, True)
        return self.boolc(r), oks

    def try_merge(self, st, cond, branches):
        """branches: [(state, value)] for cond / not cond. Join two pure single outcomes into one If-value."""
        (sa, va), (sb, vb) = branches
        if isinstance(va, Exc) or isinstance(vb, Exc):
            return None
        for s in (sa, sb):
            if s.ver != st.ver or s.al is not st.al or not self.same_trace(s, st) or any(
                    s.comps[c] is not st.comps[c] for c in s.comps) or s.env.keys() != st.env.keys() or \
                    any(s.env[k] is not st.env[k] for k in s.env) or s.esc != st.esc or s.fw != st.fw:
                return None
            if any(p not in st.priv or s.priv[p] is not st.priv[p] for p in s.priv):
                return None
        if va is vb:
            v = va
        else:
            ok = lambda v: v.t is not None and (v.st is None or v.st[0] == 'const')
            if not ok(va) or not ok(vb):
                return None
            j = join_ty(va.ty, vb.ty)
            if j == ANY and va.ty != ANY and vb.ty != ANY:
                return None                 # keep the paths apart: what they say about the value depends on its type
            v = SV(If(cond, va.t, vb.t), j)
        out = st.copy()
        n = len(st.pc)
        for f in sa.pc[n:]:
            if not f.eq(cond):
                out.add(Implies(cond, f))
        nc = Not(cond)
        for f in sb.pc[n:]:
            if not f.eq(nc):
                out.add(Implies(nc, f))
        for s in (sa, sb):
            for k, x in s.extra.items():
                if k not in out.extra and not (isinstance(k, tuple) and k[0] in ('once', 'tuple', 'tsnoc', 'tcons', 'tinit')):
                    return None
        return [(out, v)]

    def ev_IfExp(self, e, st):
        def f(s, c):
            cond = self.truth(s, c)
            a, b = self.split(s, cond)
            if a is None:
                return self.ev(e.orelse, b)
            if b is None:
                return self.ev(e.body, a)
            oa, ob = self.ev(e.body, a), self.ev(e.orelse, b)
            if len(oa) == 1 and len(ob) == 1:
                m = self.try_merge(s, cond, [oa[0], ob[0]])
                if m:
                    return m
            return oa + ob
        return self.bind(self.ev(e.test, st), f)

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def go(s, i):
            def f(s2, v):
                if i == len(e.values) - 1:
                    return [(s2, v)]
                t = self.truth(s2, v)
                a, b = self.split(s2, t)
                stop, cont = (b, a) if isand else (a, b)
                if cont is None:
                    return [(stop, v)]
                if stop is None:
                    return go(cont, i + 1)
                oc = go(cont, i + 1)
                if len(oc) == 1:
                    cond = t
                    br = [(oc[0]), (stop, v)] if isand else [(stop, v), oc[0]]
                    if isand:
                        m = self.try_merge(s2, cond, br)
                    else:
                        m = self.try_merge(s2, cond, br)
                    if m:
                        return m
                return [(stop, v)] + oc
            return self.bind(self.ev(e.values[i], s), f)
        return go(st, 0)

    def ev_NamedExpr(self, e, st):
        def f(s, v):
            s.env[e.target.id] = v
            return [(s, v)]
        return self.bind(self.ev(e.value, st), f)

    def ev_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.star_seq(e, st, 'tuple')
        return self.bind(self.evs(e.elts, st), lambda s, vs: [(s, SV(None, ANY, ('tuple', vs)))])

    def ev_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.star_seq(e, st, 'list')
        return self.bind(self.evs(e.elts, st), lambda s, vs: [(s, self.new_plist(s, vs))])

    def star_seq(self, e, st, kind):
        vals = [x.value if isinstance(x, ast.Starred) else x for x in e.elts]
        stars = [isinstance(x, ast.Starred) for x in e.elts]

        def f(s, vs):
            cur = SV(None, ANY, ('tuple', []))
            for v, star in zip(vs, stars):
                piece = v if star else SV(None, ANY, ('tuple', [v]))
                if star and kind == 'tuple' and unopt(v.ty)[0] != 'seq' and self.static_tuple(v) is None:
                    if v.ty == ANY and v.st is None:
                        piece = SV(v.t, ty('seq', ANY))
                    else:
                        raise OOS('starred list in tuple', e)
                if self.static_tuple(cur) == []:
                    cur = piece
                else:
                    cur, oks = self.op_bin(s, ast.Add(), cur, piece)
                    if oks:
                        raise OOS('starred', e)
            if kind == 'list':
                return self.bi_list(s, [cur], {})
            return [(s, cur)]
        return self.bind(self.evs(vals, st), f)

    def ev_Dict(self, e, st):
        if all(k is not None for k in e.keys):
            if not e.keys:
                return [(st, self.new_pdict(st))]

            def f(s, vs):
                n = len(e.keys)
                if all(v.st and v.st[0] == 'const' and isinstance(v.st[1], str) for v in vs[:n]):
                    return [(s, SV(None, ANY, ('record', [(k.st[1], v) for k, v in zip(vs[:n], vs[n:])])))]
                p = self.new_pdict(s)
                d = self.load_dict(s, p)
                for k, v in zip(vs[:n], vs[n:]):
                    d = self.dict_set(d, self.term(s, k), self.term(s, v), self.ty_of(s, k), self.ty_of(s, v))
                self.store_dict(s, p, d)
                return [(s, p)]
            return self.bind(self.evs(list(e.keys) + list(e.values), st), f)
        # with ** parts
        nodes = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)

        def g(s, vs):
            it = iter(vs)
            p = self.new_pdict(s)
            for k, v in zip(e.keys, e.values):
                if k is None:
                    self.dict_update(s, p, next(it))
                else:
                    kk, vv = next(it), next(it)
                    self.store_dict(s, p, self.dict_set(self.load_dict(s, p), self.term(s, kk), self.term(s, vv),
                                                        self.ty_of(s, kk), self.ty_of(s, vv)))
            return [(s, self.as_pdict_ty(s, p))]
        return self.bind(self.evs(nodes, st), g)

    def as_pdict_ty(self, s, p):
        d = s.priv[p.st[1]]
        return SV(None, ty('dict', d.kty, d.vty), p.st)

    def ty_of(self, st, v):
        if v.t is None and v.st and v.st[0] == 'tuple':
            return ty('seq', ANY)
        return v.ty

    def dict_update(self, st, p, src):
        """p.update(src): source entries win; order: old keys, then new ones in source order."""
        d = self.load_dict(st, p)
        if src.st and src.st[0] == 'record':
            for k, v in src.st[1]:
                d = self.dict_set(d, self.const(k).t, self.term(st, v), STR, v.ty)
            self.store_dict(st, p, d)
            return
        s = self.load_dict(st, src)
        if s is None:
            raise OOS(f'dict update from {src!r}')
        if z3.is_int_value(d.n) and d.n.as_long() == 0:
            self.store_dict(st, p, PDict(s.n, s.key, s.has, s.val, s.pos, s.kty, s.vty))
            return
        has, val = self.fresh('uh', z3.ArraySort(V, B)), self.fresh('uv', z3.ArraySort(V, V))
        key, pos, n = self.fresh('uk', AIV), self.fresh('up', z3.ArraySort(V, I)), self.fresh('un', I)
        x = z3.Const('x!u', V)
        shas, sval, dhas = z3.Select(s.has, x), z3.Select(s.val, x), z3.Select(d.has, x)
        st.add(ForAll([x], And(has[x] == Or(shas, dhas)), patterns=[has[x]]))
        st.add(ForAll([x], val[x] == If(shas, sval, z3.Select(d.val, x)), patterns=[val[x]]))
        r = PDict(n, key, has, val, pos, join_ty(d.kty, s.kty), join_ty(d.vty, s.vty))
        st.add(n >= d.n, n >= s.n, n <= d.n + s.n)
        st.add(self.dict_wf(r))
        i = z3.Int('i!u')
        st.add(ForAll([i], Implies(And(i >= 0, i < d.n), key[i] == z3.Select(d.key, i)), patterns=[key[i]]))
        self.store_dict(st, p, r)

    def ev_Set(self, e, st):
        def f(s, vs):
            p = self.new_pdict(s, kind='set')
            for v in vs:
                self.set_add(s, p, v)
            return [(s, p)]
        return self.bind(self.evs(e.elts, st), f)

    def set_add(self, s, p, v):
        self.store_dict(s, p, self.dict_set(self.load_dict(s, p), self.term(s, v), NONE, self.ty_of(s, v), NONET))

    def ev_JoinedStr(self, e, st):
        nodes = [v.value for v in e.values if isinstance(v, ast.FormattedValue)]

        def f(s, vs):
            it = iter(vs)
            pieces = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    pieces.append(v.value)
                else:
                    if v.format_spec is not None:
                        raise OOS('format spec', e)
                    x = next(it)
                    if x.t is None and not (x.st and x.st[0] == 'const'):
                        pieces.append(self.fresh('fmt', S))
                    else:
                        pieces.append(self.strof(s, x))
            return [(s, self.mkstr(s, pieces))]
        return self.bind(self.evs(nodes, st), f)

    def ev_Lambda(self, e, st):
        return [(st, SV(None, ANY, ('closure', e, [dict(st.env)] + list(st.extra.get('closure', ())), st.extra['fn'])))]

    # ------------------------------------------------------------------ comprehensions
    def ev_ListComp(self, e, st):
        return self.comp(e, st, 'list')

    def ev_SetComp(self, e, st):
        return self.comp(e, st, 'set')

    def ev_DictComp(self, e, st):
        return self.comp(e, st, 'dict')

    def ev_GeneratorExp(self, e, st):
        return [(st, SV(None, ANY, ('gen', e, dict(st.env))))]

    def comp(self, e, st, kind):
        if len(e.generators) != 1:
            return self.comp_loop(e, st, kind)
        g = e.generators[0]

        def f(s, src):
            it = self.iter_of(s, src)
            if it.static is not None and len(it.static) <= 12:
                return self.comp_static(e, s, it, kind)
            pure = self.comp_pure(e, s, it, kind)
            if pure is not None:
                return pure
            return self.comp_loop(e, s, kind)
        return self.bind(self.ev(g.iter, st), f)

    def comp_static(self, e, st, it, kind):
        g = e.generators[0]
        saved = dict(st.env)
        if kind == 'list':
            p = self.new_plist(st, [])
        else:
            p = self.new_pdict(st, kind=kind)
        outs = [(st, p)]
        for item in it.static:
            def step(s, p, item=item):
                rs = self.assign(g.target, item, s)
                rs = self.bind(rs, lambda s2, _: self.conds(g.ifs, s2))

                def put(s3, ok):
                    if not ok:
                        return [(s3, p)]
                    if kind == 'dict':
                        return self.bind(self.evs([e.key, e.value], s3), lambda s4, kv: self.pput(s4, p, kind, kv))
                    return self.bind(self.ev(e.elt, s3), lambda s4, v: self.pput(s4, p, kind, v))
                return self.bind(rs, put)
            outs = self.bind(outs, step)

        def fin(s, p):
            s.env = self.restore(saved, s.env, g)
            return [(s, p)]
        return self.bind(outs, fin)

    def restore(self, saved, env, g):
        names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        out = {k: v for k, v in env.items() if k not in names}
        for n in names:
            if n in saved:
                out[n] = saved[n]
        return out

    def pput(self, s, p, kind, v):
        if kind == 'list':
            self.list_append(s, p, v)
        elif kind == 'set':
            self.set_add(s, p, v)
        else:
            self.store_dict(s, p, self.dict_set(self.load_dict(s, p), self.term(s, v[0]), self.term(s, v[1]),
                                                self.ty_of(s, v[0]), self.ty_of(s, v[1])))
        return [(s, p)]

    def conds(self, ifs, st):
        outs = [(st, True)]
        for c in ifs:
            def f(s, ok, c=c):
                if not ok:
                    return [(s, False)]

                def g(s2, v):
                    a, b = self.split(s2, self.truth(s2, v))
                    return ([(a, True)] if a is not None else []) + ([(b, False)] if b is not None else [])
                return self.bind(self.ev(c, s), g)
            outs = self.bind(outs, f)
        return outs

    def list_append(self, st, lst, v):
        pl = self.load_list(st, lst)
        t = self.term(st, v)
        ety = self.ty_of(st, v) if z3.is_int_value(pl.n) and pl.n.as_long() == 0 and self.is_priv(st, lst) else (
            join_ty(pl.ety, self.ty_of(st, v)) if self.is_priv(st, lst) else pl.ety)
        if not self.is_priv(st, lst) and pl.ety[0] == 'inst' and self.family(pl.ety[1]) == 'XmlElement':
            st.comps['G.ref'] = z3.Store(st.comps['G.ref'], getr(t), TRUE)
        self.store_list(st, lst, PList(z3.simplify(pl.n + 1), z3.Store(pl.at, pl.n, t),
                                       sq_snoc(pl.sq, t) if pl.sq is not None else None, ety))

    def pure_eval(self, st, f):
        """Evaluate f(state copy) -> value(s); returns (facts, result) when it has one effect-free outcome."""
        s = st.copy()
        try:
            outs = f(s)
        except OOS:
            return None
        if len(outs) != 1 or isinstance(outs[0][1], Exc):
            return None
        s2, v = outs[0]
        if s2.al is not st.al or any(s2.comps[c] is not st.comps[c] for c in s2.comps) or not self.same_trace(s2, st):
            return None
        if s2.esc.keys() != st.esc.keys() or s2.fw.keys() != st.fw.keys():
            return None
        if any(p in s2.priv and s2.priv[p] is not st.priv[p] for p in st.priv):
            return None
        return s2.pc[len(st.pc):], v, s2

    def same_trace(self, a, b):
        return a.tr.n.keys() == b.tr.n.keys() and all(a.tr.n[o] is b.tr.n[o] for o in a.tr.n)

    def iter_elem(self, st, it, target, i):
        def f(s):
            return self.assign(target, it.at(s, i), s)
        return f

    def comp_pure(self, e, st, it, kind):
        """Closed form of an effect-free comprehension."""
        g = e.generators[0]
        i = self.fresh('i!c', I)
        n = it.n(st)
        if n is None:
            return None

        def body(s):
            s.add(i >= 0, i < n)
            outs = self.assign(g.target, it.at(s, i), s)

            def conds(s2, _):
                acc = [(s2, [])]
                for c in g.ifs:
                    acc = self.bind(acc, lambda s3, cs, c=c: [(s4, v if isinstance(v, Exc) else cs + [self.truth(s4, v)])
                                                             for s4, v in self.ev(c, s3)])
                return acc

            def elt(s2, cs):
                if kind == 'dict':
                    return [(s3, v if isinstance(v, Exc) else (cs, [self.term(s3, v[0]), self.term(s3, v[1])],
                                                               [self.ty_of(s3, x) for x in v]))
                            for s3, v in self.evs([e.key, e.value], s2)]
                return [(s3, v if isinstance(v, Exc) else (cs, [self.term(s3, v)], [self.ty_of(s3, v)]))
                        for s3, v in self.ev(e.elt, s2)]
            return self.bind(self.bind(outs, conds), elt)
        r = self.pure_eval(st, body)
        if r is None:
            return None
        facts, (conds, terms, types), s2 = r
        facts = [f for f in facts if not f.eq(i >= 0) and not f.eq(i < n)]
        rng = lambda k: And(k >= 0, k < n)
        if facts:
            # facts that mention the index are true for every index in range
            dep = [f for f in facts if self.mentions(f, i)]
            for f in facts:
                if not self.mentions(f, i):
                    st.add(f)
            if dep:
                st.add(ForAll([i], Implies(rng(i), And(*dep))))
        cond = And(*conds)
        sub = lambda t, k: z3.substitute(t, (i, k))
        if kind == 'list':
            at = self.fresh('cl', AIV)
            k = z3.Int('k!c')
            if z3.is_true(cond):
                st.add(ForAll([k], Implies(And(k >= 0, k < n), at[k] == sub(terms[0], k)), patterns=[at[k]]))
                m = n
            else:
                m = self.filter_facts(st, n, lambda k: sub(cond, k), lambda k: sub(terms[0], k), at)
            return [(st, self.put_priv(st, PList(m, at, self.fresh('sq', SQ), types[0]), 'list'))]
        # dict / set: last index wins
        m, has = self.fresh('cn', I), self.fresh('ch', z3.ArraySort(V, B))
        key, pos, val = self.fresh('ck', AIV), self.fresh('cp', z3.ArraySort(V, I)), self.fresh('cv', z3.ArraySort(V, V))
        w = z3.Function(self.fresh('w', I).decl().name(), V, I)
        k, x = z3.Int('k!c'), z3.Const('x!c', V)
        st.add(m >= 0, m <= n)
        kt = sub(terms[0], k)
        st.add(ForAll([k], Implies(And(k >= 0, k < n, sub(cond, k)), And(has[kt], w(kt) >= k)),
                         patterns=[kt] if self.good_pattern(kt, k) else []))
        wx = w(x)
        st.add(ForAll([x], Implies(has[x], And(wx >= 0, wx < n, sub(cond, wx), sub(terms[0], wx) == x)), patterns=[has[x]]))
        if kind == 'dict':
            st.add(ForAll([x], Implies(has[x], val[x] == sub(terms[1], wx)), patterns=[val[x]]))
        d = PDict(m, key, has, val, pos, types[0], types[1] if kind == 'dict' else NONET)
        st.add(self.dict_wf(d))
        if z3.is_true(cond):
            # injective keys: entry order is the source order
            k2 = z3.Int('k2!c')
            inj = ForAll([k, k2], Implies(And(k >= 0, k < n, k2 >= 0, k2 < n, sub(terms[0], k) == sub(terms[0], k2)), k == k2))
            st.add(Implies(inj, And(m == n, ForAll([k], Implies(And(k >= 0, k < n), key[k] == sub(terms[0], k)),
                                                      patterns=[key[k]]))))
        return [(st, self.put_priv(st, d, kind))]

    def good_pattern(self, t, k):
        return z3.is_app(t) and t.num_args() > 0 and self.mentions(t, k) and not self.has_ite(t)

    def has_ite(self, t):
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x) or not z3.is_app(x):
                return True
            if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ):
                return True
            todo.extend(x.children())
        return False

    def mentions(self, t, c):
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.eq(c):
                return True
            if z3.is_quantifier(x):
                todo.append(x.body())
            else:
                todo.extend(x.children())
        return False

    def filter_facts(self, st, n, cond, elt, at):
        """at[0..m) is the order preserving filter of elt(0..n) by cond; returns m."""
        m = self.fresh('fn', I)
        src = z3.Function(self.fresh('src', I).decl().name(), I, I)
        inv = z3.Function(self.fresh('inv', I).decl().name(), I, I)
        j, k = z3.Int('j!f'), z3.Int('k!f')
        st.add(m >= 0, m <= n)
        st.add(ForAll([j], Implies(And(j >= 0, j < m), And(src(j) >= 0, src(j) < n, cond(src(j)), inv(src(j)) == j,
                                                              at[j] == elt(src(j)))), patterns=[at[j]]))
        st.add(ForAll([j], Implies(And(j >= 0, j < m), And(src(j) >= 0, src(j) < n, cond(src(j)), inv(src(j)) == j, at[j] == elt(src(j)))),
                         patterns=[src(j)]))
        zero = z3.IntVal(0)
        st.add(Implies(m > 0, And(src(zero) >= 0, src(zero) < n, cond(src(zero)), inv(src(zero)) == 0, at[zero] == elt(src(zero)))))
        st.add(ForAll([j, k], Implies(And(j >= 0, j < k, k < m), src(j) < src(k)), patterns=[z3.MultiPattern(src(j), src(k))]))
        e = elt(k)
        pats = [inv(k)]
        st.add(ForAll([k], Implies(And(k >= 0, k < n, cond(k)), And(inv(k) >= 0, inv(k) < m, src(inv(k)) == k)),
                         patterns=pats))
        if self.good_pattern(e, k):
            st.add(ForAll([k], Implies(And(k >= 0, k < n, cond(k)), And(inv(k) >= 0, inv(k) < m, src(inv(k)) == k)),
                             patterns=[e]))
        # an empty result means nothing satisfied the condition
        st.add(Implies(m == 0, ForAll([k], Implies(And(k >= 0, k < n), Not(cond(k))))))
        return m

    def comp_loop(self, e, st, kind):
        """General comprehension: desugared to an explicit loop."""
        acc = '$acc%d' % self.lits.n
        self.lits.n += 1
        if kind == 'list':
            put = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc), 'append'), [e.elt], []))
        elif kind == 'set':
            put = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc), 'add'), [e.elt], []))
        else:
            put = ast.Assign([ast.Subscript(ast.Name(acc), e.key)], e.value)
        body = [put]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        for b in body:
            ast.fix_missing_locations(ast.copy_location(b, e))
            for x in ast.walk(b):
                if not hasattr(x, 'lineno') and isinstance(x, (ast.stmt, ast.expr)):
                    x.lineno = e.lineno
        saved = dict(st.env)
        st.env[acc] = self.new_plist(st, []) if kind == 'list' else self.new_pdict(st, kind=kind)
        res = []
        for s, o in self.exec(body, st):
            if o.k == 'raise':
                res.append((s, o.v))
                continue
            v = s.env[acc]
            for g in e.generators:
                s.env = self.restore(saved, s.env, g)
            s.env.pop(acc, None)
            res.append((s, v))
        return res

    # ------------------------------------------------------------------ iteration sources
    def iter_of(self, st, sv):
        sv = self.resolve_priv(st, sv)
        ts = self.static_tuple(sv)
        if ts is not None:
            return Iter(lambda s: z3.IntVal(len(ts)), None, static=list(ts))
        if sv.st:
            k = sv.st[0]
            if k == 'record':
                return Iter(None, None, static=[self.const(x) for x, _ in sv.st[1]])
            if k == 'iter':
                return sv.st[1]
            if k == 'gen':
                e, env = sv.st[1], sv.st[2]
                saved = st.env
                st.env = dict(env)
                r = self.comp(ast.copy_location(ast.ListComp(e.elt, e.generators), e), st, 'list')
                st.env = saved
                if len(r) != 1 or r[0][0] is not st:
                    raise OOS('generator with effects')
                return self.iter_of(st, r[0][1])
            if k == 'priv':
                c = st.priv[sv.st[1]]
                if isinstance(c, PList):
                    return Iter(lambda s: self.load_list(s, sv).n,
                                lambda s, i: SV(self.at(s, self.load_list(s, sv), i), self.load_list(s, sv).ety))
                return Iter(lambda s: c.n, lambda s, i: SV(self.sel(c.key, i), c.kty))
            if k == 'snap':
                c = sv.st[1]
                if isinstance(c, PList):
                    return Iter(lambda s: c.n, lambda s, i: SV(self.sel(c.at, i), c.ety))
                return Iter(lambda s: c.n, lambda s, i: SV(self.sel(c.key, i), c.kty))
        t = unopt(sv.ty)
        if t[0] == 'inst' and 'iter' in (self.reg.schema.get(t[1]) or {}):   # an external iterable: its items are a declared field
            return self.iter_of(st, self.op_attr(st, sv, self.reg.schema[t[1]]['iter'])[0])
        if t[0] == 'list':
            return Iter(lambda s: s.comps['L.n'][getr(sv.t)],
                        lambda s, i: self.read(s, s.comps['L.at'][getr(sv.t)][i], t[1]))
        if t[0] in ('seq', 'tup'):
            if t[0] == 'tup':
                return Iter(None, None, static=[SV(tat(gett(sv.t), z3.IntVal(i)), x) for i, x in enumerate(t[1:])])
            return Iter(lambda s: tn(gett(sv.t)), lambda s, i: self.read(s, tat(gett(sv.t), i), t[1]))
        if t[0] in ('dict', 'set', 'map', 'fset'):
            d = self.load_dict(st, sv)
            return Iter(lambda s: d.n, lambda s, i: self.read(s, self.sel(d.key, i), d.kty))
        if t == ANY and sv.st is None:
            f = self.ufunc('anyat', V, I, V)
            ln = self.ufunc('anylen', V, I)
            self.once(st, ('anylen', sv.t.get_id()), ln(sv.t) >= 0)
            return Iter(lambda s: ln(sv.t), lambda s, i: SV(f(sv.t, i), ANY))
        raise OOS(f'iteration over {sv!r}')

    def sel(self, arr, i):
        t = z3.Select(arr, i)
        return z3.simplify(t) if z3.is_quantifier(arr) else t

    def mk_iter(self, it):
        if it.static is not None:
            return SV(None, ANY, ('tuple', it.static))
        return SV(None, ANY, ('iter', it))

    def zip_iters(self, st, its):
        if all(i.static is not None for i in its):
            return Iter(None, None, static=[SV(None, ANY, ('tuple', list(x))) for x in zip(*[i.static for i in its])])
        its = [self.dyn(st, i) for i in its]

        def n(s):
            ns = [i.n(s) for i in its]
            ns = [x for x in ns if x is not None]
            if not ns:
                return None
            r = ns[0]
            for x in ns[1:]:
                r = r if x.eq(r) else z3.If(x < r, x, r)
            return r
        return Iter(n, lambda s, k: SV(None, ANY, ('tuple', [i.at(s, k) for i in its])))

    def dyn(self, st, it):
        if it.static is None:
            return it
        els = it.static
        pl = self.load_list(st, SV(None, ANY, ('tuple', els)))
        return Iter(lambda s: z3.IntVal(len(els)), lambda s, i: SV(z3.Select(pl.at, i), pl.ety))

    # ------------------------------------------------------------------ assignment
    def assign(self, target, v, st):
        """-> [(st, None | Exc)]"""
        if isinstance(target, ast.Name):
            st.env[target.id] = v
            return [(st, None)]
        if isinstance(target, (ast.Tuple, ast.List)):
            return self.unpack(target.elts, v, st)
        if isinstance(target, ast.Attribute):
            return self.bind(self.ev(target.value, st), lambda s, o: self.set_attr(s, o, target.attr, v))
        if isinstance(target, ast.Subscript):
            return self.bind(self.evs([target.value, target.slice], st), lambda s, vs: self.set_item(s, vs[0], vs[1], v))
        raise OOS('assignment target', target)

    def unpack(self, elts, v, st):
        ts = self.static_tuple(v)
        stars = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
        if ts is None:
            t = unopt(v.ty)
            if t[0] == 'tup' and not stars:
                ts = [SV(tat(gett(v.t), z3.IntVal(i)), x) for i, x in enumerate(t[1:])]
            elif stars == [len(elts) - 1]:
                pl = self.load_list(st, v)
                if pl is None:
                    raise OOS('unpacking')
                k = len(elts) - 1
                outs = self.checked(st, (None, [(pl.n >= k, 'ValueError')]))

                def f(s, _):
                    heads = [SV(self.at(s, pl, z3.IntVal(i)), pl.ety) for i in range(k)]
                    rest, _ = self.op_slice(s, SV(v.t, v.ty, v.st), self.const(k), None)
                    if not self.is_priv(s, rest):
                        r2 = self.bi_list(s, [rest], {})
                        rest = r2[0][1]
                    o = [(s, None)]
                    for tg, x in list(zip(elts[:k], heads)) + [(elts[k].value, rest)]:
                        o = self.bind(o, lambda s2, _, tg=tg, x=x: self.assign(tg, x, s2))
                    return o
                return self.bind(outs, f)
            elif v.ty == ANY and v.st is None and not stars:
                f = self.ufunc('anyat', V, I, V)
                ts = [SV(f(v.t, z3.IntVal(i)), ANY) for i in range(len(elts))]
            elif self.load_list(st, v) is not None and not stars:
                pl = self.load_list(st, v)
                outs = self.checked(st, (None, [(pl.n == len(elts), 'ValueError')]))
                ts = [SV(self.at(st, pl, z3.IntVal(i)), pl.ety) for i in range(len(elts))]

                def f2(s, _):
                    o = [(s, None)]
                    for tg, x in zip(elts, ts):
                        o = self.bind(o, lambda s2, _, tg=tg, x=x: self.assign(tg, x, s2))
                    return o
                return self.bind(outs, f2)
            else:
                raise OOS('unpacking')
        if stars:
            i = stars[0]
            m = len(elts) - i - 1
            ts = ts[:i] + [SV(None, ANY, ('tuple', ts[i:len(ts) - m]))] + ts[len(ts) - m:]
            if self.static_tuple(ts[i]) is not None:
                ts[i] = self.new_plist(st, self.static_tuple(ts[i]))
            elts = [x.value if isinstance(x, ast.Starred) else x for x in elts]
        if len(ts) != len(elts):
            return [(st, Exc('ValueError'))]
        outs = [(st, None)]
        for tg, x in zip(elts, ts):
            outs = self.bind(outs, lambda s, _, tg=tg, x=x: self.assign(tg, x, s))
        return outs

    def set_attr(self, st, o, attr, v):
        o = self.resolve_priv(st, o)
        t = unopt(o.ty)
        if t[0] != 'inst':
            h = self.reg.setattr_hook
            if h is not None:
                r = h(self, st, o, attr, v)
                if r is not None:
                    return r
            raise OOS(f'attribute store {attr} on {o!r}')
        if o.ty[0] == 'opt':
            return self.bind(self.checked(st, (None, [(Not(V.is_none(o.t)), 'AttributeError')])),
                             lambda s, _: self.set_attr(s, SV(o.t, t), attr, v))
        ft = self.field_type(t[1], attr)
        if ft is None:
            raise OOS(f'unknown attribute {attr} of {t[1]}')
        kind, ft = ft
        r = getr(o.t)
        v = self.coerce(st, v, ft, f'store to {t[1]}.{attr}')
        ck = ('ctor', r.get_id())
        written = st.extra.get(ck)
        if kind == 'heap':
            if written is not None and attr not in written:
                st.extra[ck] = written | {attr}
                st.add(st.comps['f:' + attr][r] == v.t)
            else:
                self.hwrite(st, 'f:' + attr, r, v.t)
                self.touch(st)
            self.own(st, o, t[1], attr, v, written is not None)
            return [(st, None)]
        if kind == 'class':
            st.extra[('clsw', r.get_id(), attr)] = v
            st.extra['clswrites'] = dict(st.extra.get('clswrites', {}), **{attr: (o, v)})
            return [(st, None)]
        if written is None or attr in written:
            raise OOS(f'write to frozen attribute {t[1]}.{attr}')
        st.extra[ck] = written | {attr}
        st.add(self.fa(attr)(r) == v.t)
        return [(st, None)]

    def own(self, st, o, alias, attr, v, fresh_obj):
        """Ghost ownership: the object holding a list/dict/State owns it."""
        if attr not in ('elements', 'attrib', '_state'):
            return
        x = getr(v.t)
        if attr == 'attrib':
            nn = V.is_none(v.t)
            if self.prove(st, nn):
                return
            cur = st.comps['G.owner']
            st.comps['G.owner'] = self.named(st, If(nn, cur, z3.Store(cur, x, getr(o.t)))) if not self.prove(st, Not(nn)) \
                else z3.Store(cur, x, getr(o.t))
        else:
            st.comps['G.owner'] = z3.Store(st.comps['G.owner'], x, getr(o.t))

    def coerce(self, st, v, t, what=''):
        """Give the value a term of the wanted type; a value of another type is outside the typed subset."""
        v = self.resolve_priv(st, v)
        w = unopt(t)
        if v.st and v.st[0] == 'priv':
            v = self.escape(st, v, t)
        if v.st and v.st[0] == 'tuple' and w[0] in ('seq', 'tup', 'any'):
            return SV(self.term(st, v), t)
        if v.st and v.st[0] == 'record':
            v = self.escape_rec(st, v)
            if w[0] in ('dict', 'map'):
                v = self.coerce(st, v, t, what)
        if v.t is None:
            if v.st[0] in ('iter', 'gen'):
                raise OOS(f'{what}: iterator value')
            return SV(self.term(st, v), t if t != ANY else v.ty)
        if w[0] in ('map', 'fset') and unopt(v.ty)[0] in ('dict', 'set'):
            d = self.load_dict(st, v)
            f = self.freeze_dict(st, d, 'dict' if w[0] == 'map' else 'set')
            if v.ty[0] == 'opt':
                return SV(If(V.is_none(v.t), NONE, f.t), t)
            return SV(f.t, t)
        if w[0] == 'seq' and unopt(v.ty)[0] == 'list':
            return self.freeze_list(st, self.load_list(st, v))
        if w[0] in ('dict', 'list') and unopt(v.ty)[0] in ('map', 'seq', 'fset'):
            raise OOS(f'{what}: immutable {v.ty} stored as {t}')
        if not self.type_ok(st, v, t):
            f = self.typeinv(st, v.t, t)
            if not self.prove(st, f):
                raise OOS(f'{what}: value of type {v.ty} where {t} is declared')
        return SV(v.t, t, v.st if v.st and v.st[0] == 'const' else None)

    def type_ok(self, st, v, t):
        if t == ANY or v.ty == t:
            return True
        if t[0] == 'opt' and (v.ty == t[1] or v.ty == NONET):
            return True
        if t[0] == 'opt' and v.ty[0] == 'opt':
            return self.type_ok(st, SV(v.t, v.ty[1]), t[1])
        if t[0] in ('inst',) and v.ty[0] == 'inst':
            return self.family(t[1]) == self.family(v.ty[1])
        if t[0] == 'opt':
            return self.type_ok(st, v, t[1])
        if t[0] == v.ty[0] and t[0] in ('list', 'dict', 'map', 'seq', 'set', 'fset'):
            return True
        return False

    def escape_rec(self, st, v):
        p = self.new_pdict(st)
        d = self.load_dict(st, p)
        for k, x in v.st[1]:
            d = self.dict_set(d, self.const(k).t, self.term(st, x), STR, self.ty_of(st, x))
        self.store_dict(st, p, d)
        return self.as_pdict_ty(st, p)

    def escape_record(self, st, sv):
        return self.escape(st, self.escape_rec(st, sv)).t

    def set_item(self, st, c, k, v):
        c = self.resolve_priv(st, c)
        t = unopt(c.ty)
        if c.st and c.st[0] == 'record':
            raise OOS('store into a literal record')
        if t[0] == 'dict':
            ok = []
            if c.ty[0] == 'opt':
                ok = [(Not(V.is_none(c.t)), 'TypeError')]

            def f(s, _):
                d = self.load_dict(s, SV(c.t, t, c.st))
                pv = self.is_priv(s, c)
                kk = k if pv else self.coerce(s, k, d.kty, 'dict key')
                vv = v if pv else self.coerce(s, v, d.vty, 'dict value')
                self.store_dict(s, SV(c.t, t, c.st), self.dict_set(d, self.term(s, kk), self.term(s, vv),
                                                                   self.ty_of(s, kk), self.ty_of(s, vv)))
                return [(s, None)]
            return self.bind(self.checked(st, (None, ok)), f)
        if t[0] == 'list':
            pl = self.load_list(st, c)
            i, ok = self.norm_index(self.intt(k), pl.n)

            def g(s, _):
                vv = self.coerce(s, v, pl.ety, 'list item')
                self.store_list(s, c, PList(pl.n, z3.Store(pl.at, i, vv.t), None, pl.ety))
                return [(s, None)]
            return self.bind(self.checked(st, (None, [(ok, 'IndexError')])), g)
        raise OOS(f'item store on {c!r}')

    # ------------------------------------------------------------------ statements
    def exec(self, stmts, st):
        """-> [(st, Out)]"""
        outs = [(st, NEXT)]
        for s in stmts:
            nxt = []
            for st1, o in outs:
                if o.k != 'next':
                    nxt.append((st1, o))
                else:
                    nxt.extend(self.exec1(s, st1))
            outs = nxt
            if len(outs) > MAXPATHS:
                raise OOS('too many paths')
        return outs

    def exec1(self, s, st):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise OOS(f'statement {type(s).__name__}', s)
        st.extra['line'] = getattr(s, 'lineno', 0)
        return m(s, st)

    def outs(self, evs, f):
        res = []
        for st, v in evs:
            if isinstance(v, Exc):
                res.append((st, Out('raise', v)))
            else:
                res.extend(f(st, v))
        return res

    def st_Pass(self, s, st):
        return [(st, NEXT)]

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [(st, NEXT)]
        return self.outs(self.ev(s.value, st), lambda s2, v: [(s2, NEXT)])

    def st_Assign(self, s, st):
        # `a, b = x, y`
        def f(s2, v):
            outs = [(s2, None)]
            for t in s.targets:
                outs = self.bind(outs, lambda s3, _, t=t: self.assign(t, v, s3))
            return self.outs(outs, lambda s3, _: [(s3, NEXT)])
        return self.outs(self.ev(s.value, st), f)

    def st_AnnAssign(self, s, st):
        if s.value is None:
            return [(st, NEXT)]
        return self.outs(self.ev(s.value, st), lambda s2, v: self.outs(self.assign(s.target, v, s2), lambda s3, _: [(s3, NEXT)]))

    def st_AugAssign(self, s, st):
        load = ast.copy_location({'Name': lambda t: ast.Name(t.id), 'Attribute': lambda t: ast.Attribute(t.value, t.attr),
                                  'Subscript': lambda t: ast.Subscript(t.value, t.slice)}[type(s.target).__name__](s.target), s)

        def f(s2, vs):
            a, b = vs
            a = self.resolve_priv(s2, a)
            if isinstance(s.op, ast.Add) and unopt(a.ty)[0] == 'list':
                return self.outs(self.cm_list(s2, a, 'extend', [b], {}), lambda s3, _: [(s3, NEXT)])
            return self.outs(self.checked(s2, self.op_bin(s2, s.op, a, b)),
                             lambda s3, v: self.outs(self.assign(s.target, v, s3), lambda s4, _: [(s4, NEXT)]))
        return self.outs(self.evs([load, s.value], st), f)

    def st_Delete(self, s, st):
        outs = [(st, None)]
        for t in s.targets:
            if isinstance(t, ast.Name):
                def dn(s2, _, t=t):
                    s2.env.pop(t.id, None)
                    return [(s2, None)]
                outs = self.bind(outs, dn)
            elif isinstance(t, ast.Subscript):
                def ds(s2, _, t=t):
                    def g(s3, vs):
                        c = self.resolve_priv(s3, vs[0])
                        d = self.load_dict(s3, c) if unopt(c.ty)[0] == 'dict' else None
                        if d is None:
                            raise OOS('del', s)
                        k = self.term(s3, vs[1])

                        def h(s4, _):
                            self.store_dict(s4, c, self.dict_del(s4, self.load_dict(s4, c), k))
                            return [(s4, None)]
                        return self.bind(self.checked(s3, (None, [(self.dict_has(d, k), 'KeyError')])), h)
                    return self.bind(self.evs([t.value, t.slice], s2), g)
                outs = self.bind(outs, ds)
            else:
                raise OOS('del', s)
        return self.outs(outs, lambda s2, _: [(s2, NEXT)])

    def st_Return(self, s, st):
        if s.value is None:
            return [(st, Out('return', self.const(None)))]
        return self.outs(self.ev(s.value, st), lambda s2, v: [(s2, Out('return', v))])

    def st_If(self, s, st):
        def f(s2, v):
            a, b = self.split(s2, self.truth(s2, v))
            res = []
            if a is not None:
                res += self.exec(s.body, a)
            if b is not None:
                res += self.exec(s.orelse, b) if s.orelse else [(b, NEXT)]
            return res
        return self.outs(self.ev(s.test, st), f)

    def st_Assert(self, s, st):
        def f(s2, v):
            a, b = self.split(s2, self.truth(s2, v))
            res = [(a, NEXT)] if a is not None else []
            if b is not None:
                res.append((b, Out('raise', Exc('AssertionError'))))
            return res
        return self.outs(self.ev(s.test, st), f)

    def st_Raise(self, s, st):
        if s.exc is None:
            cur = st.extra.get('handling')
            if cur is None:
                raise OOS('bare raise', s)
            return [(st, Out('raise', cur))]

        def f(s2, v):
            return [(s2, Out('raise', self.to_exc(s2, v)))]
        return self.outs(self.ev(s.exc, st), f)

    def to_exc(self, st, v):
        if v.st and v.st[0] == 'exc':
            return Exc(v.st[1], v)
        if v.st and v.st[0] == 'class':
            return Exc(v.st[1].name, None)
        if v.st and v.st[0] == 'ext':
            return Exc(v.st[1].split('.')[-1], None)
        if unopt(v.ty)[0] == 'inst' and unopt(v.ty)[1] in self.reg.exc_types:
            return Exc(self.reg.exc_types[unopt(v.ty)[1]], v)
        raise OOS(f'raise of {v!r}')

    def exc_matches(self, name, handler):
        """True / False / None (unknown) whether an exception of class `name` is caught by class `handler`."""
        if handler in ('Exception', 'BaseException') or name == handler:
            return True
        if name == 'Other':
            return None
        anc = self.reg.exc_bases.get(name)
        while anc:
            if anc == handler:
                return True
            anc = self.reg.exc_bases.get(anc)
        a, b = getattr(builtins, name, None), getattr(builtins, handler, None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        return False

    def handler_names(self, h, st):
        if h.type is None:
            return ['BaseException']
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(t).split('.')[-1] for t in ts]

    def st_Try(self, s, st):
        res = []
        for s1, o in self.exec(s.body, st):
            if o.k == 'raise':
                pend = [(s1, o)]
                for h in s.handlers:
                    nxt = []
                    for s2, o2 in pend:
                        ms = [self.exc_matches(o2.v.cls, n) for n in self.handler_names(h, s2)]
                        if any(m is True for m in ms):
                            res += self.handle(h, s2, o2.v)
                        elif any(m is None for m in ms):
                            res += self.handle(h, s2.copy(), o2.v)
                            nxt.append((s2, o2))
                        else:
                            nxt.append((s2, o2))
                    pend = nxt
                res += pend
            elif o.k == 'next' and s.orelse:
                res += self.exec(s.orelse, s1)
            else:
                res.append((s1, o))
        if s.finalbody:
            out = []
            for s1, o in res:
                for s2, o2 in self.exec(s.finalbody, s1):
                    out.append((s2, o if o2.k == 'next' else o2))
            res = out
        return res

    def handle(self, h, st, exc):
        if h.name:
            st.env[h.name] = exc.sv if exc.sv is not None else SV(self.fresh('exc', V), ANY, ('exc', exc.cls, {}))
        prev = st.extra.get('handling')
        st.extra['handling'] = exc
        res = []
        for s2, o in self.exec(h.body, st):
            s2.extra['handling'] = prev
            if h.name:
                s2.env.pop(h.name, None)
            res.append((s2, o))
        return res

    def st_FunctionDef(self, s, st):
        st.env[s.name] = SV(None, ANY, ('closure', s, [st.env] + list(st.extra.get('closure', ())), st.extra['fn']))
        return [(st, NEXT)]

    def st_Break(self, s, st):
        return [(st, Out('break'))]

    def st_Continue(self, s, st):
        return [(st, Out('continue'))]

    def st_Global(self, s, st):
        raise OOS('global', s)

    # ------------------------------------------------------------------ loops
    def st_For(self, s, st):
        def f(s2, src):
            it = self.iter_of(s2, src)
            if it.static is not None:
                return self.for_static(s, s2, it)
            return self.loop(s, s2, it)
        return self.outs(self.ev(s.iter, st), f)

    def for_static(self, s, st, it):
        outs = [(st, NEXT)]
        done = []
        for item in it.static:
            nxt = []
            for s1, _ in outs:
                for s2, v in self.assign(s.target, item, s1):
                    if isinstance(v, Exc):
                        done.append((s2, Out('raise', v)))
                        continue
                    for s3, o in self.exec(s.body, s2):
                        if o.k in ('next', 'continue'):
                            nxt.append((s3, NEXT))
                        elif o.k == 'break':
                            done.append((s3, NEXT))
                        else:
                            done.append((s3, o))
            outs = nxt
        res = []
        for s1, _ in outs:
            res += self.exec(s.orelse, s1) if s.orelse else [(s1, NEXT)]
        return done + res

    def st_While(self, s, st):
        if isinstance(s.test, ast.Constant) and s.test.value:
            return self.loop(s, st, None)
        return self.loop(s, st, None)
