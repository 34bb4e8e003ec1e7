"""Calls: builtins, container and string methods, constructors, contracts, abstract (opaque) operations."""
import ast
import re
import z3
from .terms import *
from .state import *
from .engine import Exc, KIND, Obligation
from .symex import Symex, Iter, Out
from .source import FuncInfo, ClassInfo


class Calls(Symex):

    # ------------------------------------------------------------------ call expressions
    def ev_Call(self, e, st):
        # super() needs the lexical class
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fn = st.extra['fn']
            recv = st.extra['self']
            start = self.dyn_class(st, recv) or fn.cls
            return [(st, SV(None, ANY, ('super', fn.cls, recv, start)))]

        def withf(s, f):
            nodes, shape = [], []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    shape.append('*')
                    nodes.append(a.value)
                else:
                    shape.append('p')
                    nodes.append(a)
            for k in e.keywords:
                shape.append(('k', k.arg))
                nodes.append(k.value)

            def go(s2, vs):
                args, kw = [], {}
                for sh, v in zip(shape, vs):
                    if sh == 'p':
                        args.append(v)
                    elif sh == '*':
                        ts = self.static_tuple(v)
                        if ts is None:
                            args.append(SV(v.t, v.ty, ('stararg', v)))
                        else:
                            args.extend(ts)
                    elif sh[1] is None:
                        v = self.resolve_priv(s2, v)
                        if v.st and v.st[0] == 'record':
                            kw.update(dict(v.st[1]))
                        elif v.st and v.st[0] == 'priv' and z3.is_int_value(s2.priv[v.st[1]].n) and \
                                s2.priv[v.st[1]].n.as_long() == 0:
                            pass
                        else:
                            kw['**'] = v
                    else:
                        kw[sh[1]] = v
                return self.call(s2, f, args, kw)
            return self.bind(self.evs(nodes, s), go)
        return self.bind(self.ev(e.func, st), withf)

    def rec_get(self, st, rec, key, dflt=None):
        v = self.op_index(st, rec, key)[0]
        if dflt is not None:
            if v.ty[0] == 'opt':
                raise OOS('get() with a default of an optional record item')
            has = self.ufunc('hasitem:' + key.st[1], I, z3.BoolSort())(getr(rec.t))
            return SV(If(has, v.t, self.term(st, dflt)), join_ty(v.ty, dflt.ty))
        if v.ty[0] == 'opt':  # absent and None are not told apart
            return v
        has = self.ufunc('hasitem:' + key.st[1], I, z3.BoolSort())(getr(rec.t))
        return SV(If(has, v.t, NONE), ty('opt', v.ty))

    def recget_sym(self, st, rec, key):
        """A key chosen between literals."""
        if key.decl().kind() == z3.Z3_OP_ITE:
            out = []
            for cond, br in ((key.arg(0), key.arg(1)), (z3.Not(key.arg(0)), key.arg(2))):
                b = st.copy()
                b.add(cond)
                if not self.infeasible(b):
                    out += self.recget_sym(b, rec, br)
            return out
        for text in list(self.lits.strs):
            if self.const(text).t.eq(key):
                return [(st, self.rec_get(st, rec, self.const(text)))]
        raise OOS('get() of a record with a computed key')

    def dyn_class(self, st, recv):
        if recv is None:
            return None
        if recv.st and recv.st[0] == 'class':
            return recv.st[1]
        if unopt(recv.ty)[0] == 'inst':
            return self.classinfo(unopt(recv.ty)[1])
        return None

    def call(self, st, f, args, kw):
        f = self.resolve_priv(st, f)
        if not f.st:
            if f.ty[0] == 'inst' and 'call' in (self.reg.schema.get(f.ty[1]) or {}):
                return self.call_imeth(st, self.reg.imeths[self.reg.schema[f.ty[1]]['call']], f, args, kw)
            if unopt(f.ty)[0] == 'inst' and 'call' in (self.reg.schema.get(unopt(f.ty)[1]) or {}):
                return self.bind(self.checked(st, (None, [(Not(V.is_none(f.t)), 'TypeError')])),
                                 lambda s, _: self.call(s, SV(f.t, unopt(f.ty)), args, kw))
            raise OOS(f'call of {f!r}')
        k = f.st[0]
        if k == 'func':
            return self.call_func(st, f.st[1], f.st[2], args, kw)
        if k == 'class':
            return self.construct(st, f.st[1], args, kw)
        if k == 'classof':
            ci = self.dyn_class(st, f.st[1])
            if ci is None:
                raise OOS('construction through __class__')
            return self.construct(st, ci, args, kw, cls_term=clsof(getr(f.st[1].t)))
        if k == 'builtin':
            return [(st, self.const(None))]
        if k == 'imeth':
            return self.call_imeth(st, self.reg.imeths[f.st[1]], f.st[2], args, kw)
        if k == 'cmeth':
            return self.container_method(st, f.st[2], f.st[1], args, kw)
        if k == 'recget':  # .get() of a typed external record: an absent key reads as None
            key = args[0]
            alts = key.st[1] if key.st and key.st[0] == 'const' else None
            if kw or len(args) not in (1, 2) or (len(args) == 2 and alts is None):
                raise OOS('get() of a record')
            if len(args) == 2:
                return [(st, self.rec_get(st, f.st[1], key, args[1]))]
            if alts is None:
                return self.recget_sym(st, f.st[1], self.term(st, key))
            return [(st, self.rec_get(st, f.st[1], key))]
        if k == 'smeth':
            return self.string_method(st, f.st[2], f.st[1], args, kw)
        if k == 'closure':
            return self.call_closure(st, f, args, kw)
        if k == 'extsuper':
            h = self.reg.ext_handlers.get('super.' + f.st[1])
            if h:
                return h(self, st, args, kw)
            raise OOS(f'super().{f.st[1]}')
        if k == 'ext':
            name = f.st[1]
            h = self.reg.ext_handlers.get(name) or getattr(self, 'bi_' + name.replace('.', '_'), None)
            if h is not None:
                if name in self.reg.ext_handlers:
                    return h(self, st, args, kw)
                return h(st, args, kw)
            if name in self.reg.imeths:
                return self.call_imeth(st, self.reg.imeths[name], None, args, kw)
            import builtins
            b = getattr(builtins, name, None)
            if isinstance(b, type) and issubclass(b, BaseException):
                return [(st, SV(self.fresh('exc', V), ANY, ('exc', name, {})))]
            raise OOS(f'call of external {name}')
        raise OOS(f'call of {k}')

    # ------------------------------------------------------------------ repository functions
    def bind_args(self, st, fi, recv, args, kw, node=None):
        """Python argument binding -> {name: SV}; defaults are evaluated in the module of the function."""
        node = node or fi.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if recv is not None:
            args = [recv] + args
        rest = args[len(names):]
        for n, v in zip(names, args):
            if v.st and v.st[0] == 'stararg':
                raise OOS('* argument bound to positional parameters')
            env[n] = v
        if rest:
            if a.vararg is None:
                raise OOS('too many arguments')
        if a.vararg is not None:
            if any(v.st and v.st[0] == 'stararg' for v in rest):
                if len(rest) != 1:
                    raise OOS('mixed * arguments')
                env[a.vararg.arg] = rest[0].st[1]
            else:
                env[a.vararg.arg] = SV(None, ANY, ('tuple', rest))
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = []
        for k, v in kw.items():
            if k in names or k in kwonly:
                env[k] = v
            elif a.kwarg is not None:
                extra.append((k, v))
            else:
                raise OOS(f'unexpected keyword {k}')
        if a.kwarg is not None:
            if extra and extra[0][0] == '**' and len(extra) == 1:
                env[a.kwarg.arg] = extra[0][1]
            else:
                env[a.kwarg.arg] = SV(None, ANY, ('record', extra))
        pos_defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        kwd = {k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        for n in names + kwonly:
            if n not in env:
                d = pos_defaults.get(n) or kwd.get(n)
                if d is None:
                    raise OOS(f'missing argument {n} of {getattr(node, "name", "lambda")}')
                env[n] = self.static_expr(st, d, fi.mod)
        return env

    def call_func(self, st, fi, recv, args, kw):
        if fi.is_static:
            recv = None
        c = self.reg.contracts.get(fi.key)
        if fi.key in self.reg.skip_calls:
            return [(st, self.const(None))]
        if c is None and recv is not None and fi.is_abstract:
            raise OOS(f'abstract method {fi.key}')
        if c is not None and not c.inline and not (self.inline_only == fi.key):
            env = self.bind_args(st, fi, recv, args, kw)
            return self.call_contract(st, c, env, fi)
        return self.inline(st, fi, recv, args, kw)

    def inline(self, st, fi, recv, args, kw, env=None):
        stack = st.extra.get('stack', ())
        if fi.key in stack or len(stack) > self.MAXDEPTH:
            raise OOS(f'recursive helper without contract: {fi.key}')
        if fi.other_decs:
            raise OOS(f'decorated helper {fi.key}: {fi.other_decs}')
        for n in ast.walk(fi.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                raise OOS(f'generator function {fi.key}')
        env = env or self.bind_args(st, fi, recv, args, kw)
        saved = (st.env, st.extra.get('fn'), st.extra.get('self'), stack, st.extra.get('closure', ()), st.extra.get('handling'))
        st.env = env
        st.extra['fn'] = fi
        st.extra['self'] = recv if recv is not None else None
        st.extra['stack'] = stack + (fi.key,)
        st.extra['closure'] = ()
        res = []
        for s, o in self.exec(self.body_of(fi.node), st):
            s.env, s.extra['fn'], s.extra['self'], s.extra['stack'], s.extra['closure'], s.extra['handling'] = saved[0].copy(), *saved[1:]
            res.append((s, self.outval(o)))
        return res

    def outval(self, o):
        if o.k == 'return':
            return o.v
        if o.k == 'next':
            return self.const(None)
        if o.k == 'raise':
            return o.v
        raise OOS('control flow')

    def body_of(self, node):
        return node.body

    def call_closure(self, st, f, args, kw):
        node, envs, fi = f.st[1], f.st[2], f.st[3]
        env = self.bind_args(st, fi, None, args, kw, node=node)
        saved = (st.env, st.extra.get('fn'), st.extra.get('closure', ()))
        st.env = env
        st.extra['fn'] = fi
        st.extra['closure'] = tuple(envs)
        if isinstance(node, ast.Lambda):
            outs = self.ev(node.body, st)
        else:
            outs = [(s, self.outval(o)) for s, o in self.exec(node.body, st)]
        res = []
        for s, v in outs:
            s.env, s.extra['fn'], s.extra['closure'] = saved[0].copy(), saved[1], saved[2]
            res.append((s, v))
        return res

    # ------------------------------------------------------------------ constructors
    def construct(self, st, ci, args, kw, cls_term=None):
        alias = self.alias_of(ci)
        h = self.reg.constructors.get(alias)
        if h is not None:
            return h(self, st, ci, args, kw)
        en = self.reg.enums.get(alias)
        if en:
            raise OOS('enum construction')
        if self.is_exc_class(ci):
            v = SV(self.fresh('exc', V), ANY, ('exc', ci.name, {'args': args}))
            return [(st, v)]
        init = self.prog.find_method(ci, '__init__')
        if cls_term is None:
            cls_term = self.cls_id(alias)
        r = self.alloc(st, self.kind_of_alias(alias), cls_term)
        if self.family(alias) == 'XmlElement':
            st.add(Not(st.comps['G.dead'][r]), Not(st.comps['G.ref'][r]))
            st.extra['newel'] = st.extra.get('newel', ()) + (r,)
        obj = SV(V.ref(r), ty('inst', alias))
        for k in self.prog.mro(ci):
            st.add(self.ufunc('isinst', V, V, B)(obj.t, self.term(st, SV(None, ANY, ('class', k)))))
        st.extra[('ctor', r.get_id())] = frozenset()
        if init is not None:
            c = self.reg.contracts.get(init.key)
            outs = self.call_func(st, init, obj, args, kw) if (c and not c.inline) else self.inline(st, init, obj, args, kw)
        elif ci.is_dataclass:
            outs = self.dataclass_init(st, ci, obj, args, kw)
        else:
            if args or kw:
                raise OOS(f'construction of {alias}')
            outs = [(st, self.const(None))]

        def fin(s, _):
            s.extra.pop(('ctor', r.get_id()), None)
            return [(s, obj)]
        return self.bind(outs, fin)

    def is_exc_class(self, ci):
        for c in self.prog.mro(ci):
            for b in c.bases:
                if b.split('.')[-1] in ('Exception', 'BaseException', 'ValueError', 'TypeError'):
                    return True
        return False

    def dataclass_fields(self, ci):
        fields = {}
        for c in reversed(self.prog.mro(ci)):
            if c.is_dataclass:
                for n, d in c.fields:
                    fields[n] = (d, c.mod)
        return fields

    def dataclass_init(self, st, ci, obj, args, kw):
        fields = self.dataclass_fields(ci)
        vals = {}
        names = list(fields)
        if len(args) > len(names):
            raise OOS('dataclass arguments')
        for n, v in zip(names, args):
            vals[n] = v
        for k, v in kw.items():
            if k not in fields:
                raise OOS(f'dataclass argument {k}')
            vals[k] = v
        outs = [(st, None)]
        for n in names:
            if n in vals:
                v = vals[n]
            else:
                d, mod = fields[n]
                if d is None:
                    raise OOS(f'missing dataclass argument {n}')
                if isinstance(d, ast.Call):
                    fac = [k.value for k in d.keywords if k.arg == 'default_factory']
                    if len(fac) == 1 and isinstance(fac[0], ast.Name) and fac[0].id in ('dict', 'list'):
                        v = self.new_pdict(st) if fac[0].id == 'dict' else self.new_plist(st, [])
                    else:
                        raise OOS('dataclass default')
                else:
                    v = self.static_expr(st, d, mod)
            outs = self.bind(outs, lambda s, _, n=n, v=v: self.set_attr(s, obj, n, v))
        post = self.prog.find_method(ci, '__post_init__')
        if post is not None:
            outs = self.bind(outs, lambda s, _: self.call_func(s, post, obj, [], {}))
        return outs

    # ------------------------------------------------------------------ contracts at call sites
    def call_contract(self, st, c, env, fi=None):
        env = {n: self.coerce_arg(st, v, c, n) for n, v in env.items()}
        where = f"{st.extra['fn'].qual}:{st.extra.get('line', 0)}"
        if not self.quiet:
            for i, r in enumerate(c.requires):
                g = self.spec(r, st, env)
                self.oblige(st, g, 'pre', f'precondition {i} of {c.short} at call', r)
        for r in c.requires:
            st.add(self.spec(r, st, env))
        if c.tree and not self.light:
            self.need_wf(st, f'call of {c.short}')
            for n, v in env.items():
                if c.params.get(n) == 'class':
                    continue
                t = self.norm_type(c.params.get(n, 'Any'))
                a = self.live_arg(st, v, t)
                if a is not None:
                    self.oblige(st, a, 'pre', f'argument {n} of {c.short} is a live element', n)
                    st.add(a)
        self.event_checks(st, c, env)
        return self.apply_contract(st, c, env)

    @property
    def light(self):
        """Clients of the element tree are verified on top of its encapsulation: every element operation preserves
        well-formedness (proved for each), nothing else writes element state (checked syntactically)."""
        return self.target is not None and self.target.light

    def live_arg(self, st, v, t):
        u = unopt(t)
        if self.light and u[0] == 'inst' and u[1] in ('XmlElement', 'State'):
            return TRUE
        if u[0] != 'inst' or v.t is None:
            return None
        f = self.family(u[1])
        if f == 'XmlElement':
            a = self.is_alive(st, getr(v.t))
        elif f == 'State':
            a = self.owned_state(st, getr(v.t))
        else:
            return None
        return Implies(Not(V.is_none(v.t)), a) if t[0] == 'opt' else a

    def coerce_arg(self, st, v, c, n):
        t = c.params.get(n)
        if t is None or t == 'class':
            return v
        if t == 'Fn' and v.st and v.st[0] in ('closure', 'func'):   # a callback handed to an external function: opaque
            return SV(self.fresh('fn', V), ANY)
        return self.coerce(st, v, self.norm_type('Any' if t == 'Fn' else t), f'argument {n} of {c.short}')

    def apply_contract(self, st, c, env):
        pre = st.copy()
        spec_env = dict(env)
        for n, ex in c.let.items():
            spec_env[n] = self.let_value(st, ex, spec_env)
        res = []
        conds = []
        for exc, cond in c.raises.items():
            b = st.copy()
            if cond is not None:
                g = self.spec(cond, b, spec_env)
                if z3.is_false(z3.simplify(g)):
                    conds.append(g)
                    continue
                b.add(g)
                if c.exact.get(exc, True):
                    conds.append(g)
                if self.infeasible(b):
                    continue
            self.effects(b, c, env, pre)
            sv = None
            al = self.reg.exc_alias.get(exc)
            if al:
                sv = self.fresh_value(b, ty('inst', al), 'exc')
                for name, ex in c.exc_ensures.get(exc, {}).items():
                    if 'calls(' in ex or 'call(' in ex:
                        continue
                    b.add(self.spec(ex, b, dict(spec_env, exc=sv), pre))
            if c.event:
                self.record(b, c.event, env, None, TRUE, sv.t if sv is not None else NONE)
            res.append((b, Exc(exc, sv)))
        for g in conds:
            st.add(Not(g))
        if conds and self.infeasible(st):
            return res
        self.effects(st, c, env, pre)
        rt = self.norm_type(c.ret)
        if c.pure:
            if rt == NONET:
                r = self.const(None)
            else:
                args = [self.term(st, env[n]) for n in c.params]
                f = self.ufunc('F:' + c.key, *([V] * len(args) + [V]))
                r = SV(f(*args), rt)
                st.add(self.typeinv(st, r.t, rt))
        else:
            r = self.const(None) if rt == NONET else self.fresh_value(st, rt, c.short.split('.')[-1])
        if c.tree and not self.light:
            a = self.live_arg(st, r, rt)
            if a is not None:
                st.add(a)
        e2 = dict(spec_env, result=r)
        for name, ex in ([] if c.named else list(c.ensures.items())) + list(c.defines.items()):
            if 'calls(' in ex or 'call(' in ex:
                continue                    # about the callee's own calls
            if c.ghostdef and self.mentions_ghosts(c, ex):
                continue                    # ghost functions of the callee's proof mean something else per call
            if self.light and ('all(' in ex or 'fresh_tree' in ex) and not c.light:
                continue
            st.add(self.spec(ex, st, e2, pre))
        if c.tree and not self.light:
            self.have_wf(st)
        if c.event:
            self.record(st, c.event, env, r, FALSE, NONE)
        res.append((st, r))
        return res

    def mentions_ghosts(self, c, ex):
        own = {n.func.id for g in c.ghostdef for n in ast.walk(self.parse(g)) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)} & set(self.reg.ghosts)
        todo, seen = [self.parse(ex)], set()
        while todo:
            for n in ast.walk(todo.pop()):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    if n.func.id in own:
                        return True
                    if n.func.id in self.reg.macros and n.func.id not in seen:
                        seen.add(n.func.id)
                        todo.append(self.parse(self.reg.macros[n.func.id][1]))
        return False

    def let_value(self, st, ex, env):
        v = self.spec_value(ex, st, env)
        return self.snapshot(st, v)

    def snapshot(self, st, v):
        v = self.resolve_priv(st, v)
        if v.st and v.st[0] == 'snap':
            return v
        if v.st and v.st[0] == 'priv':
            return SV(None, v.ty, ('snap', st.priv[v.st[1]]))
        k = unopt(v.ty)[0]
        if k == 'list' and v.ty[0] != 'opt':
            return SV(v.t, v.ty, ('snap', self.load_list(st, v)))
        return v

    def fresh_value(self, st, t, name):
        v = SV(self.fresh(name, V), t)
        st.add(self.typeinv(st, v.t, t))
        return v

    def fresh_comps(self, st, names, tag):
        for n in names:
            st.comps[n] = self.fresh(n + tag, COMPS[n])

    def loc_refs(self, loc, st, env):
        """'self._state.text' -> [('f:text', ref, guard)];  'x[*]' list content; 'x{*}' dict content."""
        if loc.endswith('[*]'):
            v = self.spec_value(loc[:-3], st, env)
            return [(c, getr(v.t)) for c in LISTC]
        if loc.endswith('{*}'):
            v = self.spec_value(loc[:-3], st, env)
            return [(c, getr(v.t)) for c in DICTC]
        base, attr = loc.rsplit('.', 1)
        v = self.spec_value(base, st, env)
        return [('f:' + attr, getr(v.t))]

    def light_effects(self, st, c, env, pre):
        if not c.modifies:
            if c.allocates:
                al = self.fresh('al', I)
                st.add(al >= st.al)
                st.al = al
            return
        al = self.fresh('al', I)
        st.add(al >= st.al)
        sm = self.target_env.get('sourcemap') if self.target_env else None
        sm = getr(sm.t) if sm is not None and sm.t is not None else None

        def fresh(comp):
            new = self.fresh('m' + comp, COMPS[comp])
            if comp in DICTC and sm is not None and c.modifies != 'tree':
                new = z3.Store(new, sm, st.comps[comp][sm])
            st.comps[comp] = new
        if c.modifies == 'tree':
            for comp in COMPS:
                if comp not in FINAL and not comp.startswith('G.'):
                    fresh(comp)
        else:
            for loc in c.modifies:
                if loc[0] == '@':
                    for comp in {'@L': LISTC, '@D': DICTC}.get(loc, [loc[1:]]):
                        fresh(comp)
            for loc in c.modifies:
                if loc[0] == '@':
                    continue
                for comp, r in self.loc_refs(loc, pre, env):
                    if sm is not None and comp in DICTC and 'attrib' in loc:
                        st.add(r != sm)
                    st.comps[comp] = z3.Store(st.comps[comp], r, self.fresh('m', COMPS[comp].range()))
        st.al = al
        self.touch(st)

    def effects(self, st, c, env, pre):
        if self.light:
            return self.light_effects(st, c, env, pre)
        for d in c.ghost_ref:
            v = self.spec_value(d, pre, env)
            st.comps['G.ref'] = z3.Store(st.comps['G.ref'], getr(v.t), TRUE)
        if c.modifies is None or c.modifies == []:
            if c.allocates:
                al = self.fresh('al', I)
                st.add(al >= st.al)
                st.al = al
            return
        if c.modifies == 'tree':
            self.havoc_tree(st, c, env)
            return
        locs = []
        for loc in c.modifies:
            if loc[0] == '@':
                for comp in {'@L': LISTC, '@D': DICTC}.get(loc, [loc[1:]]):
                    st.comps[comp] = self.fresh('m' + comp, COMPS[comp])
                continue
            locs += self.loc_refs(loc, pre, env)
        al = self.fresh('al', I)
        st.add(al >= st.al)
        for comp, r in locs:
            val = self.fresh('m', COMPS[comp].range())
            st.comps[comp] = z3.Store(st.comps[comp], r, val)
        # ghost ownership of freshly attached containers
        if any(comp in ('f:attrib', 'f:elements', 'f:_state') for comp, _ in locs):
            old = st.comps['G.owner']
            new = self.fresh('G.owner', COMPS['G.owner'])
            r = z3.Int('r!o')
            st.add(ForAll([r], Implies(And(r >= 0, r < st.al), Or(new[r] == old[r], FALSE)), patterns=[new[r]])
                   if not c.ghost_dead else TRUE)
            st.comps['G.owner'] = new
        for d in c.ghost_dead:
            v = self.spec_value(d, pre, env)
            st.comps['G.dead'] = z3.Store(st.comps['G.dead'], getr(v.t), TRUE)
        st.al = al
        self.touch(st)

    def havoc_tree(self, st, c, env):
        """An abstract operation on an element tree: anything reachable may change; well-formedness, final fields
        and (for a fresh tree) everything allocated before this function started are preserved."""
        arg = env.get(c.tree_arg) if c.tree_arg else None
        A = st.extra.get('al0')
        fresh_tree = None
        if arg is not None and arg.t is not None and A is not None and not z3.is_true(self.is_none(st, arg)):
            g = And(getr(arg.t) >= A, self.closed(st, A))
            if self.prove(st, g, self.RL_MAIN // 4):
                fresh_tree = A
        old = dict(st.comps)
        oldal = st.al
        al = self.fresh('al', I)
        st.add(al >= oldal)
        r = z3.Int('r!h')
        for n in COMPS:
            if n in ('L.sq',):
                pass
            new = self.fresh('H' + n, COMPS[n])
            st.comps[n] = new
            if n in FINAL or n == 'G.dead':
                st.add(ForAll([r], Implies(And(r >= 0, r < oldal), new[r] == old[n][r]), patterns=[new[r]]))
            elif n == 'G.owner':
                pass
            elif n == 'G.ref':
                st.add(ForAll([r], Implies(And(r >= 0, r < oldal, Not(old[n][r])), Not(new[r])), patterns=[new[r]]))
            if fresh_tree is not None and n not in FINAL and n != 'G.dead':
                exc = []
                for sname in ('sourcemap',):
                    v = env.get(sname)
                    if v is not None and v.t is not None and n in DICTC:
                        exc.append(r != getr(v.t))
                st.add(ForAll([r], Implies(And(r >= 0, r < fresh_tree, *exc), new[r] == old[n][r]), patterns=[new[r]]))
        st.al = al
        st.add(self.WF(st))
        self.touch(st)
        if fresh_tree is not None:
            st.add(self.closed(st, fresh_tree))
        st.extra['wf'], st.extra['wfal'] = self.wf_key(st), st.al

    def closed(self, st, A):
        """Elements allocated at or after A refer only to objects allocated at or after A."""
        c = st.comps
        e, i = z3.Int('e!cl'), z3.Int('i!cl')
        s = getr(c['f:_state'][e])
        l = getr(c['f:elements'][s])
        ch = getr(c['L.at'][l][i])
        return ForAll([e], Implies(And(self.is_alive(st, e), e >= A), And(
            s >= A, l >= A, Or(V.is_none(c['f:attrib'][s]), getr(c['f:attrib'][s]) >= A),
            ForAll([i], Implies(And(i >= 0, i < c['L.n'][l]), ch >= A), patterns=[c['L.at'][l][i]]))),
            patterns=[c['f:_state'][e]])

    # ------------------------------------------------------------------ well-formedness bookkeeping
    def need_wf(self, st, what):
        k = self.wf_key(st)
        if st.extra.get('wf') == k:
            return
        g = self.WF(st)
        self.oblige(st, g, 'wf', f'element trees are well formed at {what}', '')
        st.add(g)
        st.extra['wf'], st.extra['wfal'] = k, st.al

    def have_wf(self, st):
        k = self.wf_key(st)
        if st.extra.get('wf') != k:
            st.add(self.WF(st))
            st.extra['wf'], st.extra['wfal'] = k, st.al

    # ------------------------------------------------------------------ abstract operations
    def call_imeth(self, st, c, recv, args, kw):
        env = {}
        names = list(c.params)
        if recv is not None and c.recv:
            env[c.recv] = recv
            names = [n for n in names if n != c.recv]
        if '**' in kw and 'kwargs' in c.params:   # handed on as one value
            kw = {**{k: v for k, v in kw.items() if k != '**'}, 'kwargs': kw['**']}
        for n, v in zip(names, args):
            if v.st and v.st[0] == 'stararg':
                raise OOS('* argument to an abstract operation')
            env[n] = v
        if len(args) > len(names):
            raise OOS(f'arguments of {c.short}')
        for k, v in kw.items():
            if k not in names:
                raise OOS(f'keyword {k} of {c.short}')
            env[k] = v
        for n in names:
            if n not in env:
                if n in c.defaults:
                    env[n] = self.const(c.defaults[n])
                else:
                    raise OOS(f'missing argument {n} of {c.short}')
        env = {n: self.coerce_arg(st, v, c, n) for n, v in env.items()}
        if c.handler:
            return c.handler(self, st, c, env)
        for r in c.requires:
            g = self.spec(r, st, env)
            self.oblige(st, g, 'pre', f'precondition of {c.short}', r)
            st.add(g)
        if c.tree and not self.light:
            self.need_wf(st, f'call of {c.short}')
            for n, v in env.items():
                a = self.live_arg(st, v, self.norm_type(c.params.get(n, 'Any')))
                if a is not None:
                    self.oblige(st, a, 'pre', f'argument {n} of {c.short} is a live element', n)
                    st.add(a)
        self.event_checks(st, c, env)
        if not c.event:
            return self.apply_contract(st, c, env)
        op = c.event
        pre = st.copy()
        self.effects(st, c, env, pre)
        res = []
        rt = self.norm_type(c.ret)
        ok = st
        excs = []
        for exc in c.raises:
            b = st.copy()
            al = self.reg.exc_alias.get(exc)
            sv = self.fresh_value(b, ty('inst', al), 'exc') if al else SV(self.fresh('exc', V), ANY, ('exc', exc, {}))
            for name, ex in c.exc_ensures.get(exc, {}).items():
                b.add(self.spec(ex, b, dict(env, exc=sv), pre))
            if c.tree and not self.light:
                self.have_wf(b)
            self.record(b, op, env, None, TRUE, sv.t)
            excs.append((b, Exc(exc, sv)))
        r = self.const(None) if rt == NONET else self.fresh_value(ok, rt, op)
        a = self.live_arg(ok, r, rt) if not self.light else None
        if a is not None:
            ok.add(a)
        for name, ex in c.ensures.items():
            if self.light and ('all(' in ex or 'fresh_tree' in ex):
                continue
            ok.add(self.spec(ex, ok, dict(env, result=r), pre))
        if c.tree and not self.light:
            self.have_wf(ok)
        self.record(ok, op, env, r, FALSE, NONE)
        return [(ok, r)] + excs

    def record(self, st, op, env, r, raised, exc):
        n = st.tr.count(op)

        def put(col, v, sort):
            arr = st.tr.cols.get((op, col))
            if arr is None:
                arr = z3.Const(f'ev.{op}.{col}', z3.ArraySort(I, sort))
            st.tr.cols[(op, col)] = z3.Store(arr, n, v)
        for k, v in env.items():
            if v.t is None and v.st and v.st[0] in ('closure', 'iter', 'gen', 'exc'):
                continue
            put(k, self.term(st, v), V)
        put('ret', r.t if r is not None and r.t is not None else (self.term(st, r) if r is not None else NONE), V)
        put('raised', raised, B)
        put('exc', exc, V)
        put('al', st.al, I)
        for o in self.order_ops():
            put('n_' + o, st.tr.count(o), I)
        st.tr.n[op] = z3.simplify(n + 1)

    def order_ops(self):
        """Operations whose position relative to others the contract under verification talks about (.n_<op>)."""
        t = self.target
        if t is None:
            return ()
        if not hasattr(t, '_order'):
            txt = ' '.join([*t.ensures.values(), *t.invs, *(e for d in t.at.values() for e in d.values()),
                            *(e for d in t.exc_ensures.values() for e in d.values())])
            for m in self.reg.macros:
                if m + '(' in txt:
                    txt += ' ' + self.reg.macros[m][1]
            t._order = sorted(set(re.findall(r'\.n_(\w+)', txt)))
        return t._order

    def event_checks(self, st, c, env):
        checks = (self.target.at or {}).get(c.event) if self.target is not None else None
        if not checks:
            return
        for name, ex in checks.items():
            g = self.spec(ex, st, dict(self.target_env, arg=SV(None, ANY, ('args', env))), self.target_entry)
            self.oblige(st, g, 'event', f'{name} (at {c.event})', ex)

    # ------------------------------------------------------------------ builtins
    def bi_len(self, st, args, kw):
        v = self.resolve_priv(st, args[0])
        n = self.length(st, v)
        oks = [(Not(V.is_none(v.t)), 'TypeError')] if v.t is not None and v.ty[0] == 'opt' else []
        if v.ty == ANY and v.st is None:
            self.once(st, ('anylen', v.t.get_id()), self.ufunc('anylen', V, I)(v.t) >= 0)
            oks = [(Not(V.is_none(v.t)), 'TypeError')]
        return self.checked(st, (self.mkint(n), oks))

    def bi_isinstance(self, st, args, kw):
        return [(st, self.boolc(self.isinstance_(st, args[0], args[1])))]

    def bi_issubclass(self, st, args, kw):
        a, b = args
        return [(st, self.boolv(self.ufunc('issub', V, V, B)(self.term(st, a), self.term(st, b))))]

    def bi_inspect_isclass(self, st, args, kw):
        return [(st, self.boolv(self.ufunc('isclass', V, B)(self.term(st, args[0]))))]

    def bi_typing_cast(self, st, args, kw):
        return [(st, args[1])]

    def bi_type(self, st, args, kw):
        v = args[0]
        if unopt(v.ty)[0] == 'inst' and self.classinfo(unopt(v.ty)[1]) is not None:
            return [(st, SV(None, ANY, ('classof', v)))]
        t = self.ufunc('typeof', V, V)(self.term(st, v))
        st.add(V.is_sym(t))
        return [(st, SV(t, ty('inst', 'Class')))]

    def bi_str(self, st, args, kw):
        v = args[0]
        return [(st, self.mkstr(st, [self.strof(st, v)]))]

    def bi_bool(self, st, args, kw):
        return [(st, self.boolc(self.truth(st, args[0])))]

    def bi_list(self, st, args, kw):
        if not args:
            return [(st, self.new_plist(st, []))]
        v = self.resolve_priv(st, args[0])
        if v.st and v.st[0] == 'gen':
            e, env = v.st[1], v.st[2]
            return self.with_env(st, env, lambda s: self.comp(ast.copy_location(ast.ListComp(e.elt, e.generators), e), s, 'list'))
        if self.static_tuple(v) is not None:
            return [(st, self.new_plist(st, self.static_tuple(v)))]
        return self.copy_seq(st, v)

    def with_env(self, st, env, f):
        saved = st.env
        st.env = dict(env)
        res = []
        for s, v in f(st):
            s.env = saved.copy()
            res.append((s, v))
        return res

    def copy_seq(self, st, v):
        oks = [(Not(V.is_none(v.t)), 'TypeError')] if v.t is not None and v.ty[0] == 'opt' else []
        pl = self.load_list(st, SV(v.t, unopt(v.ty), v.st) if v.t is not None else v)
        if pl is not None:
            if pl.sq is None:
                pl = PList(pl.n, pl.at, self.fresh('sq', SQ), pl.ety)
            p = self.put_priv(st, PList(pl.n, pl.at, pl.sq, pl.ety), 'list')
            return self.checked(st, (p, oks))
        it = self.iter_of(st, SV(v.t, unopt(v.ty), v.st) if v.t is not None else v)
        if it.static is not None:
            return self.checked(st, (self.new_plist(st, it.static), oks))
        n = it.n(st)
        if n is None:
            raise OOS('infinite list')
        at = self.fresh('cp', AIV)
        k = z3.Int('k!l')
        s2 = st.copy()
        x = it.at(s2, k)
        t = self.term(s2, x)
        if len(s2.pc) != len(st.pc) and s2.al is not st.al:
            raise OOS('list of effects')
        dep = s2.pc[len(st.pc):]
        st.extra = s2.extra
        if dep:
            st.add(ForAll([k], Implies(And(k >= 0, k < n), And(*dep))))
        st.add(ForAll([k], Implies(And(k >= 0, k < n), at[k] == t), patterns=[at[k]]))
        p = self.put_priv(st, PList(n, at, self.fresh('sq', SQ), self.ty_of(st, x)), 'list')
        return self.checked(st, (p, oks))

    def bi_tuple(self, st, args, kw):
        if not args:
            return [(st, SV(None, ANY, ('tuple', [])))]
        v = self.resolve_priv(st, args[0])
        if self.static_tuple(v) is not None:
            return [(st, v)]
        if unopt(v.ty)[0] in ('seq',) and v.st is None:
            return self.checked(st, (SV(v.t, unopt(v.ty)), [(Not(V.is_none(v.t)), 'TypeError')] if v.ty[0] == 'opt' else []))
        return self.bind(self.bi_list(st, [v], {}), lambda s, l: [(s, self.freeze_list(s, self.load_list(s, l)))])

    def bi_dict(self, st, args, kw):
        p = self.new_pdict(st)
        if args:
            v = self.resolve_priv(st, args[0])
            if v.t is not None and v.ty[0] == 'opt':
                return self.bind(self.checked(st, (None, [(Not(V.is_none(v.t)), 'TypeError')])),
                                 lambda s, _: self.bi_dict(s, [SV(v.t, unopt(v.ty))], kw))
            self.dict_update(st, p, v)
        for k, v in kw.items():
            if k == '**':
                self.dict_update(st, p, v)
            else:
                self.store_dict(st, p, self.dict_set(self.load_dict(st, p), self.const(k).t, self.term(st, v), STR, v.ty))
        return [(st, self.as_pdict_ty(st, p))]

    def bi_set(self, st, args, kw):
        if not args:
            return [(st, self.new_pdict(st, kind='set'))]
        v = self.resolve_priv(st, args[0])
        if v.st and v.st[0] == 'gen':
            e, env = v.st[1], v.st[2]
            return self.with_env(st, env, lambda s: self.comp(ast.copy_location(ast.SetComp(e.elt, e.generators), e), s, 'set'))
        return self.bind(self.bi_list(st, [v], {}), self.set_of_list)

    def set_of_list(self, st, l):
        st.env['$sol'] = l
        e = ast.parse('{x for x in __l}', mode='eval').body
        e.generators[0].iter = ast.Name('$sol')
        for n in ast.walk(e):
            n.lineno = st.extra.get('line', 0)
        return self.comp(e, st, 'set')

    def bi_frozenset(self, st, args, kw):
        return self.bi_set(st, args, kw)

    def bi_zip(self, st, args, kw):
        its = [self.iter_of(st, self.nn(st, a)) for a in args]
        return [(st, self.mk_iter(self.zip_iters(st, its)))]

    def nn(self, st, a):
        if a.t is not None and a.ty[0] == 'opt' and self.prove(st, Not(V.is_none(a.t))):
            return SV(a.t, unopt(a.ty), a.st)
        return a

    def bi_enumerate(self, st, args, kw):
        start = args[1] if len(args) > 1 else kw.get('start', self.const(0))
        it = self.iter_of(st, self.nn(st, args[0]))
        if it.static is not None:
            if not (start.st and start.st[0] == 'const'):
                raise OOS('enumerate start')
            return [(st, self.mk_iter(Iter(None, None, static=[SV(None, ANY, ('tuple', [self.const(i + start.st[1]), x]))
                                                               for i, x in enumerate(it.static)])))]
        s0 = self.intt(start)
        return [(st, self.mk_iter(Iter(it.n, lambda s, k: SV(None, ANY, ('tuple', [self.mkint(k + s0), it.at(s, k)])))))]

    def bi_range(self, st, args, kw):
        if len(args) == 1:
            lo, hi = z3.IntVal(0), self.intt(args[0])
        elif len(args) == 2:
            lo, hi = self.intt(args[0]), self.intt(args[1])
        else:
            raise OOS('range step')
        n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        if z3.is_int_value(n) and z3.is_int_value(z3.simplify(lo)) and n.as_long() <= 8:
            return [(st, SV(None, ANY, ('tuple', [self.const(z3.simplify(lo).as_long() + i) for i in range(n.as_long())])))]
        return [(st, self.mk_iter(Iter(lambda s: n, lambda s, k: self.mkint(lo + k))))]

    def bi_itertools_count(self, st, args, kw):
        s0 = self.intt(args[0]) if args else z3.IntVal(0)
        return [(st, self.mk_iter(Iter(lambda s: None, lambda s, k: self.mkint(s0 + k))))]

    def bi_reversed(self, st, args, kw):
        v = self.resolve_priv(st, args[0])
        it = self.iter_of(st, v)
        if it.static is not None:
            return [(st, self.mk_iter(Iter(None, None, static=list(reversed(it.static)))))]
        n = it.n(st)
        return [(st, self.mk_iter(Iter(lambda s: n, lambda s, k: it.at(s, n - 1 - k))))]

    def bi_filter(self, st, args, kw):
        f, src = args
        st.env['$ff'], st.env['$fs'] = f, src
        none = f.st and f.st[0] == 'const' and f.st[1] is None
        e = ast.parse('[x for x in s if f(x)]' if not none else '[x for x in s if x]', mode='eval').body
        e.generators[0].iter = ast.Name('$fs')
        if not none:
            e.generators[0].ifs[0].func = ast.Name('$ff')
        for n in ast.walk(e):
            n.lineno = st.extra.get('line', 0)
        return self.comp(e, st, 'list')

    def bi_map(self, st, args, kw):
        f, src = args
        st.env['$ff'], st.env['$fs'] = f, src
        e = ast.parse('[f(x) for x in s]', mode='eval').body
        e.generators[0].iter = ast.Name('$fs')
        e.elt.func = ast.Name('$ff')
        for n in ast.walk(e):
            n.lineno = st.extra.get('line', 0)
        return self.comp(e, st, 'list')

    def quant(self, st, args, isall):
        v = self.resolve_priv(st, args[0])
        if v.st and v.st[0] == 'gen':
            e, env = v.st[1], v.st[2]
            g = e.generators
            if len(g) == 1:
                return self.with_env(st, env, lambda s: self.bind(
                    self.ev(g[0].iter, s), lambda s2, src: self.quant_gen(s2, e, src, isall)))
        def over(s, l):
            it = self.iter_of(s, l)
            if it.static is not None:
                ts = [self.truth(s, x) for x in it.static]
                return [(s, self.boolc(And(*ts) if isall else Or(*ts)))]
            n = it.n(s)
            k = z3.Int('k!q')
            s2 = s.copy()
            t = self.truth(s2, it.at(s2, k))
            s.extra = s2.extra
            rng = And(k >= 0, k < n)
            return [(s, self.boolv(ForAll([k], Implies(rng, t)) if isall else z3.Exists([k], And(rng, t))))]
        return over(st, v)

    def quant_gen(self, st, e, src, isall):
        g = e.generators[0]
        it = self.iter_of(st, src)
        if it.static is not None:
            outs = [(st, [])]
            for item in it.static:
                def step(s, acc, item=item):
                    if g.ifs:
                        raise OOS('filtered any/all over a static sequence')
                    return self.bind(self.assign(g.target, item, s), lambda s2, _: [
                        (s3, v if isinstance(v, Exc) else acc + [self.truth(s3, v)]) for s3, v in self.ev(e.elt, s2)])
                outs = self.bind(outs, step)
            return [(s, ts if isinstance(ts, Exc) else self.boolc(And(*ts) if isall else Or(*ts))) for s, ts in outs]
        i = self.fresh('i!q', I)
        n = it.n(st)

        def body(s):
            s.add(i >= 0, i < n)

            def elt(s2, _):
                acc = [(s2, [])]
                for c in g.ifs + [e.elt]:
                    acc = self.bind(acc, lambda s3, cs, c=c: [(s4, v if isinstance(v, Exc) else cs + [self.truth(s4, v)])
                                                             for s4, v in self.ev(c, s3)])
                return acc
            return self.bind(self.assign(g.target, it.at(s, i), s), elt)
        r = self.pure_eval(st, body)
        if r is None:
            raise OOS('any/all with effects')
        facts, ts, s2 = r
        k = z3.Int('k!q')
        sub = lambda t: z3.substitute(t, (i, k))
        facts = [f for f in facts if not f.eq(i >= 0) and not f.eq(i < n)]
        dep = [f for f in facts if self.mentions(f, i)]
        for f in facts:
            if not self.mentions(f, i):
                st.add(f)
        if dep:
            st.add(ForAll([k], Implies(And(k >= 0, k < n), sub(And(*dep)))))
        c, t = And(*ts[:-1]), ts[-1]
        rng = And(k >= 0, k < n)
        q = ForAll([k], Implies(And(rng, sub(c)), sub(t))) if isall else z3.Exists([k], And(rng, sub(c), sub(t)))
        return [(st, self.boolv(q))]

    def bi_any(self, st, args, kw):
        return self.quant(st, args, False)

    def bi_all(self, st, args, kw):
        return self.quant(st, args, True)

    def bi_next(self, st, args, kw):
        """next(generator expression, default): the loop that stops at the first item."""
        if len(args) != 2 or not (args[0].st and args[0].st[0] == 'gen') or len(args[0].st[1].generators) != 1:
            raise OOS('next')
        e, env = args[0].st[1], args[0].st[2]
        acc = '$next%d' % self.lits.n
        self.lits.n += 1
        g = e.generators[0]
        body = [ast.Assign([ast.Name(acc)], e.elt), ast.Break()]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        loop = ast.For(g.target, g.iter, body, [])
        ast.fix_missing_locations(ast.copy_location(loop, e))
        for x in ast.walk(loop):
            if not hasattr(x, 'lineno') and isinstance(x, (ast.stmt, ast.expr)):
                x.lineno = e.lineno
        saved = dict(st.env)
        st.env = dict(env)
        st.env[acc] = args[1]
        res = []
        for s, o in self.exec([loop], st):
            if o.k == 'raise':
                s.env = dict(saved)
                res.append((s, o.v))
                continue
            v = s.env[acc]
            s.env = dict(saved)
            res.append((s, v))
        return res

    def bi_getattr(self, st, args, kw):
        o, name = args[0], args[1]
        o = self.resolve_priv(st, o)
        h = self.reg.getattr_hook
        if h is not None:
            r = h(self, st, o, name, args[2] if len(args) > 2 else None)
            if r is not None:
                return r
        if name.st and name.st[0] == 'const':
            if len(args) > 2 and o.ty[0] == 'inst' and self.reg.schema.get(o.ty[1], {}).get('absent'):
                # attributes of a class being defined: None stands for one that no ancestor has
                v = self.inst_attr(st, o, name.st[1])
                return [(st, SV(If(V.is_none(v.t), self.term(st, args[2]), v.t), join_ty(unopt(v.ty), args[2].ty)))]
            return self.get_attr(st, o, name.st[1])
        return [(st, SV(self.ufunc('anyattr', V, V, V)(self.term(st, o), self.term(st, name)), ANY))]

    def bi_max(self, st, args, kw):
        if len(args) == 2:
            a, b = self.intt(args[0]), self.intt(args[1])
            return [(st, self.mkint(z3.If(a >= b, a, b)))]
        raise OOS('max')

    def bi_min(self, st, args, kw):
        if len(args) == 2:
            a, b = self.intt(args[0]), self.intt(args[1])
            return [(st, self.mkint(z3.If(a <= b, a, b)))]
        raise OOS('min')

    def bi_id(self, st, args, kw):
        raise OOS('id')

    def bi_copy_copy(self, st, args, kw):
        v = self.resolve_priv(st, args[0])
        if unopt(v.ty)[0] == 'list':
            return self.bi_list(st, args, kw)
        if unopt(v.ty)[0] in ('dict', 'map'):
            return self.bi_dict(st, args, kw)
        raise OOS('copy')

    # ------------------------------------------------------------------ container methods
    def container_method(self, st, c, name, args, kw):
        c = self.resolve_priv(st, c)
        if c.st and c.st[0] == 'record':
            return self.cm_record(st, c, name, args, kw)
        k = unopt(c.ty)[0]
        if k == 'list':
            return self.cm_list(st, c, name, args, kw)
        if k in ('dict', 'map'):
            return self.cm_dict(st, c, name, args, kw)
        if k in ('set', 'fset'):
            if name == 'add':
                self.set_add(st, c, args[0])
                return [(st, self.const(None))]
            if name == 'pop' and not args:
                d = self.load_dict(st, c)

                def f(s, _):
                    i = self.fresh('ip', I)
                    s.add(i >= 0, i < d.n)
                    x = self.sel(d.key, i)
                    self.store_dict(s, c, self.dict_del(s, d, x))
                    return [(s, SV(x, d.kty))]
                return self.bind(self.checked(st, (None, [(d.n > 0, 'KeyError')])), f)
            raise OOS(f'set.{name}')
        if k in ('seq', 'tup'):
            raise OOS(f'tuple.{name}')
        raise OOS(f'method {name}')

    def cm_record(self, st, c, name, args, kw):
        items = c.st[1]
        if name == 'get':
            v, oks = self.record_get(st, c, args[0], args[1] if len(args) > 1 else self.const(None))
            return [(st, v)]
        if name == 'items':
            return [(st, self.mk_iter(Iter(None, None, static=[SV(None, ANY, ('tuple', [self.const(k), v])) for k, v in items])))]
        if name == 'keys':
            return [(st, self.mk_iter(Iter(None, None, static=[self.const(k) for k, v in items])))]
        if name == 'values':
            return [(st, self.mk_iter(Iter(None, None, static=[v for k, v in items])))]
        if name == 'copy':
            return [(st, c)]
        if name == 'pop' and args[0].st and args[0].st[0] == 'const':
            raise OOS('record.pop')
        raise OOS(f'record.{name}')

    def cm_list(self, st, c, name, args, kw):
        NONE_ = self.const(None)
        pl = self.load_list(st, c)
        if name == 'append':
            v = args[0]
            if not self.is_priv(st, c):
                v = self.coerce(st, v, pl.ety, 'list item')
            self.list_append(st, c, v)
            return [(st, NONE_)]
        if name == 'extend':
            v = self.resolve_priv(st, args[0])
            if v.st and v.st[0] == 'gen':
                return self.bind(self.bi_list(st, [v], {}), lambda s, l: self.cm_list(s, c, 'extend', [l], {}))
            if self.static_tuple(v) is not None:
                for x in self.static_tuple(v):
                    self.cm_list(st, c, 'append', [x], {})
                return [(st, NONE_)]

            def f(s, l):
                r, oks = self.op_bin(s, ast.Add(), SV(c.t, unopt(c.ty), c.st), l)
                self.store_list(s, c, s.priv[r.st[1]])
                return [(s, NONE_)]
            if self.load_list(st, v) is not None:
                return f(st, v)
            return self.bind(self.bi_list(st, [v], {}), f)
        if name == 'copy':
            return self.bi_list(st, [c], {})
        if name == 'insert':
            i, v = args
            if not self.is_priv(st, c):
                v = self.coerce(st, v, pl.ety, 'list item')
            t = self.term(st, v)
            ix = self.intt(i)
            ix = z3.simplify(z3.If(ix < 0, z3.If(ix + pl.n < 0, z3.IntVal(0), ix + pl.n), z3.If(ix > pl.n, pl.n, ix)))
            at = self.fresh('ins', AIV)
            k = z3.Int('k!i')
            st.add(ForAll([k], at[k] == z3.If(k < ix, z3.Select(pl.at, k), z3.If(k == ix, t, z3.Select(pl.at, k - 1))),
                             patterns=[at[k]]))
            self.store_list(st, c, PList(pl.n + 1, at, self.fresh('sq', SQ), join_ty(pl.ety, self.ty_of(st, v)) if self.is_priv(st, c) else pl.ety))
            return [(st, NONE_)]
        if name == 'pop':
            i = self.intt(args[0]) if args else z3.IntVal(-1)
            i, ok = self.norm_index(i, pl.n)

            def g(s, _):
                pl = self.load_list(s, c)
                at = self.fresh('pop', AIV)
                k = z3.Int('k!p')
                s.add(ForAll([k], at[k] == z3.If(k < i, z3.Select(pl.at, k), z3.Select(pl.at, k + 1)), patterns=[at[k]]))
                x = SV(self.at(s, pl, i), pl.ety)
                self.store_list(s, c, PList(pl.n - 1, at, self.fresh('sq', SQ), pl.ety))
                return [(s, x)]
            return self.bind(self.checked(st, (None, [(ok, 'IndexError')])), g)
        if name == 'clear':
            self.store_list(st, c, PList(z3.IntVal(0), pl.at, sq_empty, pl.ety))
            return [(st, NONE_)]
        raise OOS(f'list.{name}')

    def cm_dict(self, st, c, name, args, kw):
        d = self.load_dict(st, c)
        ct = SV(c.t, unopt(c.ty), c.st)
        if name == 'get':
            k = self.term(st, args[0])
            dflt = args[1] if len(args) > 1 else self.const(None)
            has = self.dict_has(d, k)
            s = self.split(st, has)
            if s[1] is None:
                return [(s[0], self.read(s[0], self.dict_val(d, k), d.vty))]
            if s[0] is None:
                return [(s[1], dflt)]
            if dflt.t is not None:
                self_v = self.read(s[0], self.dict_val(d, k), d.vty)
                m = self.try_merge(st, has, [(s[0], SV(self_v.t, self_v.ty)), (s[1], SV(dflt.t, dflt.ty))])
                if m:
                    return m
            return [(s[0], self.read(s[0], self.dict_val(d, k), d.vty)), (s[1], dflt)]
        if name == 'pop':
            k = self.term(st, args[0])
            has = self.dict_has(d, k)
            if len(args) < 2:
                outs = self.checked(st, (None, [(has, 'KeyError')]))

                def f(s, _):
                    d = self.load_dict(s, ct)
                    v = self.read(s, self.dict_val(d, k), d.vty)
                    self.store_dict(s, ct, self.dict_del(s, d, k))
                    return [(s, v)]
                return self.bind(outs, f)
            a, b = self.split(st, has)
            res = []
            if a is not None:
                d = self.load_dict(a, ct)
                v = self.read(a, self.dict_val(d, k), d.vty)
                self.store_dict(a, ct, self.dict_del(a, d, k))
                res.append((a, v))
            if b is not None:
                res.append((b, args[1]))
            return res
        if name in ('items', 'keys', 'values'):
            def at(s, i):
                k = self.read(s, self.sel(d.key, i), d.kty)
                if name == 'keys':
                    return k
                v = self.read(s, self.dict_val(d, k.t), d.vty)
                if name == 'values':
                    return v
                return SV(None, ANY, ('tuple', [k, v]))
            return [(st, self.mk_iter(Iter(lambda s: d.n, at)))]
        if name == 'copy':
            return self.bi_dict(st, [c], {})
        if name == 'setdefault':
            k = self.term(st, args[0])
            a, b = self.split(st, self.dict_has(d, k))
            res = []
            if a is not None:
                res.append((a, self.read(a, self.dict_val(d, k), d.vty)))
            if b is not None:
                res += self.bind(self.set_item(b, ct, args[0], args[1]), lambda s, _: [(s, args[1])])
            return res
        if name == 'update':
            if self.is_priv(st, c):
                for a in args:
                    self.dict_update(st, c, self.resolve_priv(st, a))
                return [(st, self.const(None))]
            p = self.new_pdict(st)
            self.dict_update(st, p, ct)
            for a in args:
                self.dict_update(st, p, self.resolve_priv(st, a))
            self.store_dict(st, ct, self.load_dict(st, p))
            return [(st, self.const(None))]
        if name == 'clear':
            self.store_dict(st, ct, PDict(z3.IntVal(0), d.key, z3.K(V, z3.BoolVal(False)), d.val, d.pos, d.kty, d.vty))
            return [(st, self.const(None))]
        raise OOS(f'dict.{name}')

    def string_method(self, st, v, name, args, kw):
        oks = []
        s = gets(v.t)
        if name in ('strip', 'lower', 'upper', 'lstrip', 'rstrip') and not args:
            f = self.ufunc('str.' + name, S, S)
            if v.st and v.st[0] == 'const':
                return [(st, self.const(getattr(v.st[1], name)()))]
            r = f(s)
            e = self.lits.lit('')
            self.once(st, ('strm', name), f(e) == e)
            return [(st, SV(V.str(r), STR))]
        if name == 'split' and len(args) == 1 and args[0].st and args[0].st[0] == 'const':
            f = self.ufunc('str.split.' + args[0].st[1], S, I)
            m = f(s)
            k = z3.Int('k!sp')
            self.once(st, ('split', m.get_id()), And(tn(m) >= 1, ForAll([k], Implies(And(k >= 0, k < tn(m)), V.is_str(tat(m, k))),
                                                                        patterns=[tat(m, k)])))
            return [(st, SV(V.tup(m), ty('seq', STR)))]
        if name in ('startswith', 'endswith'):
            return [(st, self.boolv(self.ufunc('str.' + name, S, S, B)(s, gets(self.term(st, args[0])))))]
        if name == 'join':
            f = self.ufunc('str.join', S, V, S)
            return self.bind(self.bi_tuple(st, [args[0]], {}), lambda s2, t: [(s2, SV(V.str(f(s, self.term(s2, t))), STR))])
        if name == 'format':
            raise OOS('str.format')
        raise OOS(f'str.{name}')
