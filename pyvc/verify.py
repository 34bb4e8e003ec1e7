"""Verification of one function against its contract."""
import time
import z3
from .terms import *
from .state import *
from .engine import Exc, Obligation
from .symex import Out
from .spec import Spec


class Result:
    def __init__(self, key):
        self.key, self.obls, self.oos, self.paths, self.time, self.queries, self.props = key, [], None, 0, 0.0, 0, ()
        self.assumed = []

    @property
    def failed(self):
        return [o for o in self.obls if o.status != 'proved']


class Verifier(Spec):
    RL_LOOP = 1_500_000

    def __init__(self, prog, reg):
        super().__init__(prog, reg)
        self.quiet = 0
        self.target = None
        self.target_env = {}
        self.target_entry = None
        self.inline_only = None
        self.failed_names = {}
        self.fail_time = 0.0

    # ------------------------------------------------------------------
    def conjuncts(self, g, hyps=()):
        """Equivalent list of (hypotheses, goal): conjunctions are split, outer universals become constants."""
        if z3.is_and(g):
            return [y for x in g.children() for y in self.conjuncts(x, hyps)]
        if z3.is_implies(g):
            return self.conjuncts(g.arg(1), hyps + (g.arg(0),))
        if z3.is_quantifier(g) and g.is_forall():
            cs = [self.fresh('sk_' + g.var_name(i), g.var_sort(i)) for i in range(g.num_vars())]
            return self.conjuncts(z3.substitute_vars(g.body(), *reversed(cs)), hyps)
        return [(hyps, g)]

    def oblige(self, st, goal, kind, name, detail=''):
        if self.quiet:
            return
        if kind == 'wf' and st.extra.get('newel'):
            # split on whether the element is one of those made here
            e = self.fresh('sk_e', I)
            body = z3.substitute_vars(goal.body(), e)
            new = list(st.extra['newel'])
            cases = [And(e == x, *[e != y for y in new[:i]]) for i, x in enumerate(new)] + [And(*[e != x for x in new])]
            wfal = st.extra.get('wfal')
            if wfal is not None:
                new = [x for x in new]
                cases[-1] = And(cases[-1], e < wfal)
                self.oblige1(st, [self.is_alive(st, e)] + [e != x for x in new], e < wfal, kind, name, detail + ' #0')
            for n, cs in enumerate(cases):
                gs = self.conjuncts(body, (cs,))
                for i, (h, g) in enumerate(gs):
                    self.oblige1(st, list(h), g, kind, name, detail + f' #{n + 1}.{i + 1}')
            return
        gs = self.conjuncts(goal)
        for i, (h, g) in enumerate(gs):
            self.oblige1(st, list(h), g, kind, name, detail + (f' #{i + 1}' if len(gs) > 1 else ''))

    def oblige1(self, st, hyps, goal, kind, name, detail):
        full = f"{self.target.short if self.target else '?'}: {name}"
        o = Obligation(full, None, goal, kind, f"{detail}  [line {st.extra.get('line', '?')}]")
        t0 = time.time()
        if full in self.failed_names and self.failed_names[full] >= 2 or self.fail_time > 60:
            # the function is already known not to satisfy its contract; do not spend more time on it
            r, s = self.check(st.pc + hyps, goal, self.RL_QUICK)
            o.status, o.time, o.path = ('proved' if r == 'proved' else 'unknown'), time.time() - t0, self.path_lines(st)
            o.reason = '' if r == 'proved' else 'not attempted further: earlier obligations of this function failed'
            self.obls.append(o)
            return
        if z3.is_true(goal) or z3.is_true(z3.simplify(goal)) or any(h.eq(goal) for h in st.pc):
            o.status = 'proved'
        else:
            r, s = self.check(st.pc + hyps, goal, cvc=True)
            if r == 'unknown':
                for seed in (7, 23):
                    r2, s2 = self.check(st.pc + hyps, goal, self.RL_MAIN * 2, seed)
                    if r2 != 'unknown':
                        r, s = r2, s2
                        break
            o.status = r
            if s == 'cvc5':
                o.backend = 'cvc5'
            if r == 'refuted':
                o.model = self.show_model(s.model(), st)
            elif r == 'unknown':
                o.reason = s.reason_unknown()
                o.model = None
        o.time = time.time() - t0
        if o.status != 'proved':
            self.failed_names[full] = self.failed_names.get(full, 0) + 1
            self.fail_time += o.time
        o.path = self.path_lines(st)
        self.obls.append(o)

    def path_lines(self, st):
        return st.extra.get('line', 0)

    def show_model(self, m, st):
        out = []
        for d in sorted(m.decls(), key=lambda d: d.name()):
            n = d.name()
            if d.arity() == 0 and not n.startswith(('H0.', 'lp', 'm!', 'k!')):
                out.append(f'{n} = {str(m[d])[:200]}')
        return '\n'.join(out[:120])

    # ------------------------------------------------------------------
    def modset(self, c, entry):
        """component -> list of reference terms that may change."""
        locs = {}
        for loc in c.modifies or ():
            if loc[0] == '@':
                for comp in {'@L': LISTC, '@D': DICTC}.get(loc, [loc[1:]]):
                    locs[comp] = None
                continue
            for comp, r in self.loc_refs(loc, entry, self.target_env):
                locs.setdefault(comp, []).append(r)
        return locs

    def frame_goal(self, st, comp):
        c, e = self.target, self.target_entry
        if st.comps[comp].eq(e.comps[comp]):
            return TRUE
        r = z3.Int('r!fr')
        if c.modifies == 'tree' and comp not in FINAL and comp not in ('G.dead', 'G.ref'):
            return TRUE
        if self.target_mods.get(comp, 0) is None:
            return TRUE
        ex = [r != x for x in self.target_mods.get(comp, [])]
        if comp == 'G.ref':
            ex = [r != getr(self.spec_value(d, e.copy(), self.target_env).t) for d in c.ghost_ref]
            return ForAll([r], Implies(And(r >= 0, r < e.al, *ex), Implies(st.comps[comp][r], e.comps[comp][r])
                             if c.modifies == 'tree' else st.comps[comp][r] == e.comps[comp][r]), patterns=[st.comps[comp][r]])
        if comp == 'G.owner' and c.ghost_dead:
            return TRUE
        if comp == 'G.dead':
            ex = [r != getr(self.spec_value(d, e.copy(), self.target_env).t) for d in c.ghost_dead]
        return ForAll([r], Implies(And(r >= 0, r < e.al, *ex), st.comps[comp][r] == e.comps[comp][r]),
                         patterns=[st.comps[comp][r]])

    def verify(self, key):
        c = self.reg.contracts[key]
        res = Result(key)
        res.props = c.props
        t0 = time.time()
        try:
            self._verify(c, res)
        except OOS as e:
            res.oos = str(e)
        res.obls = self.obls
        res.time = time.time() - t0
        res.queries = self.stats['queries']
        return res

    def setup(self, c, fi):
        st = self.new_state()
        st.extra['fn'] = fi
        st.extra['line'] = fi.node.lineno
        st.extra['stack'] = (fi.key,)
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        if c.tree:
            st.add(self.WF(st))
        env = {}
        for n in names:
            if n not in c.params:
                raise OOS(f'parameter {n} of {c.short} is not in the contract')
            t = c.params[n]
            if t == 'class':
                env[n] = SV(None, ANY, ('class', fi.cls))
                continue
            t = self.norm_type(t)
            if t[0] == 'inst' and t[1] == 'Rec':
                env[n] = SV(None, ANY, ('record', []))
                continue
            v = SV(z3.Const('arg_' + n, V), t)
            st.add(self.typeinv(st, v.t, t))
            al = self.live_arg(st, v, t)
            if al is not None:
                st.add(al)
            if unopt(t)[0] == 'inst' and n in ('self', 'cls'):
                pass
            env[n] = v
        for n in c.params:
            if n not in names:
                raise OOS(f'contract parameter {n} of {c.short} no longer exists')
        if c.tree:
            st.extra['wf'], st.extra['wfal'] = self.wf_key(st), st.al
        st.extra['al0'] = st.al
        return st, env

    def left_to_right(self, f):
        """A defining equation of a ghost function is unfolded where its left hand side occurs."""
        if not (z3.is_quantifier(f) and f.is_forall()):
            return f
        vs = [z3.Const(f'{f.var_name(i)}!d{i}', f.var_sort(i)) for i in range(f.num_vars())]
        b = z3.substitute_vars(f.body(), *reversed(vs))
        e = b.arg(1) if z3.is_implies(b) else b
        if z3.is_eq(e):
            for l in (e.arg(0), e.arg(1)):
                if z3.is_app(l) and l.decl().name().startswith('G:') and all(self.occurs(v, l) for v in vs):
                    return z3.ForAll(vs, b, patterns=[l])
        return f

    def occurs(self, v, t):
        return t.eq(v) or any(self.occurs(v, x) for x in t.children())

    def _verify(self, c, res):
        fi = self.prog.get(c.key)
        if fi is None:
            raise OOS(f'{c.key} not found')
        if fi.other_decs:
            raise OOS(f'decorators {fi.other_decs}')
        self.target = c
        self.inline_only = None
        use_heap(self.reg, [*c.params.values(), c.ret])
        st, env = self.setup(c, fi)
        self.target_env = dict(env)
        for r in c.requires:
            st.add(self.spec(r, st, env))
        self.ghost_defs = []
        for r in c.ghostdef:
            f = self.left_to_right(self.spec(r, st, env))
            st.add(f)
            if z3.is_quantifier(f) and f.num_vars() == 1 and f.var_sort(0) == z3.IntSort():
                self.ghost_defs.append(f.body())
        for n, ex in c.let.items():
            self.target_env[n] = self.let_value(st, ex, self.target_env)
        if self.infeasible(st):
            o = Obligation(f'{c.short}: precondition is satisfiable', None, FALSE, 'vacuity')
            o.status = 'refuted'
            self.obls.append(o)
            return
        names = [x.arg for x in fi.node.args.args]
        first = names[0] if names and fi.cls is not None and not fi.is_static else None
        st.extra['self'] = env.get(first) if first else None
        entry = st.copy()
        self.target_entry = entry
        st.entry = entry
        self.target_mods = self.modset(c, entry) if isinstance(c.modifies, list) else {}
        st.env = dict(env)
        outs = self.exec(fi.node.body, st)
        res.paths = len(outs)
        normal = 0
        for s, o in outs:
            s.entry = entry
            if o.k == 'raise':
                self.exit_raise(c, s, o.v)
            else:
                normal += 1
                self.exit_normal(c, s, self.outval(o))
        if c.post:
            c.post(self, c, outs)
        if not self.obls:
            o = Obligation(f'{c.short}: at least one obligation', None, FALSE, 'vacuity')
            o.status = 'refuted'
            self.obls.append(o)
        if not normal and 'noreturn' not in c.note:
            o = Obligation(f'{c.short}: a normal return is reachable', None, FALSE, 'vacuity')
            o.status = 'refuted'
            self.obls.append(o)

    def exit_state(self, c, s):
        """Heap obligations common to all exits."""
        if c.light:
            return
        for d in c.ghost_dead:
            v = self.spec_value(d, self.target_entry.copy(), self.target_env)
            s.comps['G.dead'] = z3.Store(s.comps['G.dead'], getr(v.t), TRUE)
        for comp in COMPS:
            if s.comps[comp].eq(self.target_entry.comps[comp]):
                continue
            if comp == 'L.sq':
                continue
            g = self.frame_goal(s, comp)
            if not z3.is_true(g):
                self.oblige(s, g, 'frame', f'frame: {comp} changes only where the contract allows', str(c.modifies))
        if c.tree or (c.modifies not in (None, [])) or c.allocates:
            if s.extra.get('wf') != self.wf_key(s) and c.tree:
                self.oblige(s, self.WF(s), 'wf', 'element trees are well formed at exit', '')

    def exit_normal(self, c, s, v):
        rt = self.norm_type(c.ret)
        if rt == NONET:
            if not (v.st and v.st[0] == 'const' and v.st[1] is None):
                if v.t is None:
                    raise OOS('unexpected result')
                self.oblige(s, self.is_none(s, v), 'type', 'returns None', '')
            v = self.const(None)
        elif c.ret != 'Raw':
            n0 = len(s.pc)
            v = self.coerce(s, v, rt, 'result')
        pre = self.target_entry
        for exc, cond in c.raises.items():
            if cond is not None and c.exact.get(exc, True):
                g = self.spec(cond, pre.copy(), self.target_env)
                s2 = s
                self.oblige(s2, Not(g), 'raises', f'{exc} is raised whenever required', cond)
        e2 = dict(self.target_env, result=v)
        for name, ex in c.ensures.items():
            s2 = s.copy()
            g = self.spec(ex, s2, e2, pre)
            self.oblige(s2, g, 'post', name, ex)
        if c.pure and c.ret != 'None' and False:
            pass
        a = self.live_arg(s, v, rt) if c.tree and v.t is not None else None
        self.exit_state(c, s)
        if a is not None:
            self.oblige(s, self.live_arg(s, v, rt), 'post', 'the result is a live element', '')
        self.exit_events(c, s)

    def exit_events(self, c, s):
        pass

    def exit_raise(self, c, s, ex):
        if ex.cls not in c.raises:
            if ex.cls == 'Other' and 'Other' in c.raises:
                return
            self.oblige(s, FALSE, 'raises', f'does not raise {ex.cls}', '')
            return
        cond = c.raises[ex.cls]
        if cond is not None:
            s2 = s.copy()
            g = self.spec(cond, self.target_entry.copy(), self.target_env)
            self.oblige(s2, g, 'raises', f'{ex.cls} is raised only when allowed', cond)
        for name, e in c.exc_ensures.get(ex.cls, {}).items():
            s2 = s.copy()
            names = dict(self.target_env)
            if ex.sv is not None:
                names['exc'] = ex.sv
            g = self.spec(e, s2, names, self.target_entry)
            self.oblige(s2, g, 'post', f'{name} (when raising {ex.cls})', e)
        self.exit_state(c, s)
