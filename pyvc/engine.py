"""Core of the verifier: types, heap operations, obligations."""
import ast
import z3
from .terms import *
from .state import *
from .source import FuncInfo, ClassInfo

KIND = {'list': 1, 'dict': 2, 'set': 3, 'exc': 4}


class Exc:
    """Outcome of an expression that raised."""

    def __init__(self, cls, sv=None):
        self.cls, self.sv = cls, sv


class Obligation:
    def __init__(self, name, hyps, goal, kind, detail=''):
        self.name, self.hyps, self.goal, self.kind, self.detail = name, hyps, goal, kind, detail
        self.status, self.time, self.model, self.reason = None, 0.0, None, ''


class Base:
    RL_QUICK = 400_000
    RL_FORK = 200_000
    RL_MAIN = 12_000_000

    def __init__(self, prog, registry):
        self.prog, self.reg = prog, registry
        self.lits = Lits()
        self.ax = []
        self.obls = []
        self.safe_ok = 0
        self.fas = {}
        self.stats = {'queries': 0, 'time': 0.0}
        self._funcs = {}
        self.uses_view = False

    # ---------------------------------------------------------------- basics
    def fresh(self, name, sort):
        return self.lits.fresh(name, sort)

    def lit(self, s):
        return SV(V.str(self.lits.lit(s)), STR, ('const', s))

    def const(self, c):
        if c is None:
            return SV(NONE, NONET, ('const', None))
        if c is True or c is False:
            return SV(V.bool(z3.BoolVal(c)), BOOL, ('const', c))
        if isinstance(c, int):
            return SV(V.int(z3.IntVal(c)), INT, ('const', c))
        if isinstance(c, str):
            return self.lit(c)
        if c is Ellipsis:
            return SV(None, ANY, ('ext', '...'))
        return SV(V.sym(z3.IntVal(self.lits.sym(('const', repr(c))))), ANY)

    def fa(self, attr):
        if attr not in self.fas:
            self.fas[attr] = z3.Function('a:' + attr, I, V)
        return self.fas[attr]

    def ufunc(self, name, *sorts):
        if name not in self._funcs:
            self._funcs[name] = z3.Function(name, *sorts)
        return self._funcs[name]

    def boolv(self, b):
        return SV(V.bool(b), BOOL)

    def intv(self, i):
        return SV(V.int(i), INT)

    # ---------------------------------------------------------------- solving
    def solver(self, rl, seed=1):
        s = z3.Solver()
        s.set('rlimit', rl)
        s.set('random_seed', seed)
        s.set('timeout', 60000)
        return s

    def check_cvc5(self, hyps, goal):
        """The same query put to cvc5; only its `unsat` is used."""
        import shutil
        import subprocess
        import time
        exe = shutil.which('cvc5')
        if exe is None:
            return 'unknown'
        t0 = time.time()
        s = z3.Solver()
        for a in list(self.ax) + list(self.lits.axioms()) + list(hyps) + [z3.Not(goal)]:
            s.add(a)
        try:
            r = subprocess.run([exe, '--lang=smt2', '--rlimit=3000000', '--tlimit=20000', '-'], input='(set-logic ALL)\n' + s.to_smt2(),
                               capture_output=True, text=True, timeout=40).stdout.split()
        except subprocess.TimeoutExpired:
            r = ['unknown']
        self.stats['cvc5'] = self.stats.get('cvc5', 0) + 1
        self.stats['time'] += time.time() - t0
        return 'proved' if r == ['unsat'] else 'unknown'

    def check(self, hyps, goal, rl=None, seed=1, cvc=False):
        """-> 'proved' | 'refuted' | 'unknown' , solver"""
        rl = rl or self.RL_MAIN
        if not z3.is_false(goal):
            for few in self.relevant(hyps, goal):
                r, s = self.check1(few, goal, min(rl, 600_000), seed)
                if r == 'proved':
                    return r, s
        if cvc:
            r, s = self.check1(hyps, goal, self.RL_QUICK, seed)
            if r != 'unknown':
                return r, s
            if self.check_cvc5(hyps, goal) == 'proved':
                return 'proved', 'cvc5'
        return self.check1(hyps, goal, rl, seed)

    _info = {}

    def fact_info(self, f):
        """(has a quantifier, identifying constants) of a fact."""
        k = f.get_id()
        e = self._info.get(k)
        if e is None or e[0] is not f and not e[0].eq(f):
            q, cs, todo, seen = False, set(), [f], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    q = True
                    todo.append(x.body())
                elif z3.is_app(x):
                    if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        n = x.decl().name()
                        if not n.startswith(('H0.', 'al', 'lit_', 'arg_self')):
                            cs.add(n)
                    todo.extend(x.children())
            e = self._info[k] = (f, q, frozenset(cs))
        return e[1], e[2]

    def relevant(self, hyps, goal):
        """The ground facts and the quantified ones that mention a constant of the goal (None: nothing to drop)."""
        _, gc = self.fact_info(goal)
        wfs = [i for i, h in enumerate(hyps) if z3.is_quantifier(h) and h.num_vars() == 1 and h.var_name(0) == 'e!wf']
        old = set(wfs[:-1])
        few = [h for h in hyps if not self.fact_info(h)[0] or self.fact_info(h)[1] & gc]
        mid = [h for i, h in enumerate(hyps) if i not in old]
        out, n = [], len(hyps)
        for x in (few, mid):
            if len(x) < n and (not out or len(x) != len(out[-1])):
                out.append(x)
        return out

    def check1(self, hyps, goal, rl, seed):
        import time
        t0 = time.time()
        s = self.solver(rl, seed)
        for a in self.ax:
            s.add(a)
        for a in self.lits.axioms():
            s.add(a)
        for h in hyps:
            s.add(h)
        s.add(z3.Not(goal))
        r = s.check()
        self.stats['queries'] += 1
        self.stats['time'] += time.time() - t0
        return {'unsat': 'proved', 'sat': 'refuted'}.get(str(r), 'unknown'), s

    def prove(self, st, goal, rl=None, cvc=False):
        if z3.is_true(goal):
            return True
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        for h in st.pc:
            if h.eq(goal) or h.eq(g):
                return True
        return self.check(st.pc, goal, rl or self.RL_QUICK, cvc=cvc)[0] == 'proved'

    def infeasible(self, st):
        return self.check(st.pc, FALSE, self.RL_FORK)[0] == 'proved'

    # ---------------------------------------------------------------- states
    def new_state(self):
        st = State()
        st.pc, st.env, st.priv, st.esc, st.fw, st.extra = [], {}, {}, {}, {}, {}
        st.comps = {n: z3.Const('H0.' + n, s) for n, s in COMPS.items()}
        st.al = z3.Const('al0', I)
        st.hv = z3.Const('hv0', I)
        st.ver = 0
        st.tr = Trace({}, {})
        st.entry = None
        st.add(st.al >= 0)
        return st

    def alloc(self, st, kind, cls_term=None):
        r = st.al
        al2 = self.fresh('al', I)
        st.add(al2 == r + 1)
        st.al = al2
        st.add(kindof(r) == kind)
        if cls_term is not None:
            st.add(clsof(r) == cls_term)
        return r

    def touch(self, st):
        st.ver += 1
        st.hv = self.fresh('hv', I)

    def named(self, st, t):
        """A constant standing for t when t is not usable inside patterns (conditional or lambda)."""
        if t is None or not bad_pattern(t):
            return t
        c = self.fresh('nm', t.sort())
        if z3.is_quantifier(t) or any(z3.is_quantifier(x) for x in (t.children() if z3.is_app(t) else ())):
            if z3.is_quantifier(t) and t.is_lambda():
                x = z3.Const('x!nm', t.sort().domain())
                st.add(ForAll([x], c[x] == z3.simplify(z3.Select(t, x)), patterns=[c[x]]))
                return c
        st.add(c == t)
        return c

    def named_dict(self, st, d):
        return PDict(self.named(st, d.n), self.named(st, d.key), self.named(st, d.has), self.named(st, d.val),
                     self.named(st, d.pos), d.kty, d.vty)

    def named_list(self, st, c):
        return PList(self.named(st, c.n), self.named(st, c.at), c.sq, c.ety)

    def hwrite(self, st, comp, r, v):
        """Write to an existing heap location."""
        st.comps[comp] = z3.Store(st.comps[comp], r, v)

    # ---------------------------------------------------------------- types
    def norm_type(self, t):
        return parse_type(t)

    def family(self, alias):
        c = self.reg.schema.get(alias)
        return c['family'] if c else alias

    def kind_of_alias(self, alias):
        fam = self.family(alias)
        if fam not in KIND:
            KIND[fam] = 100 + self.reg.families.index(fam) if fam in self.reg.families else 1000 + len(KIND)
        return KIND[fam]

    def cls_id(self, alias):
        return z3.IntVal(self.lits.sym(('cls', alias)))

    def typeinv(self, st, t, ty_, deep=False):
        """Facts every well typed value satisfies."""
        k = ty_[0]
        if k == 'any':
            return And(Implies(V.is_ref(t), And(getr(t) >= 0, getr(t) < st.al)))
        if k == 'int':
            return V.is_int(t)
        if k == 'bool':
            return V.is_bool(t)
        if k == 'str':
            return V.is_str(t)
        if k == 'none':
            return V.is_none(t)
        if k == 'opt':
            return Or(V.is_none(t), self.typeinv(st, t, ty_[1]))
        if k == 'union':
            return Or(*[self.typeinv(st, t, x) for x in ty_[1:]])
        if k == 'list':
            r = getr(t)
            return And(V.is_ref(t), r >= 0, r < st.al, kindof(r) == KIND['list'], st.comps['L.n'][r] >= 0)
        if k == 'dict':
            r = getr(t)
            return And(V.is_ref(t), r >= 0, r < st.al, kindof(r) == KIND['dict'], st.comps['D.n'][r] >= 0)
        if k == 'seq':
            return And(V.is_tup(t), tn(gett(t)) >= 0)
        if k == 'tup':
            n = gett(t)
            return And(V.is_tup(t), tn(n) == len(ty_) - 1,
                       *[self.typeinv(st, tat(n, z3.IntVal(i)), x) for i, x in enumerate(ty_[1:])])
        if k in ('map', 'fset'):
            return And(V.is_map(t), mn(getm(t)) >= 0)
        if k == 'inst':
            al = ty_[1]
            en = self.reg.enums.get(al)
            if en:
                base, vals = en
                if base == 'str':
                    return And(V.is_str(t), Or(*[gets(t) == self.lits.lit(v) for v in vals.values()]))
                return And(V.is_int(t), Or(*[geti(t) == v for v in vals.values()]))
            if al == 'Class':
                return V.is_sym(t)
            r = getr(t)
            return And(V.is_ref(t), r >= 0, r < st.al, kindof(r) == self.kind_of_alias(al))
        return TRUE

    def read(self, st, t, ty_):
        """A value read from well typed storage: its type invariant may be assumed (heap typing assumption)."""
        f = self.typeinv(st, t, ty_)
        if not z3.is_true(f):
            st.add(f)
        return SV(t, ty_)

    def dict_wf(self, d):
        i, k = z3.Int('i!w'), z3.Const('k!w', V)
        return And(
            d.n >= 0,
            ForAll([i], Implies(And(i >= 0, i < d.n), And(d.has[d.key[i]], d.pos[d.key[i]] == i)),
                      patterns=[d.key[i]]),
            ForAll([k], Implies(d.has[k], And(d.pos[k] >= 0, d.pos[k] < d.n, d.key[d.pos[k]] == k)),
                      patterns=[d.has[k]]))

    def map_wf(self, m):
        i, k = z3.Int('i!w'), z3.Const('k!w', V)
        return And(
            mn(m) >= 0,
            ForAll([i], Implies(And(i >= 0, i < mn(m)), And(mhas(m, mkey(m, i)), mpos(m, mkey(m, i)) == i)),
                      patterns=[mkey(m, i)]),
            ForAll([k], Implies(mhas(m, k), And(mpos(m, k) >= 0, mpos(m, k) < mn(m), mkey(m, mpos(m, k)) == k)),
                      patterns=[mhas(m, k)]))

    # ---------------------------------------------------------------- private containers
    def new_plist(self, st, elems, ety=None):
        at = self.fresh('pl', AIV)
        sq = sq_empty
        t = ety
        for i, e in enumerate(elems):
            tt = self.term(st, e)
            at = z3.Store(at, z3.IntVal(i), tt)
            sq = sq_snoc(sq, tt)
            t = e.ty if t is None else (t if ety is not None else join_ty(t, e.ty))
        return self.put_priv(st, PList(z3.IntVal(len(elems)), at, sq, t or ANY), 'list')

    def put_priv(self, st, content, kind):
        self.lits.n += 1
        pid = self.lits.n
        st.priv[pid] = content
        if kind == 'list':
            t = ty('list', content.ety)
        elif kind == 'set':
            t = ty('set', content.kty)
        else:
            t = ty('dict', content.kty, content.vty)
        return SV(None, t, ('priv', pid, kind))

    def new_pdict(self, st, kty=ANY, vty=ANY, kind='dict'):
        d = PDict(z3.IntVal(0), self.fresh('dk', AIV), z3.K(V, z3.BoolVal(False)), self.fresh('dv', z3.ArraySort(V, V)),
                  self.fresh('dp', z3.ArraySort(V, I)), kty, vty)
        return self.put_priv(st, d, kind)

    def resolve_priv(self, st, sv):
        if sv.st and sv.st[0] == 'priv' and sv.st[1] in st.esc:
            return st.esc[sv.st[1]]
        if sv.t is not None and sv.ty[0] == 'union':  # the alternative the path condition has settled on
            for t in sv.ty[1:]:
                if self.prove(st, self.typeinv(st, sv.t, t)):
                    return SV(sv.t, t, sv.st)
        return sv

    def is_priv(self, st, sv):
        sv = self.resolve_priv(st, sv)
        return bool(sv.st and sv.st[0] == 'priv')

    def load_list(self, st, sv):
        sv = self.resolve_priv(st, sv)
        if sv.st and sv.st[0] == 'priv':
            c = st.priv[sv.st[1]]
            return c if isinstance(c, PList) else None
        if sv.st and sv.st[0] == 'snap':
            return sv.st[1] if isinstance(sv.st[1], PList) else None
        if sv.st and sv.st[0] == 'tuple':
            els = sv.st[1]
            at = z3.K(I, NONE)
            t, sq = None, sq_empty
            for i, e in enumerate(els):
                at = z3.Store(at, z3.IntVal(i), self.term(st, e))
                sq = sq_snoc(sq, self.term(st, e))
                t = e.ty if t is None else join_ty(t, e.ty)
            return PList(z3.IntVal(len(els)), at, sq, t or ANY)
        k = unopt(sv.ty)
        if k[0] == 'list':
            r = getr(sv.t)
            return PList(st.comps['L.n'][r], st.comps['L.at'][r], st.comps['L.sq'][r], k[1])
        if k[0] in ('seq', 'tup'):
            m = gett(sv.t)
            i = z3.Int('i!l')
            at = z3.Lambda([i], tat(m, i))
            ety = k[1] if k[0] == 'seq' else ANY
            return PList(tn(m), at, None, ety)
        return None

    def store_list(self, st, sv, pl):
        sv = self.resolve_priv(st, sv)
        if sv.st and sv.st[0] == 'priv':
            st.priv[sv.st[1]] = pl
            return
        r = getr(sv.t)
        self.hwrite(st, 'L.n', r, pl.n)
        self.hwrite(st, 'L.at', r, pl.at)
        if pl.sq is not None:
            self.hwrite(st, 'L.sq', r, pl.sq)
        else:
            self.hwrite(st, 'L.sq', r, self.fresh('sq', SQ))
        self.touch(st)

    def load_dict(self, st, sv, wf=True):
        sv = self.resolve_priv(st, sv)
        if sv.st and sv.st[0] == 'priv':
            c = st.priv[sv.st[1]]
            return c if isinstance(c, PDict) else None
        if sv.st and sv.st[0] == 'snap':
            return sv.st[1] if isinstance(sv.st[1], PDict) else None
        k = unopt(sv.ty)
        if k[0] in ('dict', 'set'):
            r = getr(sv.t)
            c = st.comps
            d = PDict(c['D.n'][r], c['D.key'][r], c['D.has'][r], c['D.val'][r], c['D.pos'][r], k[1],
                      k[2] if k[0] == 'dict' else NONET)
        elif k[0] in ('map', 'fset'):
            m = getm(sv.t)
            i, x = z3.Int('i!l'), z3.Const('x!l', V)
            d = PDict(mn(m), z3.Lambda([i], mkey(m, i)), z3.Lambda([x], mhas(m, x)), z3.Lambda([x], mval(m, x)),
                      z3.Lambda([x], mpos(m, x)), k[1], k[2] if k[0] == 'map' else NONET)
            if wf:
                self.once(st, ('mwf', m.get_id()), self.map_wf(m))
            return d
        else:
            return None
        if wf:
            f = self.dict_wf(d)
            self.once(st, ('dwf', d.key.get_id(), d.has.get_id()), f)
        return d

    def once(self, st, key, fact):
        key = ('once',) + key
        if key not in st.extra:
            st.extra[key] = fact          # keeps the term alive, so the id stays unique
            st.add(fact)

    def store_dict(self, st, sv, d):
        sv = self.resolve_priv(st, sv)
        d = self.named_dict(st, d)
        if sv.st and sv.st[0] == 'priv':
            st.priv[sv.st[1]] = d
            return
        r = getr(sv.t)
        for c, v in (('D.n', d.n), ('D.key', d.key), ('D.has', d.has), ('D.val', d.val), ('D.pos', d.pos)):
            self.hwrite(st, c, r, v)
        self.touch(st)

    def dget(self, d, k):
        return z3.simplify(d.has[k]) if z3.is_quantifier(d.has) else d.has[k]

    def dict_has(self, d, k):
        return z3.simplify(z3.Select(d.has, k)) if z3.is_quantifier(d.has) else z3.Select(d.has, k)

    def dict_val(self, d, k):
        return z3.simplify(z3.Select(d.val, k)) if z3.is_quantifier(d.val) else z3.Select(d.val, k)

    def dict_set(self, d, k, v, kty, vty):
        has = self.dict_has(d, k)
        return PDict(If(has, d.n, d.n + 1), If(has, d.key, z3.Store(d.key, d.n, k)), z3.Store(d.has, k, TRUE),
                     z3.Store(d.val, k, v), If(has, d.pos, z3.Store(d.pos, k, d.n)),
                     kty if z3.is_int_value(d.n) and d.n.as_long() == 0 else join_ty(d.kty, kty),
                     vty if z3.is_int_value(d.n) and d.n.as_long() == 0 else join_ty(d.vty, vty))

    def dict_del(self, st, d, k):
        """Removes k if present, keeping the order of the others."""
        has = self.dict_has(d, k)
        p = z3.Select(d.pos, k)
        key2, pos2 = self.fresh('dk', AIV), self.fresh('dp', z3.ArraySort(V, I))
        n2 = If(has, d.n - 1, d.n)
        i, x = z3.Int('i!d'), z3.Const('x!d', V)
        has2 = z3.Store(d.has, k, FALSE)
        st.add(ForAll([i], key2[i] == If(And(has, i >= p), d.key[i + 1], d.key[i]), patterns=[key2[i]]))
        st.add(ForAll([x], Implies(has2[x], pos2[x] == If(And(has, d.pos[x] > p), d.pos[x] - 1, d.pos[x])),
                         patterns=[pos2[x]]))
        # instances relating the old order to the new one
        st.add(ForAll([x], Implies(has2[x], And(pos2[x] >= 0, pos2[x] < n2, key2[pos2[x]] == x)),
                         patterns=[has2[x]]))
        d2 = PDict(n2, key2, has2, d.val, pos2, d.kty, d.vty)
        return d2

    def escape(self, st, sv, want=None):
        """Gives a private container an identity on the heap (or freezes it when an immutable is wanted)."""
        sv = self.resolve_priv(st, sv)
        if not (sv.st and sv.st[0] == 'priv'):
            return sv
        pid = sv.st[1]
        c = st.priv[pid]
        w = unopt(want)[0] if want else None
        if isinstance(c, PList):
            c = self.named_list(st, c)
            if w == 'seq':
                return self.freeze_list(st, c)
            r = self.alloc(st, KIND['list'])
            res = SV(V.ref(r), ty('list', unopt(want)[1] if w == 'list' else c.ety))
            st.add(st.comps['L.n'][r] == c.n, st.comps['L.at'][r] == c.at)
            if c.ety[0] == 'inst' and self.family(c.ety[1]) == 'XmlElement' and not (z3.is_int_value(c.n) and c.n.as_long() == 0):
                self.ref_members(st, c)
            if c.sq is not None:
                st.add(st.comps['L.sq'][r] == c.sq)
            st.add(c.n >= 0)
        else:
            c = self.named_dict(st, c)
            if w in ('map', 'fset'):
                return self.freeze_dict(st, c, sv.st[2] if w == 'map' else 'set')
            r = self.alloc(st, KIND['dict'])
            res = SV(V.ref(r), ty('dict', c.kty, c.vty) if sv.st[2] == 'dict' else ty('set', c.kty))
            if w == 'dict':
                res.ty = unopt(want)
            st.add(st.comps['D.n'][r] == c.n, st.comps['D.key'][r] == c.key, st.comps['D.has'][r] == c.has,
                   st.comps['D.val'][r] == c.val, st.comps['D.pos'][r] == c.pos)
        st.esc[pid] = res
        return res

    def ref_members(self, st, pl):
        """Ghost: the members of a list of elements are referenced from the heap from now on."""
        old, new = st.comps['G.ref'], self.fresh('G.ref', COMPS['G.ref'])
        w = z3.Function(self.fresh('wref', I).decl().name(), I, I)
        i, r = z3.Int('i!rm'), z3.Int('r!rm')
        at = z3.Select(pl.at, i)
        st.add(ForAll([i], Implies(And(i >= 0, i < pl.n), new[getr(at)]), patterns=[at]))
        st.add(ForAll([r], And(Implies(old[r], new[r]), Implies(new[r], Or(old[r], And(
            w(r) >= 0, w(r) < pl.n, z3.Select(pl.at, w(r)) == V.ref(r))))), patterns=[new[r]]))
        st.comps['G.ref'] = new

    def freeze_list(self, st, pl):
        m = self.fresh('tup', I)
        i = z3.Int('i!f')
        st.add(tn(m) == pl.n, pl.n >= 0)
        st.add(ForAll([i], Implies(And(i >= 0, i < pl.n), tat(m, i) == z3.Select(pl.at, i)), patterns=[tat(m, i)]))
        return SV(V.tup(m), ty('seq', pl.ety))

    def freeze_dict(self, st, d, kind='dict'):
        m = self.fresh('map', I)
        i, x = z3.Int('i!f'), z3.Const('x!f', V)
        st.add(mn(m) == d.n)
        st.add(ForAll([i], mkey(m, i) == z3.Select(d.key, i), patterns=[mkey(m, i)]))
        st.add(ForAll([x], And(mhas(m, x) == z3.Select(d.has, x), mpos(m, x) == z3.Select(d.pos, x),
                                  mval(m, x) == z3.Select(d.val, x)), patterns=[mhas(m, x)]))
        st.add(ForAll([x], mval(m, x) == z3.Select(d.val, x), patterns=[mval(m, x)]))
        return SV(V.map(m), ty('map', d.kty, d.vty) if kind == 'dict' else ty('fset', d.kty))

    # ---------------------------------------------------------------- terms of static values
    def term(self, st, sv):
        sv = self.resolve_priv(st, sv)
        if sv.t is not None:
            return sv.t
        k = sv.st[0]
        if k == 'tuple':
            els = [self.term(st, e) for e in sv.st[1]]
            return self.mk_tuple(st, els)
        if k == 'priv':
            return self.escape(st, sv).t
        if k in ('class', 'ext', 'func', 'mod', 'lambda'):
            key = {'class': lambda: ('cls', self.alias_of(sv.st[1])), 'ext': lambda: ('ext', sv.st[1]),
                   'func': lambda: ('func', sv.st[1].key), 'mod': lambda: ('mod', sv.st[1].name),
                   'lambda': lambda: ('lambda', id(sv.st[1]))}[k]()
            return V.sym(z3.IntVal(self.lits.sym(key)))
        if k == 'classof':
            return V.sym(clsof(getr(self.term(st, sv.st[1]))))
        if k == 'record':
            return self.escape_record(st, sv)
        raise OOS(f'value of kind {k} has no term')

    def mk_tuple(self, st, els):
        key = ('tuple',) + tuple(e.get_id() for e in els)
        if key in st.extra:
            return st.extra[key][0]
        if len(els) == 0:
            m = z3.Const('tup_empty', I)
        else:
            m = z3.Const('tup_empty', I)
            for e in els:
                m = self.tsnoc(st, m, e)
        st.add(tn(m) == len(els))
        for i, e in enumerate(els):
            st.add(tat(m, z3.IntVal(i)) == e)
        st.extra[key] = (V.tup(m), els)
        return V.tup(m)

    def tsnoc(self, st, m, e):
        """Identity of the tuple m + (e,)."""
        f = self.ufunc('tsnoc', I, V, I)
        inv1, inv2 = self.ufunc('tinit', I, I), self.ufunc('tlast', I, V)
        r = f(m, e)
        i = z3.Int('i!t')
        key = ('tsnoc', r.get_id())
        if key not in st.extra:
            st.extra[key] = r
            st.add(tn(z3.Const('tup_empty', I)) == 0)
            st.add(tn(r) == tn(m) + 1, inv1(r) == m, inv2(r) == e, tat(r, tn(m)) == e, tn(m) >= 0)
            st.add(ForAll([i], Implies(And(i >= 0, i < tn(m)), tat(r, i) == tat(m, i)), patterns=[tat(r, i)]))
        return r

    def tcons(self, st, e, m):
        f = self.ufunc('tcons', V, I, I)
        r = f(e, m)
        i = z3.Int('i!t')
        key = ('tcons', r.get_id())
        if key not in st.extra:
            st.extra[key] = r
            st.add(tn(r) == tn(m) + 1, tat(r, z3.IntVal(0)) == e, tn(m) >= 0)
            st.add(ForAll([i], Implies(And(i >= 0, i < tn(m)), tat(r, i + 1) == tat(m, i)), patterns=[tat(m, i)]))
            st.add(ForAll([i], Implies(And(i >= 1, i < tn(r)), tat(r, i) == tat(m, i - 1)), patterns=[tat(r, i)]))
        return r

    def static_tuple(self, sv):
        return sv.st[1] if sv.st and sv.st[0] == 'tuple' else None

    # ---------------------------------------------------------------- truth, equality
    def truth(self, st, sv):
        sv = self.resolve_priv(st, sv)
        if sv.st:
            k = sv.st[0]
            if k == 'const':
                return z3.BoolVal(bool(sv.st[1]))
            if k == 'tuple':
                return z3.BoolVal(len(sv.st[1]) > 0)
            if k == 'priv':
                return st.priv[sv.st[1]].n > 0
            if k == 'snap':
                return sv.st[1].n > 0
            if k in ('class', 'func', 'ext', 'mod', 'lambda'):
                return TRUE
            if k == 'record':
                return z3.BoolVal(len(sv.st[1]) > 0)
        return self.truth_t(st, sv.t, sv.ty)

    def truth_t(self, st, t, ty_):
        k = ty_[0]
        if k == 'none':
            return FALSE
        if k == 'bool':
            return getb(t)
        if k == 'int':
            return geti(t) != 0
        if k == 'str':
            return gets(t) != self.lits.lit('')
        if k == 'opt':
            return And(Not(V.is_none(t)), self.truth_t(st, t, ty_[1]))
        if k == 'list':
            return st.comps['L.n'][getr(t)] > 0
        if k in ('dict', 'set'):
            return st.comps['D.n'][getr(t)] > 0
        if k in ('seq', 'tup'):
            return tn(gett(t)) > 0
        if k in ('map', 'fset'):
            return mn(getm(t)) > 0
        if k == 'inst':
            en = self.reg.enums.get(ty_[1])
            if en:
                return geti(t) != 0 if en[0] == 'int' else gets(t) != self.lits.lit('')
            return TRUE
        u = self.ufunc('truthy', V, B)
        return If(V.is_none(t), FALSE, If(V.is_bool(t), getb(t), If(V.is_int(t), geti(t) != 0, If(
            V.is_str(t), gets(t) != self.lits.lit(''), If(V.is_map(t), mn(getm(t)) > 0, If(V.is_tup(t), tn(gett(t)) > 0, u(t)))))))

    def eq(self, st, a, b, code=False):
        """Equality. In contracts it is identity of abstract values; in code (code=True) an operand that may be an arbitrary object
        (a float, a Decimal, ...) compares as that object pleases."""
        a, b = self.resolve_priv(st, a), self.resolve_priv(st, b)
        ta, tb = self.static_tuple(a), self.static_tuple(b)
        if ta is not None and tb is not None:
            if len(ta) != len(tb):
                return FALSE
            return And(*[self.eq(st, x, y, code) for x, y in zip(ta, tb)])
        if (ta is not None) != (tb is not None):
            s, o = (ta, b) if ta is not None else (tb, a)
            if o.t is not None and (unopt(o.ty)[0] in ('seq', 'tup', 'any')):
                m = gett(o.t)
                return And(V.is_tup(o.t), tn(m) == len(s),
                           *[self.eq(st, x, SV(tat(m, z3.IntVal(i)), ANY), code) for i, x in enumerate(s)])
        if a.st and b.st and a.st[0] == 'const' and b.st[0] == 'const':
            return z3.BoolVal(type(a.st[1]) is type(b.st[1]) and a.st[1] == b.st[1])
        for x, y in ((a, b), (b, a)):
            if x.st and x.st[0] == 'priv' and not (y.st and y.st[0] == 'priv'):
                raise OOS('comparison of containers')
        x, y = self.term(st, a), self.term(st, b)
        if a.ty == INT and b.ty == INT:
            return geti(x) == geti(y)
        if a.ty == BOOL and b.ty == BOOL:
            return getb(x) == getb(y)
        if code and unopt(a.ty) == ANY or code and unopt(b.ty) == ANY:
            num = lambda t: If(V.is_bool(t), If(getb(t), z3.IntVal(1), z3.IntVal(0)), geti(t))
            isn = lambda t: Or(V.is_bool(t), V.is_int(t))
            return If(Or(V.is_other(x), V.is_other(y)), self.ufunc('eqv', V, V, B)(x, y), If(And(isn(x), isn(y)), num(x) == num(y), x == y))
        return x == y

    def is_none(self, st, sv):
        sv = self.resolve_priv(st, sv)
        if sv.st and sv.st[0] != 'const':
            return FALSE
        if sv.st and sv.st[0] == 'const':
            return z3.BoolVal(sv.st[1] is None)
        if sv.ty[0] not in ('opt', 'any', 'none', 'union'):
            return FALSE
        return V.is_none(sv.t)

    # ---------------------------------------------------------------- numbers, lengths
    def intt(self, sv):
        if sv.t is None:
            raise OOS('integer expected')
        return geti(sv.t)

    def length(self, st, sv):
        sv = self.resolve_priv(st, sv)
        ts = self.static_tuple(sv)
        if ts is not None:
            return z3.IntVal(len(ts))
        if sv.st and sv.st[0] == 'priv':
            return st.priv[sv.st[1]].n
        if sv.st and sv.st[0] == 'snap':
            return sv.st[1].n
        if sv.st and sv.st[0] == 'record':
            return z3.IntVal(len(sv.st[1]))
        k = unopt(sv.ty)
        if k[0] == 'list':
            return st.comps['L.n'][getr(sv.t)]
        if k[0] in ('dict', 'set'):
            return st.comps['D.n'][getr(sv.t)]
        if k[0] in ('seq', 'tup'):
            return tn(gett(sv.t))
        if k[0] in ('map', 'fset'):
            return mn(getm(sv.t))
        if k[0] == 'str':
            return self.ufunc('slen', S, I)(gets(sv.t))
        if k[0] == 'any':
            t = sv.t
            return self.ufunc('anylen', V, I)(t)
        raise OOS(f'len of {sv!r}')

    def at(self, st, pl, i):
        t = z3.Select(pl.at, i)
        return z3.simplify(t) if z3.is_quantifier(pl.at) else t

    # ---------------------------------------------------------------- strings
    def mkstr(self, st, pieces):
        """Canonical concatenation of literal / S pieces: right-nested, adjacent literals joined."""
        out = []
        names = {c.decl().name(): k for k, c in self.lits.strs.items()}

        def flat(p):
            if isinstance(p, str):
                return [p]
            if z3.is_app(p) and p.num_args() == 0 and p.decl().name() in names:
                return [names[p.decl().name()]]
            if z3.is_app(p) and p.decl().eq(cat):
                return flat(p.arg(0)) + flat(p.arg(1))
            return [p]
        for p in [q for p in pieces for q in flat(p)]:
            if isinstance(p, str):
                if p == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        if not out:
            return self.lit('')
        if len(out) == 1 and isinstance(out[0], str):
            return self.lit(out[0])
        ts = [self.lits.lit(p) if isinstance(p, str) else p for p in out]
        r = ts[-1]
        for t in reversed(ts[:-1]):
            r = cat(t, r)
        if len(out) > 1 and any(isinstance(p, str) for p in out):
            st.add(r != self.lits.lit(''))        # contains a non-empty literal
        return SV(V.str(r), STR)

    def strof(self, st, sv):
        """str(value) as a piece."""
        if sv.st and sv.st[0] == 'const' and isinstance(sv.st[1], str):
            return sv.st[1]
        if sv.st and sv.st[0] == 'const' and isinstance(sv.st[1], (int, bool)):
            return str(sv.st[1])
        if sv.ty == STR:
            return gets(sv.t)
        t = self.term(st, sv)
        low = self.ufunc('str.lower', S, S)
        self.once(st, ('strbool',), And(*[And(tostr(V.bool(z3.BoolVal(b))) == self.lits.lit(str(b)), low(self.lits.lit(str(b))) == self.lits.lit(
            str(b).lower())) for b in (True, False)]))
        return If(V.is_str(t), gets(t), tostr(t))

    # ---------------------------------------------------------------- classes
    def alias_of(self, ci):
        a = self.reg.alias_by_key.get(ci.key)
        if a is None:
            a = ci.key
            self.reg.alias_by_key[ci.key] = a
            self.reg.schema.setdefault(a, {'kind': 'frozen', 'fields': {}, 'family': a, 'cls': ci.key})
            if a not in self.reg.families:
                self.reg.families.append(a)
        return a

    def classinfo(self, alias):
        e = self.reg.schema.get(alias)
        if not e or not e.get('cls'):
            return None
        return self.prog.get(e['cls'])

    def field_type(self, alias, name):
        """-> (kind, type) or None, looking through repository ancestors and declared parents."""
        seen, todo = set(), [alias]
        while todo:
            a = todo.pop(0)
            if a in seen:
                continue
            seen.add(a)
            e = self.reg.schema.get(a)
            if not e:
                continue
            if name in e['fields']:
                return e['kind'], self.norm_type(e['fields'][name])
            if e.get('parent'):
                todo.append(e['parent'])
            ci = self.classinfo(a)
            if ci:
                todo += [self.alias_of(c) for c in self.prog.mro(ci)[1:]]
        return None

    # ---------------------------------------------------------------- element invariants
    def lwf(self, st, e):
        """Local well-formedness of the element object e (a reference term)."""
        c = st.comps
        EL, STT = self.kind_of_alias('XmlElement'), self.kind_of_alias('State')
        s = getr(c['f:_state'][e])
        l = getr(c['f:elements'][s])
        idx = c['f:next_element_idx'][s]
        at_, tx, tl = c['f:attrib'][s], c['f:text'][s], c['f:tail'][s]
        i = z3.Int('i!c')
        ch = c['L.at'][l][i]
        return And(
            V.is_ref(c['f:_state'][e]), s >= 0, s < st.al, kindof(s) == STT, c['G.owner'][s] == e,
            V.is_ref(c['f:elements'][s]), l >= 0, l < st.al, kindof(l) == KIND['list'], c['G.owner'][l] == s,
            V.is_int(idx), geti(idx) >= 0, geti(idx) <= c['L.n'][l], c['L.n'][l] >= 0,
            Or(V.is_none(tx), V.is_str(tx)), Or(V.is_none(tl), V.is_str(tl)),
            Or(V.is_none(at_), And(V.is_ref(at_), getr(at_) >= 0, getr(at_) < st.al, kindof(getr(at_)) == KIND['dict'],
                                   c['G.owner'][getr(at_)] == s)),
            ForAll([i], Implies(And(i >= 0, i < c['L.n'][l]), And(
                V.is_ref(ch), getr(ch) >= 0, getr(ch) < st.al, kindof(getr(ch)) == EL, Not(c['G.dead'][getr(ch)]),
                c['G.ref'][getr(ch)])),
                patterns=[ch]))

    def is_alive(self, st, r):
        return And(r >= 0, r < st.al, kindof(r) == self.kind_of_alias('XmlElement'), Not(st.comps['G.dead'][r]))

    def WF(self, st):
        e = z3.Int('e!wf')
        return ForAll([e], Implies(self.is_alive(st, e), self.lwf(st, e)), patterns=[st.comps['f:_state'][e]])

    def wf_key(self, st):
        return tuple(st.comps[n].get_id() for n in sorted(st.comps)) + (st.al.get_id(),)

    def owned_state(self, st, s):
        c = st.comps
        e = c['G.owner'][s]
        return And(self.is_alive(st, e), c['f:_state'][e] == V.ref(s))
