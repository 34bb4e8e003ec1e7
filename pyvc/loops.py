"""Loops: modified-set discovery, inductive invariant inference (Houdini over generic facts and contract templates)."""
import ast
import itertools
import re
import z3
from .terms import *
from .state import *
from .engine import Exc, KIND, Obligation
from .calls import Calls
from .symex import Out, NEXT, Iter


class Cand:
    __slots__ = ('name', 'f', 'user', 'sure')

    def __init__(self, name, f, user=False, sure=False):
        self.name, self.f, self.user, self.sure = name, f, user, sure


class Loops(Calls):

    def loop(self, node, st, it):
        info = {'comps': set(), 'env': {}, 'priv': set(), 'ops': {}, 'unknown': set()}
        self.quiet += 1
        try:
            for _ in range(8):
                pre_esc = self.discover(node, st, it, info)
                if pre_esc == 'again':
                    continue
                if pre_esc is None:
                    break
                for pid in pre_esc:
                    for n, v in list(st.env.items()):
                        if v is not None and v.st and v.st[0] == 'priv' and v.st[1] == pid:
                            self.escape(st, v)
                            break
                    else:
                        raise OOS('container escapes inside the loop')
            else:
                raise OOS('loop effects do not stabilise', node)
            cands = self.candidates(node, st, it, info)
            H, K = self.head(st, it, info)
            self.cur_pre = st
            cands = [c for c in cands if self.holds(st, c, z3.IntVal(0), st)]
            while True:
                h2, K = self.head(st, it, info)
                for c in list(cands):
                    try:
                        h2.add(c.f(h2, K, st))
                    except OOS:
                        if not c.user:
                            raise
                        cands.remove(c)  # not meaningful for this variable
                if any(c.name == 'WF' for c in cands):
                    h2.extra['wf'], h2.extra['wfal'] = self.wf_key(h2), h2.al
                base = h2.copy()
                backs, _ = self.body(node, h2, it, K)
                keep = []
                for c in cands:
                    ok = True
                    for b in backs:
                        if not self.holds(b, c, K + 1, st):
                            ok = False
                            break
                    if ok:
                        keep.append(c)
                if len(keep) == len(cands):
                    break
                cands = keep
        finally:
            self.quiet -= 1
        if not self.quiet:
            for c in cands:
                o = Obligation(f'{self.where(st)}: loop invariant holds on entry and is preserved: {c.name}', [], TRUE, 'loop')
                o.status = 'proved'
                self.obls.append(o)
        H, K = self.head(st, it, info)
        for c in cands:
            H.add(c.f(H, K, st))
        if any(c.name == 'WF' for c in cands):
            H.extra['wf'], H.extra['wfal'] = self.wf_key(H), H.al
        H.extra['Ks'] = st.extra.get('Ks', ()) + (K,)
        backs, outs = self.body(node, H, it, K)
        res = []
        for s, o in outs:
            s.extra['Ks'] = st.extra.get('Ks', ())
            if o.k == 'exit':
                res += self.exec(node.orelse, s) if node.orelse else [(s, NEXT)]
            elif o.k == 'break':
                res.append((s, NEXT))
            else:
                res.append((s, o))
        return res

    def where(self, st):
        return f"{st.extra['fn'].qual}:{st.extra.get('line', 0)}"

    def holds(self, st, c, K, pre):
        try:
            g = c.f(st, K, pre)
        except OOS:
            if c.user:
                return False
            raise
        return self.prove(st, g, self.RL_LOOP * (4 if c.sure else 1), cvc=c.user)  # stated invariants deserve more effort than guesses

    # ------------------------------------------------------------------ one iteration
    def body(self, node, H, it, K):
        """Runs one iteration from the head state; -> (back edge states, [(state, outcome)])."""
        H.extra['Ks'] = (H.extra.get('Ks', ()) + (K,)) if not (H.extra.get('Ks') and H.extra['Ks'][-1] is K) else H.extra['Ks']
        line = H.extra.get('line')
        for f in getattr(self, 'ghost_defs', ()):
            H.add(z3.substitute_vars(f, K))     # the definition at this iteration
        backs, outs = [], []
        if isinstance(node, ast.For):
            n = it.n(H)
            if n is not None:
                a, b = self.split(H, K < n)
                if b is not None:
                    b = b.copy() if b is a else b
                    outs.append((b, Out('exit')))
                enter = a
            else:
                enter = H.copy()
            if enter is None:
                return backs, outs
            starts = self.assign(node.target, it.at(enter, K), enter)
        else:
            starts = []
            for s, v in self.ev(node.test, H.copy()):
                if isinstance(v, Exc):
                    outs.append((s, Out('raise', v)))
                    continue
                a, b = self.split(s, self.truth(s, v))
                if b is not None:
                    outs.append((b, Out('exit')))
                if a is not None:
                    starts.append((a, None))
        for s, v in starts:
            if isinstance(v, Exc):
                outs.append((s, Out('raise', v)))
                continue
            for s2, o in self.exec(node.body, s):
                if o.k in ('next', 'continue'):
                    backs.append(s2)
                else:
                    outs.append((s2, o))
        return backs, outs

    # ------------------------------------------------------------------ head state
    def head(self, st, it, info):
        H = st.copy()
        K = self.fresh('K', I)
        H.add(K >= 0)
        if it is not None and it.n(st) is not None and not info.get('n_live'):
            n = it.n(st)
            H.add(Implies(n >= 0, K <= n))
        if info['comps'] or info.get('al'):
            al = self.fresh('al', I)
            H.add(al >= st.al)
            H.al = al
        for c in sorted(info['comps']):
            H.comps[c] = self.fresh('lp' + c, COMPS[c])
        if info['comps']:
            self.touch(H)
            H.extra.pop('wf', None)
        for pid in sorted(info['priv']):
            H.priv[pid] = self.havoc_priv(H, st.priv[pid])
        for n, kind in sorted(info['env'].items()):
            if kind[0] == 'unknown':
                H.env[n] = None
            elif kind[0] == 'priv':
                c = kind[1]
                H.env[n] = self.put_priv(H, self.havoc_priv(H, c), kind[2])
            else:
                H.env[n] = self.fresh_value(H, kind[1], n)
                a = self.live_arg(H, H.env[n], kind[1])
                if a is not None and kind[2]:
                    H.add(a)
        for op, cols in sorted(info['ops'].items()):
            n = self.fresh('n.' + op, I)
            H.add(n >= st.tr.count(op))
            H.tr.n[op] = n
            j = z3.Int('j!tr')
            for col, sort in sorted(cols.items()):
                arr = self.fresh(f'ev.{op}.{col}', sort)
                old = st.tr.cols.get((op, col))
                if old is not None:
                    H.add(ForAll([j], Implies(And(j >= 0, j < st.tr.count(op)), arr[j] == old[j]), patterns=[arr[j]]))
                H.tr.cols[(op, col)] = arr
        return H, K

    def havoc_priv(self, H, c):
        if isinstance(c, PList):
            n = self.fresh('ln', I)
            H.add(n >= 0)
            return PList(n, self.fresh('lat', AIV), self.fresh('lsq', SQ) if c.sq is not None else None, c.ety)
        d = PDict(self.fresh('dn', I), self.fresh('dk', AIV), self.fresh('dh', z3.ArraySort(V, B)),
                  self.fresh('dv', z3.ArraySort(V, V)), self.fresh('dp', z3.ArraySort(V, I)), c.kty, c.vty)
        H.add(self.dict_wf(d))
        return d

    # ------------------------------------------------------------------ discovery
    def discover(self, node, st, it, info):
        """One pass; returns None when nothing new was found, 'again', or a set of container ids to escape first."""
        H, K = self.head(st, it, info)
        h0 = H.copy()
        backs, outs = self.body(node, H, it, K)
        again = False
        esc = set()
        for b in backs:
            for pid in b.esc:
                if pid in st.priv and pid not in st.esc:
                    esc.add(pid)
        if esc:
            return esc
        for b in backs:
            for c in COMPS:
                if c not in info['comps'] and not b.comps[c].eq(h0.comps[c]):
                    info['comps'].add(c)
                    again = True
            if b.al is not h0.al and not info.get('al'):
                info['al'] = True
                again = True
            for pid in st.priv:
                if pid in st.esc:
                    continue
                x, y = b.priv.get(pid), h0.priv.get(pid)
                if x is not y:
                    nt = self.join_content(st.priv[pid], x)
                    if pid not in info['priv']:
                        info['priv'].add(pid)
                        again = True
                    if nt:
                        st.priv[pid] = nt
                        again = True
                    cur = st.priv[pid]
            for op in b.tr.n:
                new = {col: arr.sort() for (o, col), arr in b.tr.cols.items() if o == op}
                if b.tr.count(op) is not h0.tr.count(op) and not b.tr.count(op).eq(h0.tr.count(op)):
                    if info['ops'].get(op, {}).keys() != new.keys():
                        info['ops'].setdefault(op, {}).update(new)
                        again = True
            for n, v in b.env.items():
                if n not in h0.env:
                    continue
                if v is h0.env[n]:
                    continue
                if self.env_change(st, b, h0, n, v, info):
                    again = True
            if any(k[0] == 'ctor' and k in st.extra and b.extra.get(k) != st.extra[k] for k in list(b.extra) if isinstance(k, tuple)):
                raise OOS('constructor fields assigned in a loop', node)
        if it is not None and it.n is not None and backs and not info.get('n_live') and it.n(h0) is not None:
            for b in backs:
                if not it.n(b).eq(it.n(h0)):
                    info['n_live'] = True
                    again = True
                    break
        return 'again' if again else None

    def join_content(self, c, x):
        """Widened element types of a container modified in the loop (None when unchanged)."""
        if isinstance(c, PList):
            e = x.ety if z3.is_int_value(c.n) and c.n.as_long() == 0 and c.ety == ANY and not getattr(self, '_', 0) else join_ty(c.ety, x.ety)
            if z3.is_int_value(c.n) and c.n.as_long() == 0 and c.ety == ANY:
                e = x.ety
                if e == ANY:
                    return None
            if e != c.ety:
                return PList(c.n, c.at, c.sq, e)
            return None
        empty = z3.is_int_value(c.n) and c.n.as_long() == 0
        k = x.kty if empty and c.kty == ANY else join_ty(c.kty, x.kty)
        v = x.vty if empty and c.vty == ANY else join_ty(c.vty, x.vty)
        if (k, v) != (c.kty, c.vty):
            return PDict(c.n, c.key, c.has, c.val, c.pos, k, v)
        return None

    def env_change(self, st, b, h0, n, v, info):
        """Local n has another value at the back edge. Returns True when the abstraction changed."""
        cur = info['env'].get(n)
        if cur is not None and cur[0] == 'unknown':
            return False
        ev = st.env.get(n)
        if ev is None:
            info['env'][n] = ('unknown',)
            return cur is None
        v = self.resolve_priv(b, v)
        e = self.resolve_priv(st, ev)
        pe, pv = e.st and e.st[0] == 'priv', v.st and v.st[0] == 'priv'
        if pe and pv:
            if e.st[1] == v.st[1]:
                return False
            cc = st.priv[e.st[1]]
            xc = b.priv[v.st[1]]
            if type(cc) is not type(xc):
                raise OOS('loop variable of varying container kind')
            j = self.join_content(cur[1] if cur else cc, xc) or (cur[1] if cur else cc)
            new = ('priv', j, e.st[2])
            if cur is None or (cur[1] is not j):
                info['env'][n] = new
                return True
            return False
        if pe or pv:
            info['env'][n] = ('unknown',)
            return True
        try:
            te, tv = self.ty_of(st, e), self.ty_of(b, v)
            self.term(st.copy(), e), self.term(b.copy(), v)
        except OOS:
            info['env'][n] = ('unknown',)
            return True
        if cur is None and v.t is not None and e.t is not None and v.t.eq(e.t):
            return False
        j = join_ty(cur[1] if cur else te, tv)
        alive = self.live_here(st, e) and self.live_here(b, v)
        new = ('val', j, alive and (cur is None or cur[2]))
        if cur != new:
            info['env'][n] = new
            return True
        return False

    def live_here(self, s, v):
        if v.ty == NONET:
            return True
        a = self.live_arg(s, v, v.ty)
        return a is not None and self.prove(s, a)

    # ------------------------------------------------------------------ candidates
    def candidates(self, node, st, it, info):
        cs = []
        r = z3.Int('r!lc')
        al0 = st.extra.get('al0')
        entry = self.target_entry
        for c in sorted(info['comps'] if not self.light else ()):
            if c == 'G.dead' or c == 'G.owner' or True:
                cs.append(Cand(f'{c} unchanged', lambda s, K, p, c=c: s.comps[c] == p.comps[c]))
                cs.append(Cand(f'{c} unchanged for objects existing before the loop', lambda s, K, p, c=c: ForAll(
                    [r], Implies(And(r >= 0, r < p.al), s.comps[c][r] == p.comps[c][r]), patterns=[s.comps[c][r]])))
                if al0 is not None:
                    cs.append(Cand(f'{c} unchanged for objects existing before the call', lambda s, K, p, c=c: ForAll(
                        [r], Implies(And(r >= 0, r < al0), s.comps[c][r] == p.comps[c][r]), patterns=[s.comps[c][r]])))
                    t = self.target
                    if t is not None and isinstance(t.modifies, list) and entry is not None:
                        cs.append(Cand(f'{c} framed', lambda s, K, p, c=c: self.frame_goal(s, c)))
        if (info['comps'] or info.get('al')) and not self.light:
            if st.extra.get('wf') == self.wf_key(st) or (self.target is not None and self.target.tree):
                cs.append(Cand('WF', lambda s, K, p: self.WF(s)))
            if al0 is not None:
                cs.append(Cand('closed', lambda s, K, p: self.closed(s, al0)))
        if info.get('n_live'):
            cs.append(Cand('K <= n', lambda s, K, p: K <= it.n(s)))
        for n, kind in sorted(info['env'].items()):
            if kind[0] == 'val':
                if kind[1] == INT:
                    cs.append(Cand(f'{n} == {n}0 + K', lambda s, K, p, n=n: geti(s.env[n].t) == geti(p.env[n].t) + K))
                    cs.append(Cand(f'{n} >= {n}0', lambda s, K, p, n=n: geti(s.env[n].t) >= geti(p.env[n].t)))
                cs.append(Cand(f'{n} unchanged', lambda s, K, p, n=n: self.term(s, s.env[n]) == self.term(p, p.env[n])))
            elif kind[0] == 'priv' and isinstance(kind[1], PList):
                cs += self.list_cands(n, lambda s, n=n: self.load_list(s, s.env[n]), info)
        for pid in sorted(info['priv']):
            nm = next((k for k, v in st.env.items() if v is not None and v.st and v.st[0] == 'priv' and v.st[1] == pid), f'#{pid}')
            if isinstance(st.priv[pid], PList):
                cs += self.list_cands(nm, lambda s, pid=pid: s.priv[pid], info)
            else:
                cs.append(Cand(f'len({nm}) == K', lambda s, K, p, pid=pid: s.priv[pid].n == p.priv[pid].n + K))
                cs.append(Cand(f'len({nm}) <= K', lambda s, K, p, pid=pid: s.priv[pid].n <= p.priv[pid].n + K))
        for op in sorted(info['ops']):
            cs.append(Cand(f'{op} calls == K', lambda s, K, p, op=op: s.tr.count(op) == p.tr.count(op) + K))
            cs.append(Cand(f'{op} calls <= K', lambda s, K, p, op=op: s.tr.count(op) <= p.tr.count(op) + K))
            cs.append(Cand(f'no {op} call raised', lambda s, K, p, op=op: self.none_raised(s, op)))
        # contract templates
        if self.target is not None:
            for tpl in self.target.invs:
                cs += self.instantiate(tpl, st, info)
        return cs

    def none_raised(self, s, op):
        arr = s.tr.cols.get((op, 'raised'))
        j = z3.Int('j!nr')
        if arr is None:
            return TRUE
        return ForAll([j], Implies(And(j >= 0, j < s.tr.count(op)), Not(arr[j])), patterns=[arr[j]])

    def list_cands(self, n, get, info):
        jj = z3.Int('j!lt')

        def members(s, f):
            pl = get(s)
            x = z3.Select(pl.at, jj)
            return ForAll([jj], Implies(And(jj >= 0, jj < pl.n), f(pl, x)), patterns=[x])
        ty0 = []
        for nm, f in (('well typed', lambda s: lambda pl, x: self.typeinv(s, x, pl.ety)),
                      ('live', lambda s: lambda pl, x: self.live_arg(s, SV(x, pl.ety), pl.ety)),
                      ('new', lambda s: lambda pl, x: getr(x) >= s.extra['al0'])):
            def cand(s, K, p, f=f, nm=nm):
                e = get(s).ety
                if nm != 'well typed' and (e[0] != 'inst' or self.family(e[1]) != 'XmlElement'):
                    return TRUE
                return members(s, f(s))
            ty0.append(Cand(f'members of {n} are {nm}', cand, sure=nm == 'well typed'))
        out = ty0 + [Cand(f'len({n}) == len0 + K', lambda s, K, p: get(s).n == get(p).n + K),
               Cand(f'len({n}) <= len0 + K', lambda s, K, p: And(get(s).n <= get(p).n + K, get(s).n >= get(p).n))]
        j = z3.Int('j!lc')
        for op in info['ops']:
            out.append(Cand(f'len({n}) == {op} calls', lambda s, K, p, op=op: get(s).n == s.tr.count(op)))
            if (info['ops'][op]).get('ret') is not None:
                out.append(Cand(f'{n}[j] == result of {op} call j', lambda s, K, p, op=op: TRUE if (op, 'ret') not in s.tr.cols else ForAll(
                    [j], Implies(And(j >= 0, j < get(s).n), z3.Select(get(s).at, j) == s.tr.cols[(op, 'ret')][j]))))
        return out

    HOLE = re.compile(r'\b_([LDSIV])(\d?)\b')

    def instantiate(self, tpl, st, info):
        if tpl.startswith('@'):  # meant for loops nested this deep
            depth, tpl = tpl[1:].split(' ', 1)
            if int(depth) != len(st.extra.get('Ks', ())):
                return []
        holes = sorted(set(m.group(0) for m in self.HOLE.finditer(tpl)))
        pools = []
        for h in holes:
            kind = h[1]
            pool = []
            want = self.target.holes.get(h)
            want = want and self.norm_type(want)
            for n, v in st.env.items():
                if v is None or info['env'].get(n, ('x',))[0] == 'unknown':
                    continue
                v = self.resolve_priv(st, v)
                if kind == 'L' and ((v.st and v.st[0] == 'priv' and v.st[2] == 'list')):
                    pool.append(n)
                elif kind == 'D' and ((v.st and v.st[0] == 'priv' and v.st[2] in ('dict', 'set')) or unopt(v.ty)[0] == 'dict'):
                    if want is None or want[0] == (v.st[2] if v.st and v.st[0] == 'priv' else 'dict'):
                        pool.append(n)
                elif kind == 'I' and (v.ty == INT or info['env'].get(n, ('', None))[1:2] == (INT,)) and n in info['env']:
                    pool.append(n)
                elif kind == 'V' and n in info['env'] and (want is None or unopt((info['env'][n][1:2] or (ANY,))[0]) == want):
                    pool.append(n)
                elif kind == 'S' and (unopt(v.ty)[0] == 'inst'):
                    pool.append(n)
            pools.append(pool)
        out = []
        for combo in itertools.product(*pools):
            if len(set(combo)) != len(combo):
                continue
            m = dict(zip(holes, combo))
            name = self.HOLE.sub(lambda x: m[x.group(0)], tpl)

            def f(s, K, p, m=m):
                names = dict(self.target_env)
                for h, n in m.items():
                    v = s.env[n]
                    if v is None:
                        raise OOS('unknown local')
                    names[h] = v
                ks = p.extra.get('Ks', ())
                names['K'] = self.intv(K)
                for i, k in enumerate(ks):
                    names[f'K{i}'] = self.intv(k)
                return self.spec(tpl, s, names, self.target_entry)
            out.append(Cand(name, f, user=True, sure=not holes))
        return out
