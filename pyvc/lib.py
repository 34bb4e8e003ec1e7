"""Models of the standard library functions the verified code calls (assumed; each states the documented behaviour)."""
import z3
from .terms import *
from .state import *
from .engine import Exc


def chain_map(vx, st, args, kw):
    """collections.ChainMap(*maps) as a value: a key is present when some map has it, the first such map wins."""
    if len(args) == 1 and args[0].st and args[0].st[0] == 'stararg':
        return chain_dyn(vx, st, args[0].st[1])
    ds = [vx.load_dict(st, a) if not (a.st and a.st[0] == 'record') else vx.load_dict(st, vx.escape_rec(st, a)) for a in args]
    if any(d is None for d in ds):
        raise OOS('ChainMap arguments')
    has, val = vx.fresh('cmh', z3.ArraySort(V, B)), vx.fresh('cmv', z3.ArraySort(V, V))
    x = z3.Const('x!cm', V)
    hs = [vx.dget(d, x) for d in ds]
    st.add(ForAll([x], has[x] == Or(*hs), patterns=[has[x]]))
    v = vx.sel(ds[-1].val, x) if ds else NONE
    for d, h in reversed(list(zip(ds[:-1], hs[:-1]))):
        v = If(h, vx.sel(d.val, x), v)
    st.add(ForAll([x], val[x] == v, patterns=[val[x]]))
    return done(vx, st, has, val, ds[0].kty if ds else ANY, ds[0].vty if ds else ANY)


def done(vx, st, has, val, kty, vty):
    key, pos, n = vx.fresh('cmk', AIV), vx.fresh('cmp', z3.ArraySort(V, I)), vx.fresh('cmn', I)
    d = PDict(n, key, has, val, pos, kty, vty)
    st.add(n >= 0)
    st.add(vx.dict_wf(d))
    return [(st, vx.freeze_dict(st, d))]


def chain_dyn(vx, st, src):
    outs = vx.bi_list(st, [src], {})
    if len(outs) != 1:
        raise OOS('ChainMap arguments')
    st, l = outs[0]
    pl = vx.load_list(st, l)
    t = unopt(pl.ety)
    if t[0] != 'map':
        raise OOS('ChainMap arguments')
    has, val = vx.fresh('cmh', z3.ArraySort(V, B)), vx.fresh('cmv', z3.ArraySort(V, V))
    w = z3.Function(vx.fresh('cmw', I).decl().name(), V, I)
    x, i = z3.Const('x!cm', V), z3.Int('i!cm')
    m = z3.Int('m!cm')
    st.add(ForAll([m, x], Implies(mhas(m, x), mn(m) > 0), patterns=[mhas(m, x)]))
    at = lambda j: getm(z3.Select(pl.at, j))
    st.add(ForAll([x], Implies(has[x], And(w(x) >= 0, w(x) < pl.n, mhas(at(w(x)), x), val[x] == mval(at(w(x)), x))), patterns=[has[x]]))
    st.add(ForAll([x, i], Implies(And(i >= 0, i < pl.n, mhas(at(i), x)), And(has[x], w(x) <= i)), patterns=[mhas(at(i), x)]))
    outs = done(vx, st, has, val, t[1], t[2])
    d = outs[0][1]
    k0 = mkey(getm(d.t), 0) if d.t is not None else None
    st.add(ForAll([i], Implies(And(i >= 0, i < pl.n, mn(at(i)) > 0), mhas(at(i), mkey(at(i), 0))), patterns=[z3.Select(pl.at, i)]))
    if k0 is not None:
        st.add(Implies(mn(getm(d.t)) > 0, has[k0]))
    return outs


def dc_replace(vx, st, args, kw):
    o = vx.resolve_priv(st, args[0])
    ci = vx.classinfo(unopt(o.ty)[1])
    if ci is None or not ci.is_dataclass or '**' in kw:
        raise OOS('dataclasses.replace')
    vals = {}
    for n in vx.dataclass_fields(ci):
        vals[n] = kw[n] if n in kw else vx.inst_attr(st, SV(o.t, unopt(o.ty)), n)
    if set(kw) - set(vals):
        raise OOS('dataclasses.replace: unknown field')
    return vx.construct(st, ci, [], vals)


URI = '({(.*)})?(.*)'


def re_match(vx, st, args, kw):
    """re.match of an uri: always matches; its groups 3 and 2 are called local_name and ns_name of the uri."""
    if len(args) != 2 or kw or not (args[0].st and args[0].st[0] == 'const' and args[0].st[1] == URI):
        raise OOS('re.match with another pattern')
    u = vx.term(st, args[1])
    tag, ns = vx.ufunc('G:local_name', V, V)(u), vx.ufunc('G:ns_name', V, V)(u)
    st.add(V.is_str(tag))
    st.add(Or(V.is_none(ns), V.is_str(ns)))
    g1 = SV(vx.fresh('grp', V), ANY)
    return [(st, SV(None, ANY, ('tuple', [args[1], g1, SV(ns, ty('opt', STR)), SV(tag, STR)])))]


def register(R):
    R.ext_handlers['re.match'] = re_match
    R.ghosts['local_name'] = {'sig': ['V', 'V'], 'ret': 'Str'}
    R.ghosts['ns_name'] = {'sig': ['V', 'V'], 'ret': 'Opt[Str]'}
    R.ext_handlers['collections.ChainMap'] = chain_map
    R.ext_handlers['dataclasses.replace'] = dc_replace
    R.assumptions.append('standard library semantics as modelled in pyvc/lib.py: collections.ChainMap, dataclasses.replace, re.match of the uri pattern (always matches; local_name / ns_name are its groups)')
