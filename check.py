#!/usr/bin/env python3-vt
"""Decide one property:  python3-vt check.py Cxx [--tier quick|thorough] [--root /repo]

1. every function under a contract tagged with the property is re-extracted from the working tree and all its proof
   obligations are generated and discharged again (pyvc + z3), function by function, in parallel;
2. structural side conditions of the extraction are checked;
3. the real code is executed on the property's scenario suite (both xml back ends): this is the replay / witness
   search for failed obligations and the labelled bounded stand-in for what is out of the verifier's reach.

Exit 0: held.  Exit 1: a line `VIOLATION property=... replay=...`."""
import argparse, json, multiprocessing as mp, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

PY = '/opt/venv/bin/python'
FN_LIMIT = {'quick': 420, 'thorough': 600}
SC_LIMIT = {'quick': 150, 'thorough': 480}


def worker(key, root, conn):
    import traceback
    try:
        from pyvc.source import Program
        from pyvc.registry import Registry
        from pyvc.verify import Verifier
        import contracts.load as L
        R = Registry()
        L.load(R)
        v = Verifier(Program(root), R)
        r = v.verify(key)
        conn.send({'key': key, 'oos': r.oos, 'paths': r.paths, 'time': r.time, 'queries': r.queries,
                   'obls': [{'name': o.name, 'kind': o.kind, 'status': o.status, 'detail': o.detail, 'time': round(o.time, 3), 'backend': getattr(o, 'backend', None) or 'z3',
                             'reason': getattr(o, 'reason', '') or '', 'model': (getattr(o, 'model', None) or '')[:4000]} for o in r.obls],
                   'smt_time': v.stats.get('time', 0.0)})
    except Exception as e:   # a failure of the verifier itself is never a verdict about the code
        conn.send({'key': key, 'oos': f'verifier error: {type(e).__name__}: {e}', 'trace': traceback.format_exc()[-1500:],
                   'paths': 0, 'time': 0.0, 'queries': 0, 'obls': [], 'smt_time': 0.0})
    conn.close()


def prove(keys, root, limit, jobs=8):
    """Verify every key, `jobs` at a time, each within `limit` seconds."""
    todo, live, out = list(keys), {}, {}
    while todo or live:
        while todo and len(live) < jobs:
            k = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=worker, args=(k, root, b))
            p.start()
            b.close()
            live[k] = (p, a, time.time())
        for k, (p, a, t0) in list(live.items()):
            if a.poll(0.02):
                try:
                    out[k] = a.recv()
                except EOFError:
                    out[k] = dead(k, 'verifier process ended')
                p.join(5)
                del live[k]
            elif not p.is_alive():
                out[k] = dead(k, 'verifier process ended')
                del live[k]
            elif time.time() - t0 > limit:
                p.kill()
                p.join()
                out[k] = dead(k, f'time limit of {limit} s')
                del live[k]
    return [out[k] for k in keys]


def dead(k, why):
    return {'key': k, 'oos': why, 'paths': 0, 'time': 0.0, 'queries': 0, 'obls': [], 'smt_time': 0.0}


def start_scenarios(prop, tier, seed, root, only=None):
    procs = []
    for backend in ('lxml', 'std'):
        env = dict(os.environ, FORCE_STD_XML='true' if backend == 'std' else 'false', PYTHONPATH=root + ':' + HERE,
                   PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', VERIF_BACKEND=backend)
        cmd = [PY, '-m', 'scenarios.run', prop, '--tier', tier, '--seed', str(seed)] + (['--case', only] if only else [])
        procs.append((backend, subprocess.Popen(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    return procs


def finish_scenarios(procs, limit):
    res, t0 = {}, time.time()
    for backend, p in procs:
        try:
            out, err = p.communicate(timeout=max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            err += f'\n(stopped after {limit} s)'
        r = {'evaluations': 0, 'failures': [], 'samples': [], 'groups': {}, 'complete': False, 'last': None}
        for line in out.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m['t'] == 'fail':
                r['failures'].append(m)
            elif m['t'] == 'case':
                r['last'] = m['case']
            elif m['t'] == 'end':
                r.update(evaluations=m['evaluations'], samples=m['samples'], groups=m['groups'], complete=True)
        if not r['complete']:
            r['stderr'] = err[-2000:]
        res[backend] = r
    return res


def known_findings(prop):
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--no-proof', action='store_true')
    a = ap.parse_args()
    prop, tier, root = a.prop, a.tier if a.tier in FN_LIMIT else 'quick', a.root
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()

    from pyvc.registry import Registry
    import contracts.load as L
    R = Registry()
    L.load(R)
    keys = [k for k, c in R.contracts.items() if prop in c.props and not c.trusted and not c.inline]
    keys.sort(key=lambda k: -R.contracts[k].cost)
    sc = start_scenarios(prop, tier, seed, root)
    results = [] if a.no_proof else prove(keys, root, FN_LIMIT[tier])
    from contracts import structure
    struct = [s for s in structure.check(root) if prop in s['props'] or s['props'] == '*']
    scen = finish_scenarios(sc, SC_LIMIT[tier])

    # ---------------------------------------------------------------- verdict
    known = known_findings(prop)
    kcases = {k['case']: k for k in known}
    shown, bad, incomplete = set(), [], []
    for backend, r in scen.items():
        if not r['complete']:
            incomplete.append(f'{backend}: {r.get("stderr", "")[-300:]}')
        for f in r['failures']:
            k = kcases.get(f['case'])
            if k is not None:
                shown.add(k['id'])
            else:
                bad.append({'backend': backend, **f})
    failed = [(r, o) for r in results for o in r['obls'] if o['status'] != 'proved']
    obls = sum(len(r['obls']) for r in results)
    proved = sum(1 for r in results for o in r['obls'] if o['status'] == 'proved')
    oos = {r['key']: r['oos'] for r in results if r['oos']}

    if failed and not bad and tier == 'quick':
        # an obligation failed: look for a failing input of the real code with the deeper exploration
        deep = finish_scenarios(start_scenarios(prop, 'thorough', seed, root), 240)
        for backend, r in deep.items():
            bad += [{'backend': backend, **f} for f in r['failures'] if f['case'] not in kcases]

    rdir = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, f'{prop}.json')
    if os.path.exists(rpath):
        os.remove(rpath)
    violation = None
    fo = [{'function': r['key'], **o} for r, o in failed]
    if bad:
        f = bad[0]
        replay = {'property': prop, 'kind': 'input', 'backend': f['backend'], 'case': f['case'], 'tier': tier, 'seed': seed,
                  'observed': f['msg'], 'more': [x['case'] for x in bad[1:20]], 'failed_obligations': fo[:20],
                  'replay_cmd': f'cd {HERE} && {PY} replay.py {rpath}'}
        violation = f'VIOLATION property={prop} replay={rpath}'
    elif failed:
        replay = {'property': prop, 'kind': 'obligation', 'failed_obligations': fo[:40],
                  'structure': struct, 'replay_cmd': f'cd {HERE} && python3-vt check.py {prop}'}
        violation = f'VIOLATION property={prop} replay={rpath} no-failing-input-found'
    elif any(s['status'] == 'failed' for s in struct):
        # the code left the shape the extraction relies on: nothing is proved about it, the bounded part still stands
        pass

    solver = round(sum(r['smt_time'] for r in results), 1)
    fully = [r for r in results if not r['oos'] and r['obls'] and all(o['status'] == 'proved' for o in r['obls'])]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': MANIFEST_LEVEL(prop),
        'coverage': {
            'obligations': obls, 'discharged': proved,
            'checker_cmd': f'python3-vt check.py {prop} --tier {tier}',
            'trusted_base': L.trusted(R, prop),
            'back_end': 'pyvc (own VC generator over the Python AST) + z3 ' + z3v() + '; cvc5 (its `unsat` only) for what z3 leaves unknown',
            'discharged_by': {b: sum(1 for r in results for o in r['obls'] if o['status'] == 'proved' and o.get('backend') == b) for b in ('z3', 'cvc5')},
            'solver_seconds': solver,
            'functions_under_contract': {r['key']: {'obligations': len(r['obls']), 'discharged': sum(o['status'] == 'proved' for o in r['obls']),
                                                    'paths': r['paths'], 'seconds': round(r['time'], 1), **({'not_verified': r['oos']} if r['oos'] else {})}
                                         for r in results},
            'functions_proved': len(fully),
            'out_of_reach_this_run': oos,
            'structure': [{'check': s['name'], 'status': s['status'], 'detail': s.get('detail', '')} for s in struct],
            'bounded_stand_in': {'label': 'bounded: executions of the real code against an independent oracle; never counted as proved',
                                 'evaluations': sum(r['evaluations'] for r in scen.values()),
                                 'groups': {b: r['groups'] for b, r in scen.items()},
                                 'incomplete': incomplete},
            'evaluations': sum(r['evaluations'] for r in scen.values()),
            'distinct_nontrivial': max([r['evaluations'] for r in scen.values()] + [0]),
            'rule': 'bounded part only: one evaluation = one named scenario of scenarios/%s.py run on one xml back end; distinct = distinct scenario names on one back end' % prop.lower(),
            'samples': scen['lxml']['samples'][:5],
        },
        'assumptions': L.assumptions(R, prop),
        'wall_s': round(time.time() - t0, 1),
        'violations': 1 if violation else 0,
    }
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k['id'] in shown:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f'{prop}: {len(fully)}/{len(results)} functions proved, {proved}/{obls} obligations discharged, '
          f"{ev['coverage']['evaluations']} bounded evaluations, {ev['wall_s']} s")
    for k, why in oos.items():
        print(f'  not verified this run: {k}: {why[:300]}')
    for s in struct:
        if s['status'] == 'failed':
            print(f"  structure: {s['name']}: {s.get('detail', '')[:300]}")
    for i in incomplete:
        print('  scenarios incomplete:', i[-300:])
    if violation:
        with open(rpath, 'w') as f:
            json.dump(replay, f, indent=1)
        if bad:
            print(f"  failing input: [{bad[0]['backend']}] {bad[0]['case']}: {bad[0]['msg'][:600]}")
        for x in fo[:8]:
            print(f"  failed obligation: {x['function']}: {x['name']} ({x['status']}) {x['detail'][-160:]}")
        print(violation)
        return 1
    return 0


def z3v():
    import z3
    return z3.get_version_string()


def MANIFEST_LEVEL(prop):
    with open(os.path.join(HERE, 'MANIFEST.json')) as f:
        for c in json.load(f)['checks']:
            if c['property'] == prop:
                return c['level']
    return 'proof'


if __name__ == '__main__':
    sys.exit(main())
