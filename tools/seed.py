"""Make and confirm planted bugs in scratch copies:  python3 tools/seed.py specs.py [id...]
specs.py defines SEEDS = [dict(id, property, edits=[(file, old, new)...], needs, what, demo)].  Writes /verif/seeded/<id>/."""
import json, os, re, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
specs = runpy.run_path(sys.argv[1])['SEEDS']
only = sys.argv[2:]
W = '/tmp/seedwork'


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', **env),
                          capture_output=True, text=True)


def tests(cwd):
    out = set()
    for std in ('false', 'true'):
        r = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors tests -x --maxfail=10', cwd,
               FORCE_STD_XML=std, PYTHONPATH=cwd)
        out |= {std + l for l in r.stdout.splitlines() if l.startswith(('FAILED', 'ERROR'))}
        if 'passed' not in r.stdout:
            out.add('no run ' + r.stdout[-300:])
    return out


for s in specs:
    if only and s['id'] not in only:
        continue
    d = f"{W}/{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    ok = True
    for f, old, new in s['edits']:
        p = os.path.join(d, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(s['id'], 'pattern count', t.count(old), 'in', f); ok = False; break
        open(p, 'w').write(t.replace(old, new))
    if not ok:
        shutil.rmtree(d); continue
    diff = sh('git diff', d).stdout
    bad = tests(d)
    sd = os.path.join(HERE, 'seeded', s['id'])
    tmp = d + '.demo'
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(tmp + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(tmp + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = the repository\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
        'for std in %s; do FORCE_STD_XML=$std timeout 120 /opt/venv/bin/python "$here/demo.py" || exit 1; done\n' % s.get('backends', 'false true'))
    r0 = sh(f'bash {tmp}/demo.sh', '/repo')
    r1 = sh(f'bash {tmp}/demo.sh', d)
    verdict = not bad and r0.returncode == 0 and r1.returncode != 0
    print(s['id'], s['property'], 'OK' if verdict else 'REJECTED', '' if verdict else f'tests={sorted(bad)[:4]} clean={r0.returncode} {r0.stderr[-400:]} patched={r1.returncode}', r1.stderr.strip().splitlines()[-1:] )
    if verdict:
        os.makedirs(sd, exist_ok=True)
        open(sd + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(f'{tmp}/{f}', sd)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(sd + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d); shutil.rmtree(tmp)
