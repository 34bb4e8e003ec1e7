"""Run one recorded scenario again:  /opt/venv/bin/python replay.py evidence/replays/Cxx.json"""
import json, os, subprocess, sys
r = json.load(open(sys.argv[1]))
here = os.path.dirname(os.path.abspath(__file__))
if r['kind'] != 'input':
    print(json.dumps(r['failed_obligations'], indent=1)); sys.exit(0)
env = dict(os.environ, FORCE_STD_XML='true' if r['backend'] == 'std' else 'false', PYTHONPATH='/repo:' + here,
           PYTHONHASHSEED='0', VERIF_BACKEND=r['backend'])
sys.exit(subprocess.call([sys.executable, '-m', 'scenarios.run', r['property'], '--case', r['case'], '--tier', r['tier'],
                          '--seed', str(r['seed'])], cwd=here, env=env))
