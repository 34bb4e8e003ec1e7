"""Run the scenario suite of one property on the real code (one back end per process); prints JSON lines."""
import argparse, importlib, json, random, resource, signal, sys, time, traceback, warnings
warnings.simplefilter('ignore')


class Hang(Exception):
    pass


def alarm(*_):
    raise Hang('no result within the time limit')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--case')
    a = ap.parse_args()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGALRM, alarm)
    mod = importlib.import_module('scenarios.' + a.prop.lower())
    n, groups, samples, fails, t0 = 0, {}, [], 0, time.time()

    def say(**m):
        sys.stdout.write(json.dumps(m, default=str) + '\n')
        sys.stdout.flush()
    budget = 100 if a.tier == 'quick' else 220
    try:
        for name, fn in mod.cases(random.Random(a.seed), a.tier):
            if a.case is not None and name != a.case:
                continue
            n += 1
            g = name.split('/')[0]
            groups[g] = groups.get(g, 0) + 1
            signal.alarm(20)
            try:
                fn()
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                signal.alarm(0)
                fails += 1
                tb = traceback.format_exc().strip().splitlines()
                say(t='fail', case=name, msg=f'{type(e).__name__}: {e}'[:1500], trace=tb[-6:])
                if fails >= 25 or isinstance(e, Hang) and fails >= 3:
                    break
            signal.alarm(0)
            if len(samples) < 5 and n % 7 == 1:
                samples.append(name)
            if time.time() - t0 > budget:
                break
    except (ImportError, AttributeError):
        raise      # an internal entry point moved: the suite is incomplete, which is not a verdict
    except Exception:
        # making the scenarios themselves failed: report it as a failure of the scenario generator's subject
        say(t='fail', case='(building the scenarios)', msg=traceback.format_exc()[-1500:], trace=[])
    say(t='end', evaluations=n, groups=groups, samples=samples)
    return 1 if fails else 0


if __name__ == '__main__':
    sys.exit(main())
