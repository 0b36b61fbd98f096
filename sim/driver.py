"""Command line: run a check, replay a file, prove determinism.

  driver.py check C01 [--tier quick|thorough] [--seed N] [--runs N]
  driver.py replay FILE
  driver.py selftest [C01 ...] [--runs N]
"""
import argparse
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from sim import core  # noqa
from sim.core import rng_for, stable_hash  # noqa

PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
if not os.path.exists(PY):
    PY = sys.executable
TMP = None


def zyg_env(env):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=str(env.get('hashseed', 0)), OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
             MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', VERIF_PYC=os.path.join(TMP, 'pyc'),
             MPLBACKEND='Agg', LANG='C.UTF-8', PYTHONWARNINGS='ignore')
    for k in ('PYTHONPYCACHEPREFIX', 'SYMPY_USE_CACHE', 'SYMPY_CACHE_SIZE', 'PYTHONPATH', 'PYTHONSTARTUP'):
        e.pop(k, None)
    c = env.get('cache', 'default')
    if c == 'off':
        e['SYMPY_USE_CACHE'] = 'no'
    elif c != 'default':
        e['SYMPY_CACHE_SIZE'] = str(c)
    return e


class Zygote:
    def __init__(self, env):
        self.env = env
        self.key = json.dumps(env, sort_keys=True)
        self.p = subprocess.Popen([PY, '-X', 'frozen_modules=on', '-m', 'sim.zygote'], cwd=VERIF,
                                  env=zyg_env(env), stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        line = self.p.stdout.readline()
        msg = json.loads(line) if line else {'ready': False, 'msg': 'zygote died'}
        if not msg['ready']:
            raise ImportError(msg['msg'])

    def run(self, check, case, timeout):
        self.p.stdin.write(json.dumps({'check': check, 'case': case, 'timeout': timeout}) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {'status': 'error', 'msg': 'zygote died'}
        return json.loads(line)

    def stop(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:  # noqa
            self.p.kill()
            self.p.wait()


class Farm:
    """Runs many cases on at most `slots` zygotes; results in case order."""

    def __init__(self, slots=None):
        self.slots = slots or int(os.environ.get('VERIF_SLOTS', '0')) or min(8, os.cpu_count() or 1)

    def run(self, check, cases, timeout, deadline=None, stop_on=None):
        groups = {}
        for i, c in enumerate(cases):
            groups.setdefault(json.dumps(c.get('env', {}), sort_keys=True), []).append(i)
        q = queue.Queue()
        per = max(1, len(cases) // (self.slots * 3))
        chunks = []
        for key, idx in groups.items():
            for k in range(0, len(idx), max(per, 1)):
                chunks.append((key, idx[k:k + per]))
        chunks.sort(key=lambda ch: ch[1][0])
        lock = threading.Lock()
        results = [None] * len(cases)
        errs = []
        stop = threading.Event()

        def take(key):
            with lock:
                for n, ch in enumerate(chunks):
                    if ch[0] == key:
                        return chunks.pop(n)
                return chunks.pop(0) if chunks else None

        def slot():
            z = None
            key = None
            try:
                while not stop.is_set():
                    ch = take(key)
                    if ch is None:
                        break
                    if ch[0] != key:
                        if z:
                            z.stop()
                        key = ch[0]
                        z = Zygote(json.loads(key))
                    for i in ch[1]:
                        if stop.is_set() or (deadline and time.monotonic() > deadline):
                            stop.set()
                            break
                        t = timeout
                        if deadline:
                            t = min(t, max(5, deadline - time.monotonic() + 20))
                        r = z.run(check, cases[i], t)
                        results[i] = r
                        if stop_on and stop_on(r):
                            stop.set()
                        if r.get('msg') == 'zygote died':
                            z.stop()
                            z = Zygote(json.loads(key))
            except ImportError as e:
                errs.append(str(e))
                stop.set()
            except Exception as e:  # noqa
                import traceback
                errs.append(traceback.format_exc())
                stop.set()
            finally:
                if z:
                    z.stop()
        ths = [threading.Thread(target=slot) for _ in range(min(self.slots, max(1, len(chunks))))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errs:
            raise RuntimeError(errs[0])
        return results


def load(check):
    return importlib.import_module('checks.' + check.lower())


def make_cases(mod, check, seed, tier, n):
    cases = []
    for k in range(n):
        rng = rng_for(check, seed, k)
        c = mod.gen_case(rng, tier, k)
        c['seed'] = stable_hash(check, seed, k, 'run') % (1 << 53)
        c['run'] = k
        c.setdefault('env', {'hashseed': 0, 'cache': 'default'})
        cases.append(c)
    return cases


HASHSEEDS = 6


def one(check, case, timeout=300):
    z = Zygote(case['env'])
    try:
        return z.run(check, case, timeout)
    finally:
        z.stop()


def minimise(check, mod, case, res, budget_s, log):
    """Greedy: take the first smaller case that fails the same way; repeat."""
    if res.get('concrete'):
        conc = dict(case)
        conc.update(res['concrete'])
    else:
        conc = case
    cls = res['cls']
    t0 = time.monotonic()
    zs = {}

    def attempt(c):
        key = json.dumps(c['env'], sort_keys=True)
        if key not in zs:
            zs[key] = Zygote(c['env'])
        return zs[key].run(check, c, 90)
    best, bres = case, res
    tries = 0
    try:
        if conc is not case:
            r = attempt(conc)
            if r['status'] == 'violation' and r['cls'] == cls:
                best, bres = conc, r
        if not hasattr(mod, 'shrink'):
            return best, bres, tries
        improved = True
        seen = {json.dumps(best, sort_keys=True)}
        while improved and time.monotonic() - t0 < budget_s:
            improved = False
            for cand in mod.shrink(best):
                k = json.dumps(cand, sort_keys=True)
                if k in seen:
                    continue
                seen.add(k)
                if time.monotonic() - t0 > budget_s:
                    break
                tries += 1
                r = attempt(cand)
                if r['status'] == 'violation' and r['cls'] == cls:
                    best, bres = cand, r
                    improved = True
                    break
    finally:
        for z in zs.values():
            z.stop()
    return best, bres, tries


def load_known():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def cmd_check(check, tier, seed, runs=None, minim=True):
    t0 = time.monotonic()
    mod = load(check)
    cfg = mod.TIERS[tier]
    n = runs or cfg['runs']
    cap = cfg.get('wall', 600)
    print(f'check {check} tier={tier} VERIF_SEED={seed} runs={n}', flush=True)
    cases = make_cases(mod, check, seed, tier, n)
    farm = Farm()
    timeout = cfg.get('timeout', 120)
    bad = lambda r: r['status'] != 'ok'  # noqa
    # known findings are recognised by the check itself (mod.known)
    known = [k for k in load_known() if k.get('property') == check and k.get('status') == 'open']
    is_known = getattr(mod, 'known', lambda case, res, k: False)

    def stop_on(r):
        return r['status'] in ('violation',) and not known
    try:
        results = farm.run(check, cases, timeout, t0 + cap, stop_on)
    except RuntimeError as e:
        print('HARNESS-ERROR', str(e)[-3000:])
        return 2
    wall_search = time.monotonic() - t0
    done = [(c, r) for c, r in zip(cases, results) if r is not None]
    viol = [(c, r) for c, r in done if r['status'] == 'violation']
    errs = [(c, r) for c, r in done if r['status'] in ('error', 'timeout')]
    hit_known = {}
    new = []
    for c, r in viol:
        for k in known:
            if is_known(c, r, k):
                hit_known[k['id']] = k
                break
        else:
            new.append((c, r))
    for k in known:
        print(f"KNOWN-FINDING: property={check} {k['what']}" + ('' if k['id'] in hit_known else ' (not met in this run)'))
    replay = None
    rc = 0
    if new:
        c, r = min(new, key=lambda cr: cr[0]['run'])
        print(f"violation in run {c['run']} seed={c['seed']}: {r['cls']}: {r['msg'][:600]}", flush=True)
        b, br, tries = (c, r, 0)
        if minim:
            b, br, tries = minimise(check, mod, c, r, float(os.environ.get('VERIF_MIN_S', '60')), print)
        # replay in a fresh process
        rr = one(check, b)
        same = rr['status'] == 'violation' and rr['cls'] == br['cls'] and rr['digest'] == br['digest']
        if not same:
            b, br = c, r
            rr = one(check, b)
            same = rr['status'] == 'violation' and rr['cls'] == br['cls'] and rr['digest'] == br['digest']
        d = os.path.join(VERIF, 'out', 'replays')
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, f'{check}-{seed}-{c["run"]}.json')
        with open(replay, 'w') as f:
            json.dump({'property': check, 'verif_seed': seed, 'tier': tier, 'run': c['run'], 'case': b,
                       'class': br['cls'], 'message': br['msg'], 'digest': br['digest'], 'trace': br['trace'],
                       'original_case': c, 'minimisation_attempts': tries,
                       'reproduced_in_fresh_process': same}, f, indent=1, sort_keys=True)
        if same:
            print(f"minimised after {tries} attempts: {br['cls']}: {br['msg'][:600]}")
            print(f'VIOLATION property={check} replay={replay}', flush=True)
            rc = 1
        else:
            print(f'HARNESS-ERROR the violation did not replay exactly ({rr["status"]} {rr.get("cls")})')
            rc = 2
    elif errs:
        c, r = errs[0]
        print(f"HARNESS-ERROR in run {c['run']} seed={c['seed']} ({len(errs)} in all): {r['status']}: {r['msg']}")
        print(json.dumps(c)[:2000])
        rc = 2
    elif len(done) < cfg.get('min_runs', max(1, n // 4)):
        print(f'HARNESS-ERROR only {len(done)} of {n} runs were made within {cap} s')
        rc = 2
    write_evidence(check, mod, tier, seed, cases, done, new, known, wall_search, time.monotonic() - t0)
    ok = sum(1 for _, r in done if r['status'] == 'ok')
    print(f'{check}: {len(done)} runs, {ok} held, {len(viol)} violated, {len(errs)} errors, '
          f'{time.monotonic() - t0:.1f} s', flush=True)
    return rc


def write_evidence(check, mod, tier, seed, cases, done, new, known, wall_search, wall):
    stats = {}
    for _, r in done:
        for k, v in r.get('stats', {}).items():
            stats[k] = stats.get(k, 0) + v
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault.')}
    probes = {k: v for k, v in sorted(stats.items()) if not k.startswith('fault.')}
    keys = set()
    for c, r in done:
        if r.get('nontrivial', True) and 'digest' in r:
            keys.add((r['digest'], r['sched']))
    samples = []
    for c, r in done[:40]:
        if r.get('status') == 'ok' and r.get('nontrivial', True) and len(samples) < 3:
            s = {k: v for k, v in c.items()}
            samples.append({'case': s, 'events': r.get('nevents'), 'sim_points': r.get('points'),
                            'trace_tail': (r.get('trace') or [])[-12:]})
    if not samples and done:
        samples = [{'case': done[0][0]}]
    cov = {
        'evaluations': len(done),
        'distinct_nontrivial': len(keys),
        'rule': mod.RULE,
        'samples': samples,
        'runs_per_hour': int(3600 * len(done) / max(wall_search, 1e-6)),
        'seeds_per_hour': int(3600 * len({c['seed'] for c, _ in done}) / max(wall_search, 1e-6)),
        'simulated_time': {'sim_points': sum(r.get('points', 0) for _, r in done),
                           'pool_clock_units': round(sum(r.get('simtime', 0) for _, r in done), 3),
                           'note': 'sim_points: source lines of the code under test executed under the scheduler; '
                                   'pool_clock_units: discrete-event time of simulated workers'},
        'faults_injected': faults,
        'probes': probes,
        'distinct_schedules': len({r['sched'] for _, r in done if 'sched' in r}),
        'distinct_histories': len({r['digest'] for _, r in done if 'digest' in r}),
        'environments': sorted({json.dumps(c['env'], sort_keys=True) for c, _ in done}),
        'real_components': mod.REAL,
        'stub_components': mod.STUB,
        'planned_runs': len(cases),
    }
    ev = {'property': check, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': len(new),
          'known_findings': [k['id'] for k in known]}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f'.{check}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    os.replace(tmp, os.path.join(d, f'{check}.json'))


def cmd_replay(path):
    rep = json.load(open(path))
    r = one(rep['property'], rep['case'])
    same = r['status'] == 'violation' and r.get('cls') == rep['class'] and r.get('digest') == rep['digest']
    print(json.dumps({k: r.get(k) for k in ('status', 'cls', 'msg', 'digest')}, indent=1))
    for line in r.get('trace', []):
        print('  ', line)
    if r['status'] == 'violation':
        print('reproduced exactly' if same else 'violated, but not identically')
        print(f"VIOLATION property={rep['property']} replay={os.path.abspath(path)}")
        return 1
    if r['status'] == 'ok':
        print('the property held on this replay')
        return 0
    return 2


def cmd_selftest(checks, runs, seed):
    """Every case twice, in other processes and at another worker count."""
    bad = 0
    for check in checks:
        mod = load(check)
        cases = make_cases(mod, check, seed, 'quick', runs)
        t0 = time.monotonic()
        a = Farm(8).run(check, cases, 300)
        b = Farm(3).run(check, list(cases), 300)
        diff = 0
        for c, x, y in zip(cases, a, b):
            if (x['status'], x.get('digest'), x.get('sched'), x.get('points')) != \
                    (y['status'], y.get('digest'), y.get('sched'), y.get('points')):
                diff += 1
                print(f'{check} run {c["run"]} DIFFERS: {x["status"]} {x.get("digest")} {x.get("points")} / '
                      f'{y["status"]} {y.get("digest")} {y.get("points")}')
                for p, q in zip(x.get('trace', []), y.get('trace', [])):
                    if p != q:
                        print('   ', p[:200], '\n   ', q[:200])
                        break
        st = {}
        for x in a:
            st[x['status']] = st.get(x['status'], 0) + 1
        print(f'{check}: {runs} cases twice, {diff} differ, {st}, {time.monotonic() - t0:.0f} s', flush=True)
        bad += diff
    return 1 if bad else 0


def main():
    global TMP
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    c = sub.add_parser('check')
    c.add_argument('id')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    c.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    c.add_argument('--runs', type=int)
    c.add_argument('--no-min', action='store_true')
    r = sub.add_parser('replay')
    r.add_argument('file')
    s = sub.add_parser('selftest')
    s.add_argument('ids', nargs='*')
    s.add_argument('--runs', type=int, default=40)
    s.add_argument('--seed', type=int, default=1)
    a = ap.parse_args()
    TMP = tempfile.mkdtemp(prefix='verif-sim-')
    try:
        if a.cmd == 'check':
            return cmd_check(a.id, a.tier, a.seed, a.runs, not a.no_min)
        if a.cmd == 'replay':
            return cmd_replay(a.file)
        ids = a.ids or [f'C{k:02d}' for k in range(1, 21)]
        return cmd_selftest(ids, a.runs, a.seed)
    finally:
        shutil.rmtree(TMP, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
