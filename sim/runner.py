"""
The deciding step: seeded search over cases. Generates the cases of a property from VERIF_SEED, runs them in the
workers, minimises the first violation, writes its replay file, checks that the replay reproduces it in a fresh
process, and writes the evidence.
"""
import copy
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
SHARDS = 8
BUILD = os.path.join(HERE, 'build')
SHIM = os.path.join(BUILD, 'simshim.so')
REPLAYS = os.path.join(HERE, 'out', 'replays')
KNOWN = os.path.join(HERE, 'known_findings.jsonl')


def build_shim():
    src = os.path.join(HERE, 'shim', 'simshim.c')
    if os.path.exists(SHIM) and os.path.getmtime(SHIM) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = '{}.{}'.format(SHIM, os.getpid())
    subprocess.run(['gcc', '-O2', '-fPIC', '-shared', '-o', tmp, src, '-ldl'], check=True)
    os.rename(tmp, SHIM)


def scratch_base():
    for d in ('/dev/shm', tempfile.gettempdir()):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > 1 << 30:
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


def hashseed(seed, shard):
    return 0 if shard == 0 else random.Random('hash:{}:{}'.format(seed, shard)).randrange(1, 2 ** 32 - 1)


def worker_env(scratch, hash_seed, ctl):
    return {
        'PATH': os.environ.get('PATH', '/usr/bin:/bin'),
        'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
        'PYTHONPATH': '/repo:' + HERE,
        'PYTHONHASHSEED': str(hash_seed),
        'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONWARNINGS': 'ignore',
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'XDG_CACHE_HOME': os.path.join(scratch, 'cache'),
        'XDG_DATA_HOME': os.path.join(scratch, 'data'),
        'XDG_CONFIG_HOME': os.path.join(scratch, 'config'),
        'HOME': os.path.join(scratch, 'home'),
        'TMPDIR': os.path.join(scratch, 'tmp'),
        'GIT_CONFIG_NOSYSTEM': '1',
        'SIMSHIM_CTL': ctl,
        'SIM_DEBUG': os.environ.get('SIM_DEBUG', ''),
        'LD_PRELOAD': SHIM,
    }


class Worker:
    def __init__(self, prop_name, base, hash_seed):
        self.prop_name = prop_name
        self.hash_seed = hash_seed
        self.scratch = tempfile.mkdtemp(prefix='w', dir=base)
        self.proc = None

    def start(self):
        from sim.shim import Ctl
        for d in ('cache', 'data', 'config', 'home', 'tmp'):
            os.makedirs(os.path.join(self.scratch, d), exist_ok=True)
        ctl_path = os.path.join(self.scratch, 'ctl')
        ctl = Ctl(ctl_path, create=True)
        ctl.repo = '/repo'
        # the signatures made when the code is imported must not depend on the real clock either
        ctl.clock_ns = 1600000000 * 10 ** 9
        ctl.clock_step = 1000003
        self.proc = subprocess.Popen([PYTHON, '-m', 'sim.worker', self.prop_name, self.scratch],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=self.scratch,
                                     env=worker_env(self.scratch, self.hash_seed, ctl_path), text=True,
                                     stderr=None if os.environ.get('SIM_DEBUG') else
                                     open(os.path.join(self.scratch, 'stderr'), 'w'))
        line = self.proc.stdout.readline()
        if line != 'READY\n':
            self.proc.wait()
            try:
                err = open(os.path.join(self.scratch, 'stderr')).read()
            except OSError:
                err = ''
            if line.startswith('FAILED '):
                err = json.loads(line[7:])
            self.stop()
            raise WorkerDied('the worker can\'t start: {}'.format(err[-3000:]))

    def run(self, case, timeout=60):
        if self.proc is None:
            self.start()
        try:
            self.proc.stdin.write(json.dumps({'case': case, 'timeout': timeout}) + '\n')
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        except OSError:
            line = ''
        if not line:
            self.stop()
            raise WorkerDied('the worker died on a case')
        return json.loads(line)

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.kill()
            except OSError:
                pass
            self.proc.wait()
            for f in (self.proc.stdin, self.proc.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.proc = None


class WorkerDied(Exception):
    pass


def outcome_of(res):
    """The violation of a result, or None"""
    if res.get('violation'):
        return res['violation']
    if res.get('hang'):
        return {'kind': 'hang', 'detail': 'the run did not end within its time limit'}
    if res.get('harness_error') and 'and no result' in res['harness_error']:
        return {'kind': 'died', 'detail': res['harness_error']}
    return None


# ---------------------------------------------------------------- minimisation

def default_shrinks(case):
    """Smaller cases: fewer operations, then what the property proposes"""
    for key in ('ops', 'faults', 'schedule'):
        l = case.get(key)
        if not isinstance(l, list) or not l:
            continue
        n = len(l)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                c = copy.deepcopy(case)
                c[key] = l[:i] + l[i + size:]
                yield c
            size //= 2


def minimise(prop, case, kind, worker, budget_s, log):
    t0 = time.monotonic()
    tried = 0
    best = case
    progress = True
    while progress and time.monotonic() - t0 < budget_s:
        progress = False
        gens = [default_shrinks(best)]
        if hasattr(prop, 'shrinks'):
            gens.append(prop.shrinks(best))
        for g in gens:
            for c in g:
                if time.monotonic() - t0 > budget_s:
                    break
                tried += 1
                try:
                    v = outcome_of(worker.run(c, timeout=30))
                except WorkerDied:
                    continue
                if v and v['kind'] == kind:
                    best = c
                    progress = True
                    break
            if progress:
                break
    log('minimised in {} runs, {:.0f} s'.format(tried, time.monotonic() - t0))
    return best


# ---------------------------------------------------------------- known findings

def known_findings(prop_id):
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.strip() and not l.startswith('#'):
                e = json.loads(l)
                if e.get('status') == 'known' and e.get('property') == prop_id:
                    res.append(e)
    return res


def is_known(findings, violation):
    for e in findings:
        if e['kind'] == violation['kind'] and e['match'] in violation['detail']:
            return e
    return None


# ---------------------------------------------------------------- the check

def make_case(prop, prop_id, seed, i, tier):
    rng = random.Random('{}:{}:{}'.format(prop_id, seed, i))
    case = prop.generate(rng, i, tier)
    case.setdefault('readdir_seed', rng.randrange(1, 1 << 40))
    case['property'] = prop_id
    case['index'] = i
    case['hashseed'] = hashseed(seed, i % SHARDS)
    return case


def check(prop_id, tier, seed, runs=None, cap=None, jobs=None, quiet=False):
    build_shim()
    t0 = time.monotonic()
    prop = importlib.import_module('sim.props.' + prop_id.lower())
    runs = runs or prop.RUNS[tier]
    cap = cap or (300 if tier == 'quick' else 3600)
    base = tempfile.mkdtemp(prefix='iemlsim.', dir=scratch_base())
    findings = known_findings(prop_id)

    def log(*a):
        if not quiet:
            print(*a, file=sys.stderr, flush=True)

    state = {'results': {}, 'violation': None, 'error': None, 'known': {}, 'skipped': 0, 'unreproduced': []}
    lock = threading.Lock()
    stop = threading.Event()
    sem = threading.Semaphore(jobs or max(1, min(SHARDS, os.cpu_count() or 1)))
    timeout = getattr(prop, 'TIMEOUT', 60)

    def shard(s):
        w = Worker(prop_id, base, hashseed(seed, s))
        try:
            for i in range(s, runs, SHARDS):
                if stop.is_set():
                    return
                if time.monotonic() - t0 > cap:
                    with lock:
                        state['skipped'] += 1
                    continue
                with sem:
                    case = make_case(prop, prop_id, seed, i, tier)
                    try:
                        res = w.run(case, timeout)
                        if res.get('hang'):
                            res = w.run(case, timeout * 2)
                    except WorkerDied as e:
                        res = {'violation': {'kind': 'died', 'detail': str(e)}, 'harness_error': None}
                v = outcome_of(res)
                if v is not None and v['kind'] != 'hang' and not is_known(findings, v):
                    # one seed is one execution: what doesn't happen again is not reported as a violation
                    again = None
                    for _ in range(3):
                        with sem:
                            try:
                                res2 = w.run(case, timeout)
                            except WorkerDied as e:
                                res2 = {'violation': {'kind': 'died', 'detail': str(e)}, 'harness_error': None}
                        again = outcome_of(res2)
                        if again is not None:
                            break
                    if again is None:
                        with lock:
                            state['unreproduced'].append({'index': i, 'violation': v})
                        res, v = res2, None
                    else:
                        v = again
                with lock:
                    if v is None and res.get('harness_error'):
                        if state['error'] is None:
                            state['error'] = (case, res['harness_error'])
                        stop.set()
                        return
                    if v is not None:
                        k = is_known(findings, v)
                        if k is not None:
                            state['known'][k['what']] = state['known'].get(k['what'], 0) + 1
                            res['case'] = case
                            state['results'][i] = res
                            continue
                        if state['violation'] is None or i < state['violation'][0]['index']:
                            state['violation'] = (case, v)
                        stop.set()
                        return
                    if i < 3:
                        res['case'] = case
                    state['results'][i] = res
        except WorkerDied as e:
            with lock:
                if state['violation'] is None:
                    state['violation'] = ({'property': prop_id, 'index': -1, 'hashseed': hashseed(seed, s), 'ops': []},
                                          {'kind': 'died', 'detail': str(e)})
            stop.set()
        except Exception:
            with lock:
                if state['error'] is None:
                    state['error'] = ({'index': -1}, traceback.format_exc())
            stop.set()
        finally:
            w.stop()
            shutil.rmtree(w.scratch, ignore_errors=True)

    code = 0
    reported = None
    det = {'reruns': 0, 'identical': 0}
    try:
        threads = [threading.Thread(target=shard, args=(s,)) for s in range(SHARDS)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()

        if state['violation'] is None and state['error'] is None:
            # determinism: the same cases, another process, the same hash seed
            sample = sorted(state['results'])[:: max(1, len(state['results']) // getattr(prop, 'RERUNS', 8))]
            again = {}
            for i in sample[:getattr(prop, 'RERUNS', 8)]:
                again.setdefault(hashseed(seed, i % SHARDS), []).append(i)

            def rerun(hs, cases):
                try:
                    with sem:
                        w = Worker(prop_id, base, hs)
                        try:
                            for i in cases:
                                case = make_case(prop, prop_id, seed, i, tier)
                                try:
                                    res = w.run(case, timeout)
                                except WorkerDied:
                                    res = {}
                                with lock:
                                    det['reruns'] += 1
                                    if res.get('digest') == state['results'][i].get('digest'):
                                        det['identical'] += 1
                                    else:
                                        log('not deterministic: case', i)
                        finally:
                            w.stop()
                except Exception as e:
                    with lock:
                        state['error'] = state['error'] or ({'index': -1}, traceback.format_exc())

            threads = [threading.Thread(target=rerun, args=x) for x in again.items()]
            for t in threads:
                t.start()
            for t in threads:
                t.join()

        if state['violation'] is not None:
            case, v = state['violation']
            log('violation', v['kind'], v['detail'][:1500])
            w = Worker(prop_id, base, case['hashseed'])
            reproduced = False
            try:
                if case['index'] >= 0:
                    for _ in range(5):
                        v2 = outcome_of(w.run(case, timeout))
                        if v2 and v2['kind'] == v['kind']:
                            reproduced = True
                            break
                    if reproduced:
                        case = minimise(prop, case, v['kind'], w, 60 if tier == 'quick' else 240, log)
                        w.stop()
                        w = Worker(prop_id, base, case['hashseed'])
                        res = w.run(case, timeout)
                        v = outcome_of(res) or v
                        case['trace'] = res.get('events', [])
            except WorkerDied:
                reproduced = v['kind'] == 'died'
            finally:
                w.stop()
            case['violation'] = v
            case['reproduced'] = reproduced
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, '{}-{}-{}.json'.format(prop_id, seed, case['index']))
            with open(path, 'w') as fp:
                json.dump(case, fp, indent=1, sort_keys=True)
            reported = path
            code = 1
        elif state['error'] is not None:
            case, err = state['error']
            print('HARNESS ERROR in case {} of {}:\n{}'.format(case['index'], prop_id, err), file=sys.stderr)
            code = 2
    finally:
        shutil.rmtree(base, ignore_errors=True)

    write_evidence(prop, prop_id, tier, seed, state, det, time.monotonic() - t0, code, runs)
    for what, n in sorted(state['known'].items()):
        print('KNOWN-FINDING: property={} {} ({} runs)'.format(prop_id, what, n))
    if code == 1:
        print('{}: {}'.format(v['kind'], v['detail'][:800]))
        print('VIOLATION property={} replay={}'.format(prop_id, reported))
    elif code == 0:
        log('{}: {} runs, {:.0f} s, held'.format(prop_id, len(state['results']), time.monotonic() - t0))
    return code


def write_evidence(prop, prop_id, tier, seed, state, det, wall, code, runs):
    results = state['results']
    faults, stats, states, digests = {}, {}, set(), set()
    sim_ns = 0
    for i, r in sorted(results.items()):
        for k, n in r.get('faults', {}).items():
            faults[k] = faults.get(k, 0) + n
        for k, n in r.get('stats', {}).items():
            stats[k] = stats.get(k, 0) + n
        states |= set(r.get('states', []))
        sim_ns += r.get('sim_ns', 0)
        if r.get('nontrivial'):
            digests.add(r.get('digest'))
    n = len(results)
    samples = []
    for i in sorted(results)[:3]:
        c = results[i].get('case')
        if c:
            samples.append({'case': {k: v for k, v in c.items()}, 'trace': results[i].get('events', [])[:40]})
    ev = {
        'property': prop_id, 'tier': tier, 'seed': seed, 'level': prop.LEVEL,
        'coverage': {
            'evaluations': n,
            'distinct_nontrivial': len(digests),
            'rule': prop.RULE,
            'samples': samples,
            'runs_planned': runs,
            'runs_skipped_by_the_wall_cap': state['skipped'],
            'runs_per_hour': round(n / wall * 3600) if wall else 0,
            'simulated_seconds': round(sim_ns / 1e9, 3),
            'fault_kinds_fired': faults,
            'probes': stats,
            'distinct_states': len(states),
            'distinct_states_measure': prop.STATES,
            'hash_seeds': [hashseed(seed, s) for s in range(SHARDS)],
            'determinism': det,
            'components_real': prop.REAL,
            'components_stub': prop.STUB,
            'known_findings_seen': state['known'],
            'not_reproduced': state['unreproduced'],
        },
        'assumptions': prop.ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': 1 if code == 1 else 0,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop_id + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1, sort_keys=True)


def replay(path, log=False):
    build_shim()
    case = json.load(open(path))
    if log:
        case['log'] = True
    base = tempfile.mkdtemp(prefix='iemlsim.', dir=scratch_base())
    w = Worker(case['property'], base, case['hashseed'])
    try:
        try:
            res = w.run(case, 120)
        except WorkerDied as e:
            res = {'violation': {'kind': 'died', 'detail': str(e)}}
    finally:
        w.stop()
        shutil.rmtree(base, ignore_errors=True)
    for e in res.get('events', []):
        print(e)
    if res.get('log'):
        print(res['log'])
    v = outcome_of(res)
    if v:
        print('{}: {}'.format(v['kind'], v['detail']))
        print('VIOLATION property={} replay={}'.format(case['property'], path))
        return 1
    if res.get('harness_error'):
        print(res['harness_error'])
        return 2
    print('no violation')
    return 0
