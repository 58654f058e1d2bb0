"""Self-test of the simulator: the same cases in other processes, in another order and under another load, give the same executions."""
import importlib
import os
import shutil
import sys
import tempfile
import threading
import time

from sim import runner
from sim.runner import Worker, WorkerDied, build_shim, hashseed, make_case, scratch_base, SHARDS


def run_all(prop_id, prop, seed, cases, jobs, reverse):
    base = tempfile.mkdtemp(prefix='iemlsim.', dir=scratch_base())
    res, lock, sem = {}, threading.Lock(), threading.Semaphore(jobs)

    def shard(s):
        with sem:
            w = Worker(prop_id, base, hashseed(seed, s))
            try:
                mine = [i for i in cases if i % SHARDS == s]
                for i in reversed(mine) if reverse else mine:
                    try:
                        r = w.run(make_case(prop, prop_id, seed, i, 'quick'), getattr(prop, 'TIMEOUT', 60))
                    except WorkerDied:
                        r = {}
                    with lock:
                        res[i] = (r.get('digest'), r.get('events', []))
            finally:
                w.stop()
    try:
        ts = [threading.Thread(target=shard, args=(s,)) for s in range(SHARDS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return res


def main(props, seed, runs):
    build_shim()
    code = 0
    for p in props or sorted(f[:-3].upper() for f in os.listdir(os.path.join(os.path.dirname(__file__), 'props')) if f[0] == 'c'):
        prop = importlib.import_module('sim.props.' + p.lower())
        t0 = time.monotonic()
        a = run_all(p, prop, seed, range(runs), 8, False)
        b = run_all(p, prop, seed, range(runs), 3, True)
        bad = [i for i in range(runs) if a[i][0] != b[i][0] or a[i][0] is None]
        print('{}: {} cases run twice, {} identical, {:.0f} s'.format(p, runs, runs - len(bad), time.monotonic() - t0), flush=True)
        for i in bad[:3]:
            x = [(u, v) for u, v in zip(a[i][1], b[i][1]) if u != v][:1] or [(len(a[i][1]), len(b[i][1]))]
            print('  case {}: {} / {}'.format(i, *(str(y)[:300] for y in x[0])), flush=True)
            code = 1
    return code
