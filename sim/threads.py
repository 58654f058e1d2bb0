"""What C10 and C11 share: runs of threads in a process that has just started, under a schedule."""
import os
import pickle
import shutil

TABLES = {}


def scope(level):
    """0: the code of the repository; 1: and ply"""
    def f(name):
        if '/ieml/' in name or name.startswith('/repo/'):
            return True
        return level > 0 and '/ply/' in name
    return f


def gen_schedule(rng):
    """Preemptions as [position in 0..2^20, offset in steps, choice]"""
    r = rng.random()
    if r < 0.35:
        n = rng.choice([1, 1, 2, 3, 4])
        pts = [[rng.randrange(1 << 20), 0, rng.randrange(4)] for _ in range(n)]
    elif r < 0.7:
        # several preemptions close to each other
        pts = []
        for _ in range(rng.choice([1, 2, 3])):
            at, w = rng.randrange(1 << 20), rng.choice([10, 50, 300, 2000])
            pts += [[at, rng.randrange(w), rng.randrange(4)] for _ in range(rng.choice([2, 3, 6]))]
    else:
        pts = [[rng.randrange(1 << 20), 0, rng.randrange(4)] for _ in range(rng.choice([10, 30, 80]))]
    # failing allocations
    fails = [rng.randrange(1 << 20) for _ in range(rng.choice([1, 1, 2]))] if rng.random() < 0.3 else []
    return {'points': pts, 'scope': rng.choice([0, 0, 0, 1]), 'opcodes': rng.random() < 0.25, 'failures': fails}


def preemptions(schedule, total):
    res = {}
    for at, off, choice in schedule['points']:
        k = 1 + at * max(1, total) // (1 << 20) + off
        while k in res:
            k += 1
        res[k] = choice
    return res


def faulty(fn):
    """['fault', outcome] if an allocation failed in this thread during fn"""
    from sim import sched
    n = sched.injected()
    r = fn()
    return ['fault', r] if sched.injected() != n else r


def attempt(fn):
    try:
        return ['ok', fn()]
    except MemoryError as e:
        return ['error', 'MemoryError', str(e)]


def same(got, expected):
    """An operation in which an allocation failed may fail"""
    if got[0] == 'fault':
        return got[1][0] == 'error' or got[1] == expected
    return got == expected


def shrink_schedules(case):
    import copy
    for n, s in enumerate(case['schedules']):
        for m in range(len(s.get('failures', []))):
            c = copy.deepcopy(case)
            del c['schedules'][n]['failures'][m]
            yield c
        if len(case['schedules']) > 1:
            c = copy.deepcopy(case)
            del c['schedules'][n]
            yield c
        pts = s['points']
        size = len(pts)
        while size >= 1:
            for i in range(0, len(pts), size):
                if len(pts) > size or len(pts) == 1:
                    c = copy.deepcopy(case)
                    c['schedules'][n]['points'] = pts[:i] + pts[i + size:]
                    yield c
            size //= 2


def prepare_tables():
    """The parser tables that a first process leaves"""
    import tempfile
    from sim import fresh
    d = tempfile.mkdtemp(prefix='tables')
    pid = os.fork()
    if pid == 0:
        try:
            fresh.start(d)
            from sim import parse
            for k, t in (('script', 'a.'), ('usl', 'a. b.'), ('path', '>constant')):
                parse.outcome(k, t)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    for dirpath, dirs, names in os.walk(d):
        for n in names:
            f = os.path.join(dirpath, n)
            TABLES[os.path.relpath(f, d)] = open(f, 'rb').read()
    shutil.rmtree(d)


def put_tables(cache, present):
    shutil.rmtree(cache, ignore_errors=True)
    os.makedirs(cache)
    if present:
        for name, data in TABLES.items():
            p = os.path.join(cache, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as fp:
                fp.write(data)


def reference(fn):
    """fn() in a process that has just started"""
    import tempfile
    d = tempfile.mkdtemp(prefix='ref')
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            from sim import fresh
            fresh.start(d)
            res = ('ok', fn())
        except BaseException as e:
            import traceback
            res = ('error', ''.join(traceback.format_exception(type(e), e, e.__traceback__)))
        with os.fdopen(w, 'wb') as fp:
            pickle.dump(res, fp)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        data = fp.read()
    os.waitpid(pid, 0)
    shutil.rmtree(d, ignore_errors=True)
    status, res = pickle.loads(data)
    if status != 'ok':
        raise RuntimeError(res)
    return res


def execute(ctx, cache, setup, fns_of, after, schedule, total):
    """
    In a forked process that starts: setup(), then the threads made by fns_of(setup result) under the schedule, then after().
    Returns (Outcome of [results or errors per thread, after result, steps, switches, stuck]).
    """
    from sim import sched

    def call():
        from sim import fresh
        fresh.start(cache)
        fresh.all_modules()
        env = setup()
        fns = fns_of(env)
        s = sched.Sched(fns, scope(schedule['scope']), preemptions(schedule, total) if total else {}, schedule['opcodes'],
                        failures=[1 + at * total // (1 << 20) for at in schedule.get('failures', [])] if total else ())
        threads = s.run()
        if s.stuck:
            return {'stuck': s.stuck, 'switches': s.switches, 'steps': s.step, 'failed': s.failed}
        res = []
        for t in threads:
            if t.error is not None:
                res.append(['thread error', type(t.error).__name__, str(t.error)[:300]])
            else:
                res.append(t.result)
        try:
            a = after(env)
        except sched.Stuck as e:
            return {'stuck': str(e), 'switches': s.switches, 'steps': s.step, 'failed': s.failed}
        return {'stuck': None, 'results': res, 'after': a, 'failed': s.failed, 'switches': s.switches, 'steps': s.step, 'locks': s.locks}
    return ctx.in_child(call)
