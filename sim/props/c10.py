"""C10: threads that parse at the same time get what each gets alone."""
import os

from sim import pools, threads
from sim.core import HarnessError
from sim.threads import gen_schedule

LEVEL = 'exploration'
TECHNIQUE = 'deterministic simulation: seeded schedules of threads preempted at chosen lines or instructions, failing allocations'
RUNS = {'quick': 480, 'thorough': 20000}
RULE = ('a case is a seeded set of 2 to 4 threads, each with a list of texts to parse (with parsers shared by the threads, or their own, or '
        'made at each call; with or without factorization; with or without dictionary; parser tables present or not), and seeded schedules: the steps (lines '
        'or bytecode instructions of the library, sometimes of ply) at which a thread is preempted and the thread that goes on. Allocations fail at seeded steps. Each outcome must be '
        'that of a process with one thread; all threads must end; then the main thread parses again. non-trivial: at least one preemption took place. '
        'distinct: by the digest of the switches')
STATES = 'distinct (function and line where a thread was preempted, number of threads that can go on)'
REAL = ['the three parsers and their lexers', 'ply', 'ieml.dictionary.script, ieml.usl', 'real threads']
STUB = ['thread scheduling (baton; sys.monitoring)', 'threading.Lock and RLock', 'clock', 'time.sleep']
ASSUMPTIONS = ['a thread can be preempted between two bytecode instructions of the library or of ply, not inside a function written in C',
               'all modules are imported before the threads start',
               'an allocation does not fail between the taking of a lock and the code that releases it, nor in ply']
TIMEOUT = 120

FACTORIZE = ['U:S:+T:S:.', 'O:M:.M:M:.-+M:M:.O:M:.-', 'A:+U:S:.', 'B:S:A:+S:.', 'a. O:M:.+M:O:.', 'O:M:.+M:O:.', 'U:M:.+O:M:.', 'a. U:A:+S:A:.']
DICTS = [None, ['a.', 'b.'], ['a.', 'wa.', 'U:M:.', 'O:M:.', 'S:', 'A:', 'e.']]
DICT_TEXTS = ['a. b.', '(a. b.)', 'a. wa.', 'U:M:. a.', 'b.', '()(a.)', 'wa. e.', '(a.)(e.)']
REFERENCE = {}


def jobs():
    res = []
    for k, pool in (('script', pools.SCRIPT_TEXTS + pools.BAD_SCRIPTS), ('path', pools.PATH_TEXTS + pools.BAD_PATHS),
                    ('usl', pools.USL_TEXTS + pools.BAD_USLS + pools.DECORATED_TEXTS + pools.SCRIPT_TEXTS[:12] + FACTORIZE)):
        res += [[k, t, False, 0] for t in pool]
    res += [['usl', t, True, 0] for t in FACTORIZE + pools.USL_TEXTS]
    res += [['usl', t, False, d] for t in DICT_TEXTS for d in (0, 1, 2)]
    return res


def dictionary(d):
    from ieml.dictionary.script import script
    return {script(s) for s in DICTS[d]} if DICTS[d] else None


def one(job, parsers=None):
    """The outcome of a job, with shared parsers or a new one"""
    from sim import parse
    k, t, factorize, d = job

    def fn(k, t):
        if k == 'usl':
            if parsers is not None:
                return parsers['usl', d].parse(t, factorize_script=factorize)
            if factorize or d:
                from ieml.usl.parser import IEMLParser
                return IEMLParser(dictionary=dictionary(d)).parse(t, factorize_script=factorize)
        elif k == 'path' and parsers is not None:
            return parsers['path', 0].parse(t)
        return parse.parse(k, t)
    return parse.outcome(k, t, fn)


def make_parsers():
    from ieml.usl.parser import IEMLParser
    from ieml.usl.decoration.parser.parser import PathParser
    res = {('usl', d): IEMLParser(dictionary=dictionary(d)) for d in range(len(DICTS))}
    res['path', 0] = PathParser()
    return res


def prepare():
    from sim import fresh, sched
    import logging
    logging.disable(logging.CRITICAL)
    fresh.preload()
    sched.install()
    threads.prepare_tables()
    l = jobs()
    REFERENCE.update(zip(map(tuple, l), threads.reference(lambda: [one(j) for j in l])))


def gen_job(rng, mode):
    r = rng.random()
    if r < 0.2:
        return ['usl', rng.choice(FACTORIZE), rng.random() < 0.6, 0]
    if r < 0.35:
        return ['usl', rng.choice(DICT_TEXTS), False, rng.randrange(3)]
    k, t = pools.gen_text(rng, 0.25)
    return [k, t, False, 0]


def generate(rng, i, tier):
    mode = rng.choice(['shared', 'shared', 'own', 'call'])
    n = rng.choice([2, 2, 2, 3, 4])
    fam = [gen_job(rng, mode) for _ in range(2)]
    progs = [[rng.choice(fam) if rng.random() < 0.3 else gen_job(rng, mode) for _ in range(rng.choice([1, 1, 2] if mode != 'shared' else [1, 2, 4]))]
             for _ in range(n)]
    return {'threads': progs, 'mode': mode, 'tables': rng.random() < 0.75, 'warm': [gen_job(rng, mode) for _ in range(rng.choice([0, 0, 2]))],
            'schedules': [gen_schedule(rng) for _ in range(3 if tier == 'quick' else 8)]}


def shrinks(case):
    import copy
    yield from threads.shrink_schedules(case)
    for n in range(len(case['threads'])):
        if len(case['threads']) > 2:
            c = copy.deepcopy(case)
            del c['threads'][n]
            yield c
        for m in range(len(case['threads'][n])):
            if len(case['threads'][n]) > 1:
                c = copy.deepcopy(case)
                del c['threads'][n][m]
                yield c
    if case['warm']:
        yield dict(case, warm=[])


def run(case, ctx):
    cache = os.path.join(ctx.root, 'cache')
    progs = [[tuple(j) for j in p] for p in case['threads']]
    for p in progs:
        for j in p:
            if j not in REFERENCE:
                raise HarnessError('no reference for {}'.format(j))

    def setup():
        for j in case['warm']:
            one(j)
        return make_parsers() if case['mode'] == 'shared' else None

    def fns_of(env):
        def make(p):
            def f():
                parsers = env
                if case['mode'] == 'own':
                    made = threads.faulty(lambda: threads.attempt(make_parsers))
                    if made[0] == 'fault' and made[1][0] == 'error':
                        return [made] * len(p)
                    parsers = (made[1] if made[0] == 'fault' else made)[1]
                return [threads.faulty(lambda: one(j, parsers)) for j in p]
            return f
        return [make(p) for p in progs]

    again = [j for p in progs for j in p][:4] + [('script', 'a.', False, 0)]

    def after(env):
        return [one(j, env) for j in again]

    totals = {}
    for n, s in enumerate(case['schedules']):
        key = (s['scope'], s['opcodes'])
        if key not in totals:
            put(case, cache)
            o = threads.execute(ctx, cache, setup, fns_of, after, s, 0)
            if o.status != 'ok':
                ctx.violation('failed', 'one after the other: {}\n{}'.format(o, o.tb))
            verify(ctx, o.value, progs, again, 'one after the other')
            totals[key] = o.value['steps']
        put(case, cache)
        o = threads.execute(ctx, cache, setup, fns_of, after, s, totals[key])
        if o.status != 'ok':
            ctx.violation('failed', 'schedule {}: {}\n{}'.format(n, o, o.tb))
        v = o.value
        ctx.trace('schedule', n, v['switches'], v['steps'])
        if v['switches']:
            ctx.nontrivial = True
        for sw in v['switches']:
            ctx.fault('preemption' if sw[3] not in ('waits', 'sleeps') else 'wait for a lock' if sw[3] == 'waits' else 'sleep')
            ctx.state(sw[3], sw[4])
        for fl in v['failed']:
            ctx.fault('failed allocation')
            ctx.trace('failed', list(fl))
        verify(ctx, v, progs, again, 'with schedule {}, switches {}{}'.format(
            n, v['switches'][:12], ', failed allocations {}'.format(v['failed']) if v['failed'] else ''))


def put(case, cache):
    threads.put_tables(cache, case['tables'])


def verify(ctx, v, progs, again, what):
    if v['stuck']:
        ctx.violation('stuck', '{}: {}'.format(what, v['stuck']))
    for i, (p, r) in enumerate(zip(progs, v['results'])):
        if r and r[0] == 'thread error':
            ctx.violation('thread-error', 'thread {} {}: {}'.format(i, what, r))
        for j, got in zip(p, r):
            if not threads.same(got, REFERENCE[j]):
                ctx.violation('differs', 'thread {} {}: {} gives {}, alone it gives {}'.format(i, what, j, got, REFERENCE[j]))
            ctx.probe('parsed')
    for j, got in zip(again, v['after']):
        if got != REFERENCE[j]:
            ctx.violation('differs', 'after the threads {}: {} gives {}, alone it gives {}'.format(what, j, got, REFERENCE[j]))
