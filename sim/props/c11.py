"""C11: the literals of a decorated usl stay in it."""
import os

from sim import pools, threads
from sim.core import HarnessError
from sim.threads import gen_schedule

LEVEL = 'exploration'
TECHNIQUE = 'deterministic simulation: seeded histories in threads preempted at chosen lines or instructions, failing allocations'
RUNS = {'quick': 400, 'thorough': 20000}
RULE = ('a case is a seeded history of creations of decorated usls over shared morphemes (from text or objects, from the literals of the components, from '
        'a usl shared by the threads; valid, or failing after some decorations), of expansions to singular sequences and of observations, in 1 to 4 threads, and seeded '
        'schedules with failing allocations. Each usl must have exactly the decorations it was created with (the last one of each place), when it is created, after '
        'every other operation of its thread and at the end; its text must be read as the same usl; at the end the shared morphemes bear no literal. non-trivial: at least two '
        'creations. distinct: by the digest of the operations, outcomes and switches')
STATES = 'distinct (function and line where a thread was preempted)'
REAL = ['ieml.usl.decoration, ieml.usl, ieml.commons.DecoratedComponent', 'the three parsers', 'ply', 'real threads']
STUB = ['thread scheduling (baton; sys.monitoring)', 'threading.Lock and RLock', 'clock', 'time.sleep']
ASSUMPTIONS = ['a thread can be preempted between two bytecode instructions of the library or of ply, not inside a function written in C',
               'all modules are imported before the threads start',
               'an allocation does not fail between the taking of a lock and the code that releases it, nor in ply',
               'each place is decorated at most once in a usl created from the literals of its components, and no morpheme is at two of its places']
TIMEOUT = 120

# usl -> the places that can be decorated, written as the library writes them
BASES = {
    'a. b.': ['>constant', '>constant>a.', '>constant>b.'],
    'a. b. e.': ['>constant', '>constant>a.', '>constant>b.', '>constant>e.'],
    'a. b. m1(a. U:M:.)': ['>constant', '>constant>a.', '>constant>b.', '>group_0 1', '>group_0 1>a.', '>group_0 1>U:M:.'],
    'b. m1(a. e.)': ['>constant', '>constant>b.', '>group_0 1', '>group_0 1>a.', '>group_0 1>e.'],
    'm1(S: B:) m2(S: a.)': ['>group_0 1', '>group_0 1>S:', '>group_0 1>B:', '>group_1 2', '>group_1 2>S:', '>group_1 2>a.'],
    'U:M:. b.': ['>constant', '>constant>U:M:.', '>constant>b.'],
    '(a. b.)': ['>flexion', '>flexion>a.', '>flexion>b.'],
    '()(a. b.)': ['>content', '>content>constant', '>content>constant>a.', '>content>constant>b.'],
    '(a. b.)(b. e.)': ['>flexion', '>flexion>a.', '>flexion>b.', '>content', '>content>constant', '>content>constant>b.', '>content>constant>e.'],
    '(a. b.)(b. m1(S: a.))': ['>flexion', '>flexion>a.', '>flexion>b.', '>content', '>content>constant', '>content>constant>b.', '>content>group_0 1',
                              '>content>group_0 1>S:', '>content>group_0 1>a.'],
    '[! E:A:. ()(a. b.)]': ['>role>! E:A:.', '>role>! E:A:.>content', '>role>! E:A:.>content>constant', '>role>! E:A:.>content>constant>a.',
                            '>role>! E:A:.>content>constant>b.'],
    "[! E:A:. ()(a. b.) > E:A:. E:A:. (E:B:.-d.u.-')(b. m1(S:))]": [
        '>role>! E:A:.', '>role>! E:A:.>content', '>role>! E:A:.>content>constant', '>role>! E:A:.>content>constant>a.',
        '>role>! E:A:.>content>constant>b.', '>role>E:A:. E:A:.', ">role>E:A:. E:A:.>flexion>E:B:.-d.u.-'", '>role>E:A:. E:A:.>content',
        '>role>E:A:. E:A:.>content>constant>b.', '>role>E:A:. E:A:.>content>group_0 1', '>role>E:A:. E:A:.>content>group_0 1>S:'],
}
# no morpheme at two places
PLAIN = ['a. b.', 'a. b. e.', 'b. m1(a. e.)', 'U:M:. b.', '()(a. b.)', '[! E:A:. ()(a. b.)]']
PARADIGMS = ['U:M:. b.', 'b. m1(a. e.)', 'a. b. m1(a. U:M:.)', 'm1(S: B:) m2(S: a.)', '(a. b.)(b. m1(S: a.))']
# other ways of writing a place
ALIASES = {'>group_0 1>a.': '>group_0>a.', '>group_0 1>e.': '>group_0>e.', '>role>! E:A:.>content>constant>a.': '>role>E:A:.>content>constant>a.',
           '>group_0 1>U:M:.': '>group_0>U:M:.', '>role>! E:A:.>content>constant>b.': '>role>E:A:.>content>constant>b.'}
NOWHERE = ['>constant>wa.', '>group_2 1>a.', '>flexion>wa.', '>content>constant>wa.', '>role>E:U:. E:A:.>content>constant>a.']
VALUES = ['x', 'foo', 'l\'eau', 'x y', 'a "quote" b', 'two\nlines', 'é', '1', '', 'a. b.', '[>constant>a. z]', '\\ back \\ slash', 'end\\', 'a\\nb', '\\\\" "\\']
REFERENCE = {}


def text_of(base, decorations):
    return ' '.join([base] + ['[{} "{}"]'.format(p, v.replace('\\', '\\\\').replace('"', '\\"')) for p, v in decorations])


def value_of(u):
    """What a usl is, as plain data"""
    if hasattr(u, 'decorations'):
        return ['ok', str(u.usl), sorted([str(d.path), str(d.value)] for d in u.decorations)]
    return ['ok', str(u), []]


def expected(base, decorations):
    last = {}
    if decorations == [1]:
        decorations = []
    for p, v in decorations:
        last[next((c for c, a in ALIASES.items() if a == p and c in BASES[base]), p)] = v
    return ['ok', REFERENCE['str', base], sorted([p, v] for p, v in last.items())]


def expected_ss(base, decorations):
    d = dict(expected(base, decorations)[2])
    return ['ok', sorted([ss, sorted([p, v] for p, v in d.items() if p in places)] for ss, places in REFERENCE['ss', base])]


def measure():
    """The bases, each alone: their text, their singular sequences and the places of these"""
    from ieml.usl.usl import usl
    res = {}
    for b in BASES:
        res['str', b] = str(usl(b))
        l = []
        for ss in usl(b).singular_sequences:
            places = [p for p in BASES[b] if contained(p, ss)]
            l.append((str(ss), places))
        res['ss', b] = l
    return res


def contained(p, ss):
    from ieml.usl.decoration.path import path
    return bool(path(p).contained(ss))


def prepare():
    from sim import fresh, sched
    import logging
    logging.disable(logging.CRITICAL)
    fresh.preload()
    sched.install()
    threads.prepare_tables()
    REFERENCE.update(threads.reference(measure))


# ---------------------------------------------------------------- the operations

def make_deco(p, v):
    from ieml.usl.decoration.instance import Decoration
    from ieml.usl.decoration.path import path
    return Decoration(path(p), v)


def create(op, shared):
    """The usl that the operation creates"""
    from ieml.usl.decoration.instance import InstancedUSL, literal_context
    from ieml.usl.usl import usl
    how, base, decorations = op[:3]
    if how == 'text':
        return usl(text_of(base, decorations))
    if how == 'objects':
        return InstancedUSL(usl(base), [make_deco(p, v) for p, v in decorations])
    if how == 'shared':
        return InstancedUSL(shared[base], [make_deco(p, v) for p, v in decorations])
    if how == 'plain':
        return InstancedUSL.from_usl(shared[base] if decorations else usl(base))
    if how in ('literals', 'literals of a copy'):
        u = usl(base)
        if how != 'literals':
            import pickle
            u = pickle.loads(pickle.dumps(u))
        l = [make_deco(p, v) for p, v in decorations]
        with literal_context():
            for d in l:
                d.apply(u)
            return InstancedUSL.from_usl(u)
    if how == 'not a decoration':
        return InstancedUSL(usl(base), [make_deco(p, v) for p, v in decorations] + ['x'])
    raise HarnessError(how)


def again(u):
    from ieml.usl.usl import usl
    return value_of(usl(str(u)))


def ss_of(u):
    return ['ok', sorted([v[1], v[2]] for v in map(value_of, u.singular_sequences))]


def guarded(fn):
    try:
        return fn()
    except Exception as e:
        return ['error', type(e).__name__, str(e)[:200]]


def history(ops, shared, mine):
    """Run the operations, return what each observes"""
    res = []
    for op in ops:
        if op[0] in ('again', 'ss', 'look'):
            if not mine:
                res.append(None)
                continue
            n = op[1] % len(mine)
            u, o = mine[n]
            fn = {'again': again, 'ss': ss_of, 'look': value_of}[op[0]]
            res.append([n, threads.faulty(lambda: guarded(lambda: fn(u)))])
        elif op[0] == 'parse':
            res.append(threads.faulty(lambda: guarded(lambda: parse_plain(op[1]))))
        else:
            def f():
                if op[0] == 'nested':
                    # created while another usl bears literals
                    from ieml.usl.decoration.instance import literal_context
                    l = [make_deco(p, v) for p, v in op[2]]
                    with literal_context():
                        for d in l:
                            d.apply(shared[op[1]])
                        return value_of(create(op[3], shared))
                u = create(op, shared)
                r = value_of(u)
                mine.append((u, op))
                return r
            res.append(threads.faulty(lambda: guarded(f)))
    return res


def parse_plain(base):
    from ieml.usl.usl import usl
    return value_of(usl(base))


def generate(rng, i, tier):
    def decorations(base, n=None, places=None):
        places = places or BASES[base]
        return [[rng.choice(places) if rng.random() < 0.9 or places is not BASES[base] else ALIASES.get(places[-1], places[-1]), rng.choice(VALUES)]
                for _ in range(rng.choice([1, 1, 2, 3]) if n is None else n)]

    fam = rng.sample(sorted(BASES), 3)

    def gen_op():
        r = rng.random()
        base = rng.choice(fam) if rng.random() < 0.7 else rng.choice(sorted(BASES))
        if r < 0.25:
            return ['text', base, decorations(base)]
        if r < 0.35:
            return ['objects', base, decorations(base)]
        if r < 0.5:
            return ['shared', base, decorations(base)]
        if r < 0.57:
            base = rng.choice(PLAIN)
            places = [p for p in BASES[base] if p.rsplit('>', 1)[-1].endswith('.') and not p.split('>')[-2].startswith('role')]
            l = rng.sample(places, rng.choice([1, min(2, len(places))]))
            return [rng.choice(['literals', 'literals', 'literals of a copy']), base, [[p, rng.choice(VALUES)] for p in l]]
        if r < 0.59:
            inner = gen_op()
            if inner[0] in ('text', 'objects'):
                places = [p for p in BASES[base] if p.endswith('.')]
                return ['nested', base, [[rng.choice(places), rng.choice(VALUES)]] if places else [], inner]
            return inner
        if r < 0.61:
            return ['plain', base, rng.choice([[], [1]])]
        if r < 0.64:
            base = rng.choice(PARADIGMS)
            return [rng.choice(['text', 'shared']), base, decorations(base)]
        if r < 0.7:
            return ['not a decoration', base, decorations(base, rng.choice([0, 1, 2]))]
        if r < 0.78:
            bad = rng.choice(NOWHERE)
            return [rng.choice(['text', 'objects', 'shared']), base, decorations(base) + [[bad, 'lost']] + decorations(base, rng.choice([0, 1])), 'bad']
        if r < 0.84:
            return ['parse', base]
        return [rng.choice(['again', 'ss', 'ss', 'look']), rng.randrange(100)]

    n = rng.choice([1, 2, 2, 2, 3, 4])
    size = rng.choice([1, 2, 3] if n > 1 else [3, 6, 10])
    return {'warm': [gen_op() for _ in range(rng.choice([0, 0, 3]))],
            'threads': [[gen_op() for _ in range(size)] for _ in range(n)],
            'tables': rng.random() < 0.9, 'copies': rng.random() < 0.4,
            'schedules': [gen_schedule(rng) for _ in range((3 if tier == 'quick' else 8) if n > 1 else 2)]}


def shrinks(case):
    import copy
    yield from threads.shrink_schedules(case)
    for n in range(len(case['threads'])):
        if len(case['threads']) > 1:
            c = copy.deepcopy(case)
            del c['threads'][n]
            yield c
        for m in range(len(case['threads'][n])):
            c = copy.deepcopy(case)
            del c['threads'][n][m]
            yield c
    for m in range(len(case['warm'])):
        c = copy.deepcopy(case)
        del c['warm'][m]
        yield c


def run(case, ctx):
    cache = os.path.join(ctx.root, 'cache')
    if sum(op[0] not in ('again', 'ss', 'look', 'parse') for p in case['threads'] for op in p) >= 2:
        ctx.nontrivial = True

    def setup():
        from ieml.usl.usl import usl
        shared = {b: usl(b) for b in BASES}
        if case['copies']:
            # other instances of the same morphemes, as those of a dictionary read from a cache
            import pickle
            shared = pickle.loads(pickle.dumps(shared))
        mine = []
        warm = history(case['warm'], shared, mine)
        return {'shared': shared, 'mine': [list(mine) for _ in case['threads']], 'warm': warm}

    def fns_of(env):
        def make(i, p):
            return lambda: history(p, env['shared'], env['mine'][i])
        return [make(i, p) for i, p in enumerate(case['threads'])]

    def after(env):
        from ieml.usl.decoration.instance import InstancedUSL
        from ieml.usl.usl import usl
        bearing = []
        for b in BASES:
            for u in (env['shared'][b], usl(b)):
                for flexion in (False, True) if b[0] in '([' else (False,):
                    for p, c in u.iter_structure_path(flexion):
                        if c.get_literal() is not None:
                            bearing.append([b, str(p), c.get_literal()])
                    for d in InstancedUSL.list_decorations(u, flexion):
                        bearing.append([b, 'list_decorations', str(d)])
        end = [[[op, guarded(lambda: value_of(u)), guarded(lambda: again(u)),
                 guarded(lambda: ss_of(u))] for u, op in l] for l in env['mine']]
        return {'bearing': bearing, 'end': end, 'warm': env['warm']}

    totals = {}
    for n, s in enumerate(case['schedules']):
        key = (s['scope'], s['opcodes'])
        if key not in totals:
            threads.put_tables(cache, case['tables'])
            v = outcome(ctx, threads.execute(ctx, cache, setup, fns_of, after, s, 0), 'one after the other')
            verify(ctx, v, case, 'one after the other')
            totals[key] = v['steps']
        threads.put_tables(cache, case['tables'])
        v = outcome(ctx, threads.execute(ctx, cache, setup, fns_of, after, s, totals[key]), 'schedule {}'.format(n))
        ctx.trace('schedule', n, v['switches'], v['steps'])
        for sw in v['switches']:
            ctx.fault('preemption' if sw[3] not in ('waits', 'sleeps') else 'wait for a lock' if sw[3] == 'waits' else 'sleep')
            ctx.state(sw[3], sw[4])
        for fl in v['failed']:
            ctx.fault('failed allocation')
            ctx.trace('failed', list(fl))
        verify(ctx, v, case, 'with schedule {}, switches {}{}'.format(
            n, v['switches'][:12], ', failed allocations {}'.format(v['failed']) if v['failed'] else ''))


def outcome(ctx, o, what):
    if o.status != 'ok':
        ctx.violation('failed', '{}: {}\n{}'.format(what, o, o.tb))
    if o.value['stuck']:
        ctx.violation('stuck', '{}: {}'.format(what, o.value['stuck']))
    return o.value


def verify(ctx, v, case, what):
    for name, ops, results in [('before the threads', case['warm'], v['after']['warm'])] + [
            ('thread {}'.format(i), p, r) for i, (p, r) in enumerate(zip(case['threads'], v['results']))]:
        if results and results[0] == 'thread error':
            ctx.violation('thread-error', '{} {}: {}'.format(name, what, results))
        # the usls that the thread has created so far
        mine = [] if name == 'before the threads' else [op for op, r in zip(case['warm'], v['after']['warm']) if created(op, r)]
        for op, got in zip(ops, results):
            nested = op[0] == 'nested'
            if nested:
                op = op[3]
            where = '{} {}: {}'.format(name, what, op)
            if op[0] in ('again', 'ss', 'look'):
                if got is None:
                    continue
                n, r = got
                o = mine[n]
                exp = expected_ss(o[1], o[2]) if op[0] == 'ss' else expected(o[1], o[2])
                if not threads.same(r, exp):
                    ctx.violation('differs', '{} of {} gives {}, expected {}'.format(where, o, r, exp))
            elif op[0] == 'parse':
                if not threads.same(got, ['ok', REFERENCE['str', op[1]], []]):
                    ctx.violation('differs', '{} gives {}'.format(where, got))
            elif op[0] == 'not a decoration' or len(op) > 3:
                r = got[1] if got[0] == 'fault' else got
                if r[0] != 'error' or r[1] not in ('ValueError', 'DeferenceError', 'CannotParse') and got[0] != 'fault':
                    ctx.violation('accepted', '{} gives {}'.format(where, got))
                ctx.probe('failing creation')
            else:
                exp = expected(op[1], op[2])
                if not threads.same(got, exp):
                    ctx.violation('differs', '{} gives {}, expected {}'.format(where, got, exp))
                if created(op, got) and not nested:
                    mine.append(op)
                ctx.probe('creation')
        if name != 'before the threads':
            l = v['after']['end'][int(name.split()[1])]
            if [list(o) for o, _, _, _ in l] != [list(o) for o in mine]:
                raise HarnessError('the usls of {}: {} {}'.format(name, l, mine))
            for o, now, reread, ss in l:
                exp = expected(o[1], o[2])
                for got in (now, reread):
                    if got != exp:
                        ctx.violation('changed', 'at the end, {} created by {} {}: {}, expected {}'.format(o, name, what, got, exp))
                if ss != expected_ss(o[1], o[2]):
                    ctx.violation('changed', 'at the end, the singular sequences of {} created by {} {}: {}, expected {}'.format(
                        o, name, what, ss, expected_ss(o[1], o[2])))
    if v['after']['bearing']:
        ctx.violation('leaked', '{}: morphemes bear literals at the end: {}'.format(what, v['after']['bearing'][:5]))


def created(op, r):
    if op[0] in ('nested', 'again', 'ss', 'look', 'parse'):
        return False
    return (r[1] if r[0] == 'fault' else r)[0] == 'ok'
