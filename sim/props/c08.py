"""C08: a read that can't read everything raises; it never returns a part of the content."""
import os

from sim import pools, txn, ops as O
from sim.core import ERRNOS

LEVEL = 'fault_enumeration'
TECHNIQUE = 'seeded read faults in every process of a read'
RUNS = {'quick': 320, 'thorough': 12000}
RULE = ('a case is a seeded database, with a warm or cold cache, on which reads of every kind are done, each with one fault: an '
        'error or a kill at one of the reading operations (open, read of a file or pipe, stat, directory entry) of one of the processes of the read, a '
        'helper that fails or is killed when it starts, a process that can\'t be started, no file descriptor left. The '
        'operation hit is drawn among those counted without fault. non-trivial: a fault fired. distinct: by the digest of the '
        'reads, faults and outcomes')
STATES = 'distinct (read, fault, process hit, index of the operation hit, outcome)'
REAL = ['ieml.ieml_database (reads)', 'ieml.commons (caches)', 'ieml.dictionary', 'pandas', 'find, xargs, cat, sed, uniq, echo']
STUB = ['errors of open, read, stat and readdir, death of helpers (LD_PRELOAD seam)', 'start of subprocesses (audit hook)',
        'limit of open files (setrlimit)', 'order of directory entries', 'clock']
ASSUMPTIONS = ['a fault is reported by the system call (no silently wrong data)']
PROGS = ['find', 'xargs', 'cat', 'sed', 'uniq', 'echo']
READS = ['descriptors', 'descriptors', 'files', 'structure', 'list', 'list_type', 'parsed', 'dictionary', 'dictionary', 'all', 'all']


def prepare():
    from sim import world
    world.install()


def gen_content(rng, n):
    iemls = pools.some(rng, pools.USLS, rng.choice([2, 4, 8])) + pools.some(rng, txn.INSIDE, 2)
    return [O.gen_db_op(rng, iemls, 0.2, structure=0.15, remove=0.1) for _ in range(n)]


def gen_root(rng):
    root = rng.choice(['O:M:.', 'M:M:.O:.-', 'M:O:.', 'U:M:.', 'M:M:.u.-'])
    return [{'op': 'adds', 'ieml': root, 'key': 'is_root', 'value': 'True'},
            {'op': 'add', 'ieml': root, 'lang': 'fr', 'desc': 'translations', 'value': 'racine'}]


def generate(rng, i, tier):
    ops = []
    focused = rng.random() < 0.5
    # usls are only in the list when their morphemes are in the dictionary
    inside = ['U:M:.', 'A:M:.', 'O:S:.', 'U:S:.', 'A:B:.', 'U:S:. A:B:.', '(U:S:. A:S:.)', 'U:T:.', 'O:M:.']
    for _ in range(rng.choice([2, 3, 4])):
        body = gen_content(rng, rng.choice([0, 1, 2, 6]))
        if rng.random() < 0.35:
            body += gen_root(rng)
        if rng.random() < 0.05:
            body.append(O.gen_bulk(rng, pools.USLS))
        kind = rng.choice(['read', 'read', 'read', 'read', 'kill', 'exec', 'exec', 'spawn', 'nofile'])
        f = {'kind': kind, 'at': rng.randrange(1 << 20), 'errno': rng.choice(['EIO', 'EIO', 'EACCES', 'EMFILE', 'ENOMEM']),
             'prog': rng.choice(['', 'python', 'python', 'cat', 'find'])}
        if kind == 'kill':
            f['prog'] = rng.choice(['cat', 'find'])
        if kind == 'exec':
            f.update(prog=rng.choice(PROGS), how=rng.choice([1, 2]))
        if kind == 'nofile':
            f['spare'] = rng.randrange(14)
        what = rng.choice(READS)
        if what == 'files' and kind == 'exec':
            f['prog'] = rng.choice(['echo', 'cat', 'xargs'])
        opens = rng.choice([0, 1, 1, 2, 8, 8, 9])
        if kind == 'read' and rng.random() < 0.3:
            # the answers of the helpers can't be read
            opens, f['prog'], f['errno'] = 18, 'python', rng.choice(['EIO', 'ENOMEM'])
        if focused:
            # a small change since the cache was written, and a part of the files that can't be listed or read
            body = [{'op': 'add', 'ieml': x, 'lang': 'fr', 'desc': 'tags', 'value': pools.plain(rng)}
                    for x in pools.some(rng, inside, rng.choice([1, 1, 2]))]
            if not ops:
                body += [{'op': 'adds', 'ieml': 'O:M:.', 'key': 'is_root', 'value': 'True'}] + \
                    [{'op': 'add', 'ieml': 'O:M:.', 'lang': 'fr', 'desc': 'translations', 'value': 'racine'}]
            f.update(kind='read', prog='python', at=rng.choice([f['at'], rng.randrange(40)]))
            ops.append({'op': 'read', 'body': body, 'what': rng.choice(['dictionary', 'all', 'all', 'parsed']), 'fault': f,
                        'cache': True, 'type': 'morpheme', 'paradigm': None, 'warm': bool(ops), 'opens': rng.choice([0, 0, 1, 2, 2, 2, 8]),
                        'files': []})
            continue
        ops.append({'op': 'read', 'body': body, 'what': what, 'fault': f, 'cache': rng.random() < 0.6,
                    'type': rng.choice(['morpheme', 'word', 'polymorpheme']), 'paradigm': rng.choice([None, True, False]),
                    'warm': rng.random() < 0.6, 'opens': opens,
                    'files': pools.some(rng, pools.USLS, 3)})
    return {'ops': ops}


def read(db, op):
    from sim import describe
    w = op['what']
    if w == 'descriptors':
        return describe.rows(db.get_descriptors().df)
    if w == 'files':
        return describe.rows(db.get_descriptors(files_list=[os.path.relpath(db.path_of(f), db.folder) for f in op['files']]).df)
    if w == 'structure':
        return describe.rows(db.get_structure().df)
    if w == 'list':
        return sorted(db.list())
    if w == 'list_type':
        return sorted(db.list(op['type'], paradigm=op['paradigm']))
    if w == 'parsed':
        return sorted(str(u) for u in db.list(parse=True))
    if w == 'dictionary':
        return describe.dictionary(db.get_dictionary())
    return describe.usl_list(db.get_list())


def run(case, ctx):
    import resource
    from sim import world
    folder = os.path.join(ctx.root, 'db')
    os.makedirs(folder)

    def fresh(op, cache=False):
        return ctx.in_child(lambda: read(world.database(folder, use_cache=cache), op))

    for n, op in enumerate(case['ops']):
        if op['warm']:
            # a cache of the state before
            fresh(dict(op, what='all'), True)
        db = world.database(folder, use_cache=False)
        for o in op['body']:
            ctx.must('write', lambda: O.apply_db(db, o))
        f = op['fault']
        want = fresh(op)
        snap = ctx.snapshot(folder)

        def call():
            return read(world.database(folder, use_cache=op['cache']), op)

        hit, fired = -1, 0
        C = ctx.ctl
        k = f['kind']
        if k in ('read', 'kill'):
            def counting():
                # from here on: the pipes of the harness are not meant
                C.rf_count_on = 1
                return call()
            C.clear()
            C.rf_prog, C.rf_opens = f['prog'], int(op['opens'])
            ctx.in_child(counting)
            total = C.rf_counter
            C.clear()
            ctx.restore(snap)
            snap = ctx.snapshot(folder)
            hit = f['at'] % total if total else -1
            C.rf_prog, C.rf_opens, C.rf_at, C.rf_kind, C.rf_errno = \
                f['prog'], int(op['opens']), hit, 2 if k == 'kill' else 1, ERRNOS[f['errno']]
            o = ctx.in_child(counting)
            fired = C.rf_fired
            C.clear()
            name = '{} in {}'.format('kill' if k == 'kill' else f['errno'], f['prog'] or 'any process')
        elif k == 'exec':
            C.clear()
            C.ex_prog, C.ex_kind = f['prog'], f['how']
            o = ctx.in_child(call)
            fired = C.ex_fired
            C.clear()
            name = '{} {} at its start'.format(f['prog'], 'fails' if f['how'] == 1 else 'is killed')
        elif k == 'spawn':
            def counted():
                txn.arm_spawn(1 << 40)
                call()
                return txn._spawn['n']
            total = ctx.in_child(counted).value or 0
            ctx.restore(snap)
            snap = ctx.snapshot(folder)
            hit = f['at'] % total if total else -1

            def hurt():
                txn.arm_spawn(hit if hit >= 0 else 1 << 40)
                x = ctx.attempt(call)
                return x, txn.disarm_spawn()
            o = ctx.in_child(hurt)
            o, fired = o.value
            name = 'a subprocess does not start'
        else:
            def limited():
                used = max(int(x) for x in os.listdir('/proc/self/fd')) + 1
                resource.setrlimit(resource.RLIMIT_NOFILE, (used + f['spare'], resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
                return read(world.database(folder, use_cache=op['cache']), op)
            o = ctx.in_child(limited)
            fired = 1
            hit = f['spare']
            name = 'no file descriptor left'
        if fired:
            ctx.fault(name)
        what = '{} with {} (operation {}{})'.format(op['what'], name, n, ', event {}'.format(hit) if hit >= 0 else '')
        ctx.trace(op['what'], name, hit, fired, o.short)
        ctx.state(op['what'], name, hit, o.short)
        if o.status == 'ok':
            if want.status == 'ok' and o.value != want.value:
                ctx.violation('partial', 'read of {} returned {} instead of {}'.format(what, brief(o.value, want.value),
                                                                                       brief(want.value, o.value)))
            if want.status != 'ok' and fired:
                ctx.violation('partial', 'read of {} returned {}, without fault it is {}'.format(what, brief(o.value, None), want))
            ctx.probe('complete')
        elif o.status == 'exc':
            ctx.probe('raised')
            if not fired and want.status == 'ok':
                ctx.violation('unexpected-error', 'read of {} failed: {}\n{}'.format(what, o, o.tb))
        # the next reads are complete
        for cache in (True, False):
            for w in (op['what'], 'all'):
                a, b = fresh(dict(op, what=w), cache), (want if w == op['what'] else fresh(dict(op, what=w)))
                if a.status != b.status or a.value != b.value:
                    ctx.violation('sticky', 'after a read of {}, the next one ({}, {} cache) returns {} instead of {}'.format(
                        what, w, 'with' if cache else 'without', brief(a.value, b.value) if a.status == 'ok' else a,
                        brief(b.value, a.value) if b.status == 'ok' else b))


def brief(x, y):
    from collections import Counter
    if isinstance(x, Counter) and isinstance(y, Counter):
        return list((x - y).items())[:4]
    if isinstance(x, list) and isinstance(y, list):
        return [e for e in x if e not in y][:4]
    return repr(x)[:300]


def shrinks(case):
    import copy
    for i, op in enumerate(case['ops']):
        for j in range(len(op['body'])):
            c = copy.deepcopy(case)
            del c['ops'][i]['body'][j]
            yield c
