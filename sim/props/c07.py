"""C07: an answer that comes from a cache is the answer the files give."""
import os

from sim import pools, txn, ops as O
from sim.core import ERRNOS, gen_at, pick

LEVEL = 'fault_enumeration'
TECHNIQUE = 'seeded interleavings of readers and writers, damaged caches'
RUNS = {'quick': 360, 'thorough': 8000}
RULE = ('a case is a seeded history over a database and its caches: transactions, direct writes, pulls, resets, checkouts, reads '
        'by several handles and processes, reads killed or hit by an error while they write the cache, cache files truncated, '
        'replaced by garbage or by the pickle of another version, or put back from an earlier state, and writes that take place at a chosen point inside a read. '
        'non-trivial: a cached answer was compared after a change or a fault. distinct: by the digest of the history and answers')
REAL_FILE_TIMES = True      # it sets times by hand
STATES = 'distinct (operation before the read, cache present / absent / damaged, answer)'
REAL = ['ieml.commons (FolderWatcherCache, cache_results_watch_files)', 'ieml.ieml_database', 'ieml.dictionary', 'libgit2',
        'find, xargs, cat, sed, uniq', 'kernel file system (tmpfs)']
STUB = ['death of a process and errors of system calls (LD_PRELOAD seam)', 'the moment a writer runs inside a read (audit events)',
        'order of directory entries', 'clock']
ASSUMPTIONS = ['a damaged cache file is cut short, or is not a pickle; a file changed into another valid pickle can\'t be told',
               'during a read, the files do not change and then change back']
TIMEOUT = 90


def prepare():
    from sim import world
    world.install()


# inside the root paradigm O:M:. : these are in the list
INSIDE = ['U:M:.', 'A:M:.', 'O:S:.', 'U:S:.', 'A:B:.', 'U:S:. A:B:.', '(U:S:. A:S:.)', 'U:T:.', 'U:S:. [>constant>U:S:. "x"]']


def gen_change(rng, iemls, hist):
    r = rng.random()
    if r < 0.2:
        return {'op': 'swap', 'at': rng.randrange(1 << 20), 'h': rng.randrange(3)}
    big = [o['ieml'] for t in hist for o in t['body'] if o['op'] == 'bulk']
    if r < 0.2 + (0.4 if big else 0.08):
        # a large file, then changes at its end
        t = {'op': 'raw', 'body': [{'op': 'add', 'ieml': big[-1], 'lang': rng.choice(pools.LANGS), 'desc': rng.choice(pools.DESCS),
                                    'value': pools.plain(rng)} if big else O.gen_bulk(rng, INSIDE)]}
        hist.append(t)
        return {'op': 'write', 'body': t['body'], 'h': rng.randrange(3)}
    if r < 0.5:
        op = txn.gen_dict(rng)
        op.pop('raise_at', None)
        return {'op': 'txn', 'txn': op}
    if r < 0.7:
        t = txn.gen_raw(rng, iemls, hist)
        hist.append(t)
        return {'op': 'txn', 'txn': t}
    t = txn.gen_raw(rng, iemls + pools.some(rng, txn.INSIDE + txn.ROOTS, 2), hist, n=rng.choice([1, 1, 2]))
    hist.append(t)
    return {'op': 'write', 'body': t['body'], 'h': rng.randrange(3)}


def generate(rng, i, tier):
    iemls = pools.some(rng, pools.USLS, rng.choice([1, 2, 4])) + pools.some(rng, INSIDE, rng.choice([1, 2, 4]))
    hist = []
    ops = [{'op': 'txn', 'txn': {'op': 'root', 'script': rng.choice(['O:M:.', 'O:M:.', 'O:M:.', 'M:M:.O:.-', 'U:M:.', 'M:O:.', 'M:M:.u.-',
                                                                    'O:M:.M:M:.-+M:M:.O:M:.-']),
                                 'inhibitions': [], 'tr': {'fr': ['racine'], 'en': ['root']}, 'co': {'fr': [], 'en': []}}}]
    for _ in range(rng.choice([3, 5, 8])):
        r = rng.random()
        if r < 0.5:
            ops.append(gen_change(rng, iemls, hist))
        elif r < 0.6:
            ops.append({'op': rng.choice(['reset', 'checkout', 'pull', 'checkout']), 'at': rng.randrange(100)})
        elif r < 0.7:
            ops.append({'op': 'damage', 'how': rng.choice(['cut', 'cut', 'empty', 'garbage', 'old', 'extra', 'class', 'class']),
                        'at': rng.randrange(1000)})
        elif r < 0.82:
            ops.append({'op': 'badread', 'kind': rng.choice(['crash_before', 'crash_after', 'torn', 'errno', 'errno_forever']),
                        'errno': rng.choice(['ENOSPC', 'EIO', 'EACCES']), 'at': gen_at(rng), 'torn': rng.randrange(256),
                        'change': gen_change(rng, iemls, hist) if rng.random() < 0.85 else None,
                        'what': rng.choice(['dictionary', 'list', 'both'])})
        else:
            ops.append({'op': 'race', 'at': rng.randrange(1 << 20), 'change': gen_change(rng, iemls, hist) if rng.random() < 0.85 else None,
                        'reader': rng.choice([None, None, 'before', 'after']), 'first': gen_change(rng, iemls, hist)
                        if rng.random() < 0.5 else None,
                        'what': rng.choice(['dictionary', 'list', 'both'])})
        ops[-1]['read'] = [rng.choice(['h0', 'h1', 'process']) for _ in range(rng.choice([0, 1, 1, 2]))]
    ops[-1]['read'] = ['h0', 'process']
    return {'ops': ops, 'separate_cache': rng.random() < 0.4, 'tick': rng.choice([0, 0, 1, 3600, -60])}


def read(db, what='both'):
    from sim import describe
    res = {}
    if what != 'list':
        res['dictionary'] = describe.dictionary(db.get_dictionary())
    if what != 'dictionary':
        res['list'] = describe.usl_list(db.get_list())
    return res


def run(case, ctx):
    import json
    import shutil
    from sim import world, inject
    from sim.zygote import Zygote
    folder = os.path.join(ctx.root, 'A')
    cache_folder = os.path.join(ctx.root, 'cache') if case['separate_cache'] else None
    cdir = cache_folder or folder

    def both(_):
        """The two answers, each without any cache, errors included"""
        db = world.database(folder, use_cache=False)
        return ctx.attempt(lambda: read(db, 'dictionary')), ctx.attempt(lambda: read(db, 'list'))

    def cached(db):
        return ctx.attempt(lambda: read(db, 'dictionary')), ctx.attempt(lambda: read(db, 'list'))

    fresh = Zygote(ctx, both)
    other = Zygote(ctx, lambda _: cached(world.database(folder, cache_folder=cache_folder)))

    origin = world.make_origin(os.path.join(ctx.root, 'origin.git'))
    g = ctx.must('clone', lambda: world.open_replica(origin, folder))
    b = None
    handles = [world.database(folder, cache_folder=cache_folder) for _ in range(2)] + [world.database(folder, use_cache=False)]
    commits = [world.head(folder)]
    saved = []

    def caches():
        return sorted(n for n in os.listdir(cdir) if '-cache.' in n) if os.path.isdir(cdir) else []

    def change(op):
        if op['op'] == 'txn':
            return ctx.attempt(lambda: txn.apply_txn(g, op['txn'], True, cache_folder))
        if op['op'] == 'swap':
            # another value of the same length
            all_ = sorted(e for e in world.workdir_content(folder) if e[0] == 'D' and e[4][-1:].isalnum())
            if all_:
                _, ieml, lang, desc, value = all_[op['at'] % len(all_)]
                new = value[:-1] + ('x' if value[-1] != 'x' else 'y')
                for o in ({'op': 'rm', 'value': value}, {'op': 'add', 'value': new}):
                    ctx.must('write', lambda: O.apply_db(handles[op['h']], dict(o, ieml=ieml, lang=lang, desc=desc)))
        for o in op.get('body', []):
            ctx.must('write', lambda: O.apply_db(handles[op['h']], o))
        stamp()

    seconds = [1600000000]

    def stamp():
        """The file times, of a disk with times in seconds and a clock that may stand still or go back"""
        for dirpath, dirs, files in os.walk(folder):
            if '.git' in dirs:
                dirs.remove('.git')
            for f in files:
                if not f.startswith('.'):
                    os.utime(os.path.join(dirpath, f), (seconds[0], seconds[0]))

    def compare(who, after):
        f = fresh(None).value
        got = other(None).value if who == 'process' else cached(handles[int(who[1])])
        for name, a, c in zip(('dictionary', 'list'), f, got):
            if a.status != c.status or a.value != c.value or (a.status == 'exc' and a.exc != c.exc):
                ctx.violation('stale', 'after {}, get_{} with a cache ({}) is not what the files give: {}'.format(
                    after, name, who, explain(a, c)))
        ctx.probe('compared')
        ctx.state(after.split(' ')[0], len(caches()), repr(f[1].value or f[1].exc)[:2000])

    def explain(a, c):
        if a.status != c.status or a.status == 'exc':
            return '{!r} instead of {!r} {}'.format(c, a, c.tb or '')
        for k in a.value:
            if a.value[k] != c.value.get(k):
                x, y = a.value[k], c.value[k]
                if isinstance(x, dict):
                    return {n: {'cached': y[n], 'files': x[n]} for n in x if x[n] != y.get(n)}
                return {'cached': [e for e in y if e not in x][:3], 'files': [e for e in x if e not in y][:3]}

    for n, op in enumerate(case['ops']):
        k = op['op']
        after = '{} (operation {})'.format(k, n)
        seconds[0] += case.get('tick', 0)
        if k in ('txn', 'write', 'swap'):
            if k == 'txn' and ctx.must('status', g.status):
                g.reset()
            o = change(op)
            ctx.trace(k, o.short if o else '')
        elif k == 'reset':
            ctx.must('reset', g.reset)
            ctx.trace(k)
        elif k == 'checkout':
            c = commits[op['at'] % len(commits)]
            ctx.must('checkout', lambda: g.checkout(None, c))
            ctx.trace(k, commits.index(c))
        elif k == 'pull':
            if b is None:
                b = ctx.must('clone', lambda: world.open_replica(origin, os.path.join(ctx.root, 'B')))
            ctx.must('reset', g.reset)
            ctx.must('transaction', lambda: txn.apply_txn(b, {'op': 'raw', 'body': [
                {'op': 'add', 'ieml': 'U:M:.', 'lang': 'fr', 'desc': 'translations', 'value': 'remote{}'.format(n)},
                {'op': 'add', 'ieml': 'a. b.', 'lang': 'fr', 'desc': 'tags', 'value': 'remote{}'.format(n)}]}, False))
            ctx.must('push', b.push)
            ctx.must('pull', g.pull)
            ctx.trace(k)
        elif k == 'damage':
            c = caches()
            if c:
                p = os.path.join(cdir, c[op['at'] % len(c)])
                data = open(p, 'rb').read()
                if op['how'] == 'cut':
                    data = data[:op['at'] * len(data) // 1000]
                elif op['how'] == 'empty':
                    data = b''
                elif op['how'] == 'garbage':
                    data = b'\xff\x00garbage' * (op['at'] % 7 + 1)
                elif op['how'] == 'class':
                    # written by a version of the library where a class or a module has another name
                    names = [m for m in (b'ieml.dictionary.script', b'ieml.dictionary.table', b'MultiplicativeScript', b'Dictionary',
                                         b'OrderedDict', b'pandas.core') if m in data] or [data[:1]]
                    m = names[op['at'] % len(names)]
                    data = data.replace(m, m[:-1] + b'_')
                if op['how'] == 'old' and saved:
                    name, data = saved[op['at'] % len(saved)]
                    p = os.path.join(cdir, name)
                elif op['how'] == 'extra':
                    p = os.path.join(cdir, c[0].rsplit('.', 1)[0] + '.' + '0' * 32)
                    data = data[:20]
                with open(p, 'wb') as fp:
                    fp.write(data)
                ctx.fault('cache file: ' + op['how'])
            ctx.trace(k, op['how'], len(c))
        elif k == 'badread':
            if op.get('change'):
                if op['change']['op'] == 'txn' and ctx.must('status', g.status):
                    g.reset()
                change(op['change'])
            call = lambda: read(world.database(folder, cache_folder=cache_folder), op['what'])
            snap = ctx.snapshot(*(({cdir} if cache_folder else {folder})))
            n_events, o = ctx.count_events(call)
            ctx.restore(snap)
            hit = pick(op['at'], n_events)
            o = ctx.in_child(call, {'at': hit, 'kind': op['kind'], 'torn': op['torn'], 'errno': ERRNOS[op['errno']]})
            if n_events:
                ctx.fault({'errno': 'errno ' + op['errno'], 'errno_forever': 'errno {} from then on'.format(op['errno'])}.get(
                    op['kind'], 'kill while writing the cache'))
            if o.status == 'ok':
                f = fresh(None).value
                for name, a in zip(('dictionary', 'list'), f):
                    if name in o.value and (a.status != 'ok' or a.value[name] != o.value[name]):
                        ctx.violation('stale', 'a read whose cache could not be written is wrong')
            ctx.trace(k, hit, n_events, o.short)
        elif k == 'race':
            target = lambda: ctx.attempt(lambda: read(handles[0], op['what']))
            if ctx.must('status', g.status):
                g.reset()
            if op.get('first'):
                first = op['first']
                change(first if 'body' not in first else {'op': 'txn', 'txn': {'op': 'raw', 'body': first['body']}})

            def meanwhile():
                if op.get('reader') == 'before':
                    other(None)
                if op.get('change'):
                    change(op['change'])
                if op.get('reader') == 'after':
                    other(None)

            def count():
                inject.during(target, -1, None, ctx.root)
                return inject.events()[0]

            snap = ctx.snapshot(*(({cdir} if cache_folder else {folder})))
            n_events = ctx.in_child(count).value
            ctx.restore(snap)
            if n_events:
                fired, _ = inject.during(target, op['at'] % n_events, meanwhile, ctx.root)
                ctx.trace(k, op['at'] % n_events, n_events, fired)
                if fired:
                    ctx.fault('write inside a read')
            after = 'race: a write at event {} of {} of a read (operation {})'.format(op['at'] % max(1, n_events), n_events, n)
        stamp()
        if world.head(folder) not in commits:
            commits.append(world.head(folder))
        for c in caches():
            if len(saved) < 12 and c not in [s[0] for s in saved]:
                saved.append((c, open(os.path.join(cdir, c), 'rb').read()))
        for who in op.get('read', []):
            compare(who, after)
            ctx.nontrivial = True


def shrinks(case):
    import copy
    for i, op in enumerate(case['ops']):
        body = op.get('body') or op.get('txn', {}).get('body')
        if body and len(body) > 1:
            for j in range(len(body)):
                c = copy.deepcopy(case)
                b = c['ops'][i].get('body') or c['ops'][i]['txn']['body']
                del b[j]
                yield c
        for j in range(len(op.get('read', []))):
            c = copy.deepcopy(case)
            del c['ops'][i]['read'][j]
            yield c
