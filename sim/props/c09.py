"""C09: what a text is parsed to does not depend on the stored parser tables."""
import io
import os
import pickle
import random
import shutil
import signal

from sim import pools
from sim.core import ERRNOS, HarnessError, Outcome, gen_at, pick

LEVEL = 'fault_enumeration'
TECHNIQUE = 'seeded table files, kills, disk errors and interleavings of starting processes'
RUNS = {'quick': 480, 'thorough': 12000}
RULE = ('a case is a seeded list of steps on one cache folder: a process starts and parses texts (each file operation on the tables can be '
        'killed, torn, shortened or fail, each reading of them can fail, or the process can be stopped there while other steps take place, '
        'then go on), a table file is cut, emptied, replaced by garbage, by a folder, by the file of another parser, by the tables '
        'of another grammar or of another version, or removed. Every process that ends must give, for each text, the '
        'outcome that a process with an empty cache folder gives; the last process parses all the texts. non-trivial: a fault or a '
        'damaged file took place. distinct: by the digest of the steps and outcomes')
STATES = 'distinct (which table files are there, valid or damaged and how; fault, file operation hit, outcome of the process)'
REAL = ['ieml.commons (build_parser)', 'the three parsers and their lexers', 'ply', 'kernel file system (tmpfs)']
STUB = ['death, stop and errors of system calls (LD_PRELOAD seam)', 'the start of a process: fork of a worker that has imported the '
        'third party modules, then import of ieml']
ASSUMPTIONS = ['the cache folder exists or can be created', 'a damaged table file is cut short, is not a pickle, or holds the tables of another '
               'grammar under its own signature; a file changed into other tables with the signature of this grammar can\'t be told',
               'two processes that run at the same time have the same version of the code']
TIMEOUT = 90

TEXTS = [['script', t] for t in pools.SCRIPT_TEXTS + pools.BAD_SCRIPTS] + \
        [['usl', t] for t in pools.USL_TEXTS + pools.BAD_USLS + pools.DECORATED_TEXTS[:9] + pools.SCRIPT_TEXTS[:12]] + \
        [['path', t] for t in pools.PATH_TEXTS + pools.BAD_PATHS]
HOWS = ['cut', 'cut', 'cut', 'empty', 'garbage', 'dir', 'swap', 'other', 'other', 'other-cut', 'version', 'tail', 'remove']

REFERENCE = {}
PRISTINE = {}


def prepare():
    from sim import fresh, core
    fresh.preload()
    import tempfile
    d = tempfile.mkdtemp(prefix='ref')
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            res = process(d, TEXTS)
        except BaseException as e:
            res = repr(e)
        with os.fdopen(w, 'wb') as fp:
            pickle.dump(res, fp)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        res = pickle.load(fp)
    os.waitpid(pid, 0)
    if isinstance(res, str):
        raise HarnessError('the reference: ' + res)
    REFERENCE.update(zip(map(tuple, TEXTS), res))
    for f in files(d):
        PRISTINE[os.path.relpath(f, d)] = open(f, 'rb').read()
    shutil.rmtree(d)


def files(cache):
    res = []
    for dirpath, dirs, names in os.walk(cache):
        dirs.sort()
        res += [os.path.join(dirpath, n) for n in sorted(names)]
    return res


def process(cache, texts, hook=None):
    from sim import fresh, parse
    fresh.start(cache)
    res = []
    for n, (k, t) in enumerate(texts):
        if hook:
            hook(n)
        res.append(parse.outcome(k, t))
    return res


# ---------------------------------------------------------------- cases

def gen_texts(rng):
    kinds = rng.choice([('usl',), ('usl', 'script'), ('script',), ('path',), ('usl', 'script', 'path')])
    return [pools.gen_text(rng, 0.2, kinds) for _ in range(rng.choice([1, 2, 3]))]


def gen_damage(rng):
    return {'op': 'damage', 'how': rng.choice(HOWS), 'file': rng.randrange(6), 'at': rng.randrange(1 << 20)}


def gen_start(rng, depth=0):
    op = {'op': 'start', 'texts': gen_texts(rng)}
    r = rng.random()
    if depth or r < 0.2:
        return op
    f = {'at': gen_at(rng)}
    if r < 0.45:
        f.update(kind=rng.choice(['crash_before', 'crash_after', 'torn', 'torn', 'torn']), torn=rng.randrange(256))
    elif r < 0.6:
        f.update(kind=rng.choice(['errno', 'errno', 'errno_forever', 'short']), torn=rng.randrange(256),
                 errno=rng.choice(['ENOSPC', 'EIO', 'EACCES', 'EROFS', 'EDQUOT']))
    elif r < 0.72:
        f.update(kind='read', errno=rng.choice(['EIO', 'EACCES', 'EMFILE', 'ENOMEM']))
    else:
        f.update(kind=rng.choice(['stop', 'stop', 'stop-read', 'stop-text']),
                 steps=[gen_damage(rng) if rng.random() < 0.4 else gen_start(rng, 1) for _ in range(rng.choice([1, 1, 2]))])
    op['fault'] = f
    return op


def generate(rng, i, tier):
    ops = []
    if rng.random() < 0.06:
        # the first processes of a user: the folder itself is to be made
        f = {'kind': rng.choice(['stop', 'stop', 'crash_before', 'crash_after']), 'at': rng.randrange(8), 'torn': 0, 'whole': True,
             'steps': [gen_start(rng, 1) for _ in range(rng.choice([1, 1, 2]))]}
        return {'ops': [{'op': 'start', 'texts': gen_texts(rng), 'fault': f}, gen_start(rng)], 'initial': 'absent',
                'order': rng.randrange(1 << 20)}
    for _ in range(rng.choice([1, 2, 3, 4] if tier == 'quick' else [2, 3, 5, 8])):
        ops.append(gen_damage(rng) if rng.random() < 0.5 else gen_start(rng))
    if ops[-1]['op'] == 'damage':
        ops.append(gen_start(rng))
    return {'ops': ops, 'initial': rng.choice(['absent', 'valid', 'valid']), 'order': rng.randrange(1 << 20)}


def shrinks(case):
    import copy
    for n, op in enumerate(case['ops']):
        if op['op'] == 'start':
            if op.get('fault'):
                c = copy.deepcopy(case)
                del c['ops'][n]['fault']
                yield c
                for m in range(len(op['fault'].get('steps', []))):
                    c = copy.deepcopy(case)
                    del c['ops'][n]['fault']['steps'][m]
                    yield c
            for m in range(len(op['texts'])):
                if len(op['texts']) > 1:
                    c = copy.deepcopy(case)
                    del c['ops'][n]['texts'][m]
                    yield c


# ---------------------------------------------------------------- table files

def objects(data):
    """The objects pickled one after the other, or None"""
    fp = io.BytesIO(data)
    res = []
    try:
        while fp.tell() < len(data):
            res.append(pickle.load(fp))
    except Exception:
        return None
    return res


def altered(data, seed, version=False):
    """Tables that a previous grammar (or version of ply) could have left: another signature, other actions"""
    l = objects(data)
    if not l or len(l) != 6:
        return None
    rng = random.Random(seed)
    if version:
        l[0] = '3.8'
    else:
        l[2] = l[2][:-1] + 'x' if l[2] else 'x'
    for t in (3, 4):
        d = l[t]
        if isinstance(d, dict):
            states = sorted(d)
            for _ in range(3):
                a, b = rng.choice(states), rng.choice(states)
                d[a], d[b] = d[b], d[a]
    if isinstance(l[5], list) and len(l[5]) > 3:
        a, b = rng.randrange(1, len(l[5])), rng.randrange(1, len(l[5]))
        l[5][a], l[5][b] = l[5][b], l[5][a]
    return b''.join(pickle.dumps(x, 2) for x in l)


def damage(cache, op):
    names = sorted(set(PRISTINE))
    if not names:
        return 'none'
    name = names[op['file'] % len(names)]
    p = os.path.join(cache, name)
    data = PRISTINE[name]
    how = op['how']
    if how == 'remove':
        if os.path.isdir(p):
            shutil.rmtree(p)
        elif os.path.exists(p):
            os.remove(p)
        return how
    if how == 'dir':
        if os.path.isfile(p):
            os.remove(p)
        os.makedirs(p, exist_ok=True)
        return how
    if how == 'cut':
        data = data[:op['at'] % len(data)]
    elif how == 'empty':
        data = b''
    elif how == 'garbage':
        data = [b'\xff\x00garbage', b'(', b'\x80\x04.', b'not a pickle\n', data[100:]][op['at'] % 5]
    elif how == 'swap':
        data = PRISTINE[names[(op['file'] + 1 + op['at'] % 2) % len(names)]]
    elif how in ('other', 'version', 'other-cut'):
        data = altered(data, op['at'], how == 'version')
        if data is None:
            return 'none'
        if how == 'other-cut':
            data = data[:len(data) - 1 - op['at'] % (len(data) // 2)]
    elif how == 'tail':
        data = data + b'tail'
    if os.path.isdir(p):
        shutil.rmtree(p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as fp:
        fp.write(data)
    return how


def state_of(cache):
    res = []
    for name in sorted(PRISTINE):
        p = os.path.join(cache, name)
        if os.path.isdir(p):
            res.append('dir')
        elif not os.path.exists(p):
            res.append('absent')
        else:
            data = open(p, 'rb').read()
            res.append('valid' if data == PRISTINE[name] else 'cut{}'.format(8 * len(data) // len(PRISTINE[name]))
                       if PRISTINE[name].startswith(data) else 'other')
    return tuple(res)


# ---------------------------------------------------------------- run

class Stopped:
    """A process stopped somewhere in its life"""

    def __init__(self, ctx, fn, before):
        self.ctx = ctx
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r)
                before()
                o = ctx.attempt(fn)
                ctx.ctl.clear()
                with os.fdopen(w, 'wb') as fp:
                    pickle.dump(o, fp)
            finally:
                os._exit(0)
        os.close(w)
        self.r = r
        _, status = os.waitpid(self.pid, os.WUNTRACED)
        self.stopped = os.WIFSTOPPED(status)
        self.status = status

    def resume(self):
        if self.stopped:
            os.kill(self.pid, signal.SIGCONT)
            self.data = b''
            with os.fdopen(self.r, 'rb') as fp:
                self.data = fp.read()
            os.waitpid(self.pid, 0)
        else:
            with os.fdopen(self.r, 'rb') as fp:
                self.data = fp.read()
        if not self.data:
            raise HarnessError('the stopped process died: {}'.format(self.status))
        return pickle.loads(self.data)


def run(case, ctx):
    cache = os.path.join(ctx.root, 'cache')
    os.makedirs(cache)
    if case['initial'] == 'valid':
        for name, data in PRISTINE.items():
            os.makedirs(os.path.dirname(os.path.join(cache, name)), exist_ok=True)
            with open(os.path.join(cache, name), 'wb') as fp:
                fp.write(data)
    C = ctx.ctl

    def check(texts, o, what):
        if o.status != 'ok':
            ctx.violation('failed', 'the process {} ended with {}\n{}'.format(what, o, o.tb or ''))
        for (k, t), got in zip(texts, o.value):
            want = REFERENCE.get((k, t))
            if want is None:
                raise HarnessError('no reference for {} {!r}'.format(k, t))
            if want != got:
                ctx.violation('depends', 'the process {} parses the {} {!r} to {}, with an empty cache it is {}'.format(what, k, t, got, want))
            ctx.probe('parsed')

    def step(op, where, inner=False):
        if op['op'] == 'damage':
            how = damage(cache, op)
            if how != 'none':
                ctx.fault('table file: ' + how)
            ctx.trace(where, 'damage', how, state_of(cache))
            return
        texts = op['texts']
        call = lambda: process(cache, texts)
        f = op.get('fault')
        before = state_of(cache)
        if f is None:
            o = ctx.in_child(call)
            check(texts, o, 'of ' + where)
            ctx.trace(where, 'start', state_of(cache))
            ctx.state(before, None)
            return
        parsers = os.path.join(cache, 'ieml')
        kind = f['kind']
        snap = None
        hit = -1
        if kind in ('read', 'stop-read'):
            def counted():
                C.clear()
                C.rf_opens, C.rf_count_on = 5, 1
                try:
                    return call()
                finally:
                    C.rf_count_on = 0
            snap = ctx.snapshot(cache)
            ctx.in_child(counted)
            n = C.rf_counter
            ctx.restore(snap)
            hit = pick(f['at'], n)

            def arm():
                C.clear()
                C.rf_opens, C.rf_at, C.rf_kind, C.rf_errno = 5, hit, 1 if kind == 'read' else 3, ERRNOS[f.get('errno', 'EIO')]
                C.rf_count_on = 1
        elif f.get('whole'):
            snap = ctx.snapshot(cache)
            n, _ = ctx.count_events(call, cache)
            ctx.restore(snap)
            scope, hit = cache, pick(f['at'], n)

            def arm():
                C.arm(os.getpid(), at=hit, kind=kind, scope=scope)
        elif kind != 'stop-text':
            # the folder can be created: only what is inside counts
            snap = ctx.snapshot(cache)
            def import_only():
                from sim import fresh
                fresh.start(cache)
            ctx.in_child(import_only)
            folder = {os.path.dirname(os.path.join(cache, n)) for n in PRISTINE}
            snap2 = ctx.snapshot(cache)
            scope = sorted(folder)[0] + '/' if len(folder) == 1 else cache
            if len(folder) == 1:
                scope = sorted(folder)[0]
            n, _ = ctx.count_events(call, scope)
            ctx.restore(snap2)
            hit = pick(f['at'], n)

            def arm():
                C.arm(os.getpid(), at=hit, kind=kind, torn=f.get('torn', 0), errno=ERRNOS[f.get('errno', 'EIO')], scope=scope)
        if kind.startswith('stop'):
            if kind == 'stop-text':
                at = f['at'] % len(texts)
                call = lambda: process(cache, texts, lambda i: os.kill(os.getpid(), signal.SIGSTOP) if i == at else None)
                hit = at

                def arm():
                    pass
            s = Stopped(ctx, call, arm)
            C.clear()
            if s.stopped:
                ctx.fault('process stopped: ' + kind)
                for m, inner_op in enumerate(f['steps']):
                    step(inner_op, '{}.{}'.format(where, m), True)
            o = s.resume()
            C.clear()
            check(texts, o, 'of {} (stopped at {} {})'.format(where, kind, hit))
            ctx.trace(where, kind, hit, s.stopped, state_of(cache))
            ctx.state(before, kind, hit, state_of(cache))
            return
        if kind == 'read':
            def faulty():
                arm()
                try:
                    return call()
                finally:
                    C.rf_count_on = 0
            o = ctx.in_child(faulty)
            fired = C.rf_fired
            C.clear()
        else:
            o = ctx.in_child(call, {'at': hit, 'kind': kind, 'torn': f.get('torn', 0), 'errno': ERRNOS[f.get('errno', 'EIO')],
                                    'scope': scope})
            fired = C.fired
            C.clear()
        if fired:
            ctx.fault({'read': 'reading the tables: ' + f.get('errno', '')}.get(kind, kind + (' ' + f['errno'] if 'errno' in kind else '')))
        if o.status != 'crash':
            check(texts, o, 'of {} ({} at {})'.format(where, kind, hit))
        ctx.trace(where, kind, hit, fired, o.short, state_of(cache))
        ctx.state(before, kind, hit, state_of(cache))

    for n, op in enumerate(case['ops']):
        step(op, 'step {}'.format(n))

    rng = random.Random(case['order'])
    for last in range(2):
        texts = list(TEXTS)
        rng.shuffle(texts)
        texts = texts[:30] if last else texts
        o = ctx.in_child(lambda: process(cache, texts))
        check(texts, o, 'started after the steps')
        ctx.trace('last', state_of(cache))
