"""C01: atomicity of transactions under application errors and I/O errors."""
import os

from sim import pools, txn, ops as O
from sim.core import ERRNOS, READ_FAULTS, gen_at, pick

LEVEL = 'fault_enumeration'
TECHNIQUE = 'seeded disk and subprocess faults and exceptions inside transactions'
RUNS = {'quick': 1200, 'thorough': 10000}
RULE = ('a case is a seeded history of transactions, each with at most one fault plan: an exception raised by the code '
        'inside it, an errno at the k-th file operation (once, twice or from then on), a short write, a stat or a listing that '
        'fails (once, or of that path from then on), a subprocess that does not start; k is drawn among the operations counted in a run without fault. non-trivial: at least one fault '
        'fired inside a transaction. distinct: by the digest of operations, outcomes and faults')
STATES = 'distinct (kind of transaction, kind of fault, index of the operation hit, outcome)'
REAL = ['ieml.ieml_database (GitInterface, git_transaction, IEMLDatabase, DBTransactions)', 'libgit2', 'find, xargs, cat, sed, uniq',
        'kernel file system (tmpfs)']
STUB = ['errors of system calls (LD_PRELOAD seam)', 'start of subprocesses (audit hook)', 'order of directory entries', 'clock']
ASSUMPTIONS = ['one process works on the folder at a time', 'an error that the kernel reports only later (fsync) is not simulated: '
               'the library never syncs']


def prepare():
    from sim import world
    world.install()


def generate(rng, i, tier):
    iemls = pools.some(rng, pools.USLS, rng.choice([2, 4, 6]))
    ops = [txn.gen_raw(rng, iemls, n=rng.choice([2, 4, 8]))]
    for _ in range(rng.choice([1, 2, 3, 4])):
        if rng.random() < 0.15:
            op = {'op': 'dirty', 'body': txn.gen_raw(rng, iemls, ops, n=rng.choice([1, 1, 2]))['body'],
                  'txn': txn.gen_txn(rng, iemls, ops)}
        else:
            op = txn.gen_txn(rng, iemls, ops)
            if not op.get('raise') and rng.random() < 0.8 or rng.random() < 0.15:
                kind = rng.choice(['errno', 'errno', 'errno', 'errno_forever', 'second', 'short', 'spawn'] + list(READ_FAULTS))
                op['fault'] = {'kind': kind, 'at': gen_at(rng),
                               'errno': rng.choice(['EIO', 'ENOSPC', 'EACCES', 'EDQUOT'])}
                if kind == 'second':
                    op['fault']['gap'] = rng.randrange(1, 40)
                if kind == 'short':
                    op['fault']['torn'] = rng.randrange(256)
        ops.append(op)
    return {'ops': ops, 'use_cache': rng.random() < 0.7, 'separate_cache': rng.random() < 0.3,
            'branch': rng.choice(pools.BRANCHES), 'branches': rng.random() < 0.3}


def check_state(ctx, what, g, folder, content, head_, kind):
    from sim import world
    d = world.dirty(folder)
    if d:
        ctx.violation(kind, '{}: the working directory is not clean: {}'.format(what, d[:5]))
    s = ctx.must('status', g.status)
    if s:
        ctx.violation(kind, '{}: status() is {}'.format(what, s))
    got = world.workdir_content(folder)
    if got != content:
        ctx.violation(kind, '{}: wrong content, {}'.format(what, world.difference(got, content)))
    h = world.head(folder)
    if head_ is not None and h != head_:
        ctx.violation(kind, '{}: the current commit is another one'.format(what))


def check_committed(ctx, what, folder, h0):
    from sim import world
    h = world.head(folder)
    if h != h0:
        if world.parents(folder) != [h0]:
            ctx.violation('wrong-commit', '{}: not one commit on top of the one it started from'.format(what))
    hidden = [p for p in world.commit_files(folder) if os.path.basename(p).startswith('.') or not
              (p.endswith('.desc') or p.endswith('.ieml') or p == 'README')]
    if hidden:
        ctx.violation('wrong-commit', '{}: committed {}'.format(what, hidden[:4]))


def run(case, ctx):
    from sim import world
    from sim.model import Model
    branch = case['branch']
    origin = world.make_origin(os.path.join(ctx.root, 'origin.git'), branch)
    folder = os.path.join(ctx.root, 'A')
    g = ctx.must('clone', lambda: world.open_replica(origin, folder, branch=branch))
    if case['branches']:
        world.add_branches(folder)
    others = world.other_branches(folder)
    cache_folder = os.path.join(ctx.root, 'cache') if case['separate_cache'] else None
    uc = case['use_cache']

    for n, op in enumerate(case['ops']):
        what = 'transaction {} ({})'.format(n, op['op'])
        s0, h0 = world.workdir_content(folder), world.head(folder)

        if op['op'] == 'dirty':
            db = world.database(folder, use_cache=False)
            for o in op['body']:
                ctx.must('write', lambda: O.apply_db(db, o))
            d = world.dirty(folder)
            s1 = world.workdir_content(folder)
            if d:
                o = ctx.attempt(lambda: txn.apply_txn(g, {'op': 'raw', 'body': []}, uc, cache_folder))
                if o.status == 'ok':
                    ctx.violation('dirty-start', 'a transaction started with uncommitted changes in {}'.format(d[:3]))
                o = ctx.attempt(lambda: txn.apply_txn(g, op['txn'], uc, cache_folder))
                if world.workdir_content(folder) != s1 or world.head(folder) != h0:
                    ctx.violation('dirty-start', 'a transaction refused on a dirty directory changed it ({})'.format(o))
                ctx.probe('dirty_start_refused')
                ctx.fault('dirty start')
            ctx.must('reset', g.reset)
            check_state(ctx, 'reset', g, folder, s0, h0, 'reset')
            ctx.trace('dirty', len(d))
            continue

        fault = op.get('fault')
        s1 = None
        call = lambda: txn.apply_txn(g, op, uc, cache_folder)
        if op['op'] == 'raw' and not op.get('raise'):
            m = Model(s0)
            for o in op['body']:
                O.apply_model(m, o)
            s1 = m.c
        plan = None
        if fault:
            # what it does without the fault, on the side
            snap = ctx.snapshot(folder, cache_folder or os.path.join(ctx.root, 'cache'))
            if fault['kind'] == 'spawn':
                def counted():
                    txn.arm_spawn(1 << 40)
                    try:
                        call()
                    finally:
                        ctx.spawns = txn._spawn['n']
                    return ctx.spawns
                o = ctx.in_child(counted)
                n_events = o.value if o.status == 'ok' else 8
            elif fault['kind'] in READ_FAULTS:
                ctx.arm_reads(fault['kind'], folder)
                o = ctx.in_child(call)
                n_events, _ = ctx.end_reads()
            else:
                n_events, o = ctx.count_events(call)
            ref = world.workdir_content(folder)
            alone = o
            ctx.restore(snap)
            if s1 is None:
                s1 = ref
            elif o.status == 'ok' and ref != s1:
                ctx.violation('wrong-effect', '{}: {}'.format(what, world.difference(ref, s1)))
            if n_events:
                k = pick(fault['at'], n_events)
                if fault['kind'] == 'spawn':
                    txn.arm_spawn(k)
                elif fault['kind'] in READ_FAULTS:
                    ctx.arm_reads(fault['kind'], folder, k, ERRNOS[fault['errno']])
                elif fault['kind'] == 'second':
                    plan = dict(at=k, kind='errno', errno=ERRNOS[fault['errno']], second=k + fault['gap'])
                else:
                    plan = dict(at=k, kind=fault['kind'], errno=ERRNOS[fault['errno']], torn=fault.get('torn', 128))
                if plan:
                    ctx.ctl.arm(os.getpid(), **plan)
        o = ctx.attempt(call)
        fired = ctx.ctl.fired
        fired += ctx.end_reads()[1]
        fired += txn.disarm_spawn()
        if op.get('raise') and not fault:
            ctx.fault('application exception')
            if o.status == 'ok':
                ctx.violation('swallowed', '{}: the exception of the code inside was swallowed'.format(what))
        if fired:
            ctx.fault({'errno': 'errno ' + fault['errno'], 'errno_forever': 'errno {} from then on'.format(fault['errno']),
                       'second': 'two errors', 'short': 'short write', 'spawn': 'subprocess not started', **READ_FAULTS}[fault['kind']])
        ctx.trace(op['op'], fault['kind'] if fault else '-', o.short, fired)
        ctx.state(op['op'], fault['kind'] if fault else op.get('raise', {}).get('exc') if op.get('raise') else '-',
                  pick(fault['at'], n_events) if fault else 0, o.short)
        ctx.probe(('raised ' if o.status == 'exc' else 'returned ') + op['op'])

        if o.status == 'exc':
            if fault and (fault['kind'].endswith('forever') or fired > 1 or alone.status != 'ok'):
                # the rollback could fail too: the disk works again, the user removes the stale locks and resets
                world.remove_stale_locks(folder)
                ctx.must('reset once the disk works', g.reset, 'stuck')
                ctx.probe('reset after persistent errors')
                if fault['kind'].endswith('read_forever') and world.head(folder) != h0 and alone.status == 'ok':
                    # done, but what git needs to undo it could not be read any more
                    ctx.probe('committed, then impossible to undo')
                    check_state(ctx, '{} raised {} (fault {})'.format(what, o, fault), g, folder, s1, None, 'not-atomic')
                    check_committed(ctx, what, folder, h0)
                    s0, h0 = s1, world.head(folder)
            check_state(ctx, '{} raised {} {}'.format(what, o, '(fault {})'.format(fault) if fault else ''),
                        g, folder, s0, h0, 'not-atomic')
        else:
            if s1 is None:
                s1 = world.workdir_content(folder)
            check_state(ctx, what + ' returned', g, folder, s1, None, 'wrong-effect')
            check_committed(ctx, what, folder, h0)
        if world.other_branches(folder) != others or world.current_ref(folder) != 'refs/heads/' + branch:
            ctx.violation('wrong-commit', '{} ({}): another branch was changed'.format(what, o))
        # the next transaction can start
        if fault or op.get('raise'):
            snap = ctx.snapshot(folder)
            probe = {'op': 'raw', 'body': [{'op': 'add', 'ieml': 'a.', 'lang': 'fr', 'desc': 'tags', 'value': 'probe'}]}
            o = ctx.in_child(lambda: txn.apply_txn(g, probe, uc, cache_folder))
            if o.status != 'ok':
                ctx.violation('stuck', 'after {} ({}), the next transaction fails: {}\n{}'.format(what, fault, o, o.tb))
            ctx.restore(snap)


def shrinks(case):
    import copy
    for i, op in enumerate(case['ops']):
        if op.get('body') and len(op['body']) > 1:
            for j in range(len(op['body'])):
                c = copy.deepcopy(case)
                del c['ops'][i]['body'][j]
                yield c
        if op.get('fault'):
            c = copy.deepcopy(case)
            del c['ops'][i]['fault']
            yield c
