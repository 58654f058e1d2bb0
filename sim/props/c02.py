"""C02: a process killed at any point of a transaction leaves the state before or after it, never something else."""
import os

from sim import pools, txn, ops as O
from sim.core import gen_at, pick

LEVEL = 'fault_enumeration'
TECHNIQUE = 'seeded kills and torn writes, then restart'
RUNS = {'quick': 800, 'thorough': 12000}
RULE = ('a case is a seeded history of transactions, each in a process killed at one of its file operations (before it, after '
        'it, or in the middle of a write), then reopened, the reopening killed too in a part of the cases; the index of the '
        'operation is drawn among those counted in a run that is not killed. non-trivial: at least one kill took place. '
        'distinct: by the digest of operations, kills and states found')
STATES = 'distinct (kind of transaction, index of the operation hit, kind of kill, state found: before / after)'
REAL = ['ieml.ieml_database (GitInterface, git_transaction, IEMLDatabase, DBTransactions, caches)', 'libgit2',
        'find, xargs, cat, sed, uniq', 'kernel file system (tmpfs)']
STUB = ['death of the process (LD_PRELOAD seam: exit_group at the chosen operation)', 'order of directory entries', 'clock']
ASSUMPTIONS = ['what a system call wrote survives the death of the process (a power loss that drops the page cache is out of '
               'scope: neither the library nor libgit2 syncs)',
               'the lock files of the dead process are removed before the folder is opened again, as git asks for',
               'one process works on the folder at a time']


def prepare():
    from sim import world
    world.install()


def generate(rng, i, tier):
    iemls = pools.some(rng, pools.USLS, rng.choice([2, 4, 6]))
    ops = [txn.gen_raw(rng, iemls, n=rng.choice([2, 4, 8]))]
    for _ in range(rng.choice([1, 2, 3])):
        op = txn.gen_txn(rng, iemls, ops, dictionary=0.35)
        op['crash'] = {'at': gen_at(rng), 'kind': rng.choice(['crash_before', 'crash_after', 'torn']),
                       'torn': rng.randrange(256)}
        if rng.random() < 0.4:
            op['reopen'] = [gen_at(rng) for _ in range(rng.choice([1, 1, 2]))]
        op['read'] = rng.random() < 0.5
        ops.append(op)
    return {'ops': ops, 'use_cache': rng.random() < 0.8, 'separate_cache': rng.random() < 0.3,
            'branch': rng.choice(pools.BRANCHES), 'branches': rng.random() < 0.3}


def kill_reopen(ctx, folder, origin, branch, at):
    """Open the folder in a process killed at one of its operations. Returns True if it was killed."""
    from sim import world
    snap = ctx.snapshot(folder)
    n, o = ctx.count_events(lambda: world.open_replica(origin, folder, branch=branch) and None)
    ctx.restore(snap)
    if o.status == 'exc':
        ctx.violation('stuck', 'the folder can\'t be opened again: {}\n{}'.format(o, o.tb))
    if not n:
        return False
    o = ctx.in_child(lambda: world.open_replica(origin, folder, branch=branch) and None, {'at': pick(at, n), 'kind': 'crash_after'})
    world.remove_stale_locks(folder)
    if o.status == 'crash':
        ctx.fault('kill during the reopening')
        return True
    return False


def reads(db):
    """Everything the cached reads give"""
    from sim import describe
    return describe.dictionary(db.get_dictionary()), describe.usl_list(db.get_list())


def run(case, ctx):
    from sim import world
    from sim.model import Model
    branch = case['branch']
    origin = world.make_origin(os.path.join(ctx.root, 'origin.git'), branch)
    folder = os.path.join(ctx.root, 'A')
    g = ctx.must('clone', lambda: world.open_replica(origin, folder, branch=branch))
    if case['branches']:
        world.add_branches(folder)
    others = world.other_branches(folder)
    cache_folder = os.path.join(ctx.root, 'cache') if case['separate_cache'] else None
    uc = case['use_cache']
    history = [world.head(folder)]

    for n, op in enumerate(case['ops']):
        what = 'transaction {} ({})'.format(n, op['op'])
        s0, h0 = world.workdir_content(folder), world.head(folder)
        call = lambda: txn.apply_txn(g, op, uc, cache_folder)
        crash = op.get('crash')
        if not crash:
            o = ctx.attempt(call)
            ctx.trace(op['op'], o.short)
            history.append(world.head(folder))
            continue
        snap = ctx.snapshot(folder, cache_folder or os.path.join(ctx.root, 'cache'))
        n_events, o = ctx.count_events(call)
        s1, files1 = world.workdir_content(folder), world.commit_files(folder)
        committed = world.head(folder) != h0
        ctx.restore(snap)
        if o.status == 'exc' or op.get('raise'):
            s1, files1 = s0, world.commit_files(folder)
        k = pick(crash['at'], n_events)
        o = ctx.in_child(call, {'at': k, 'kind': crash['kind'], 'torn': crash['torn']})
        if o.status == 'crash':
            ctx.fault('kill ' + {'crash_before': 'before', 'crash_after': 'after', 'torn': 'in'}[crash['kind']] +
                      ' a file operation')
        world.remove_stale_locks(folder)
        for at in op.get('reopen', []):
            kill_reopen(ctx, folder, origin, branch, at)
        g = ctx.must('open the folder after a kill', lambda: world.open_replica(origin, folder, branch=branch), 'stuck')
        d = world.dirty(folder)
        if d or ctx.must('status', g.status):
            ctx.violation('not-clean', '{} killed at operation {}: opened again, the working directory is not clean: {}'
                          .format(what, k, d[:5]))
        got, h = world.workdir_content(folder), world.head(folder)
        if h == h0:
            side, want = 'before', s0
        else:
            side, want = 'after', s1
            if world.parents(folder) != [h0]:
                ctx.violation('wrong-commit', '{} killed at operation {}: the commit found doesn\'t follow the one before'
                              .format(what, k))
            if world.commit_files(folder) != files1:
                ctx.violation('torn', '{} killed at operation {}: the commit is not the one of the transaction: {}'
                              .format(what, k, world.difference(got, s1)))
        if got != want:
            ctx.violation('torn', '{} killed at operation {}: neither the state before nor after, {}'
                          .format(what, k, world.difference(got, want)))
        if o.status == 'ok' and committed and side == 'before':
            ctx.violation('lost', '{} returned, but its changes are not there when the folder is opened again'.format(what))
        if world.other_branches(folder) != others or world.current_ref(folder) != 'refs/heads/' + branch:
            ctx.violation('lost', '{} killed at operation {}: another branch was changed'.format(what, k))
        for old in history:
            if not world.is_ancestor(folder, old, h):
                ctx.violation('lost', 'after {} was killed, the commit of an earlier transaction is lost'.format(what))
        history.append(h)
        ctx.trace(op['op'], k, crash['kind'], o.short, side)
        ctx.state(op['op'], k, crash['kind'], side)
        ctx.probe('found ' + side)
        # nothing half written is served, by the caches either
        if op['read']:
            fresh = ctx.attempt(lambda: reads(world.database(folder, use_cache=False)))
            cached = ctx.attempt(lambda: reads(world.database(folder, use_cache=uc, cache_folder=cache_folder)))
            if fresh.status != cached.status or fresh.value != cached.value:
                ctx.violation('stale-read', 'after {} was killed at operation {}, the reads with a cache give {} instead of {}'
                              .format(what, k, cached.value if cached.status == 'ok' else cached,
                                      fresh.value if fresh.status == 'ok' else fresh))
        # the next transaction works
        m = Model(got)
        probe = {'op': 'add', 'ieml': 'a.', 'lang': 'fr', 'desc': 'tags', 'value': 'probe{}'.format(n)}
        O.apply_model(m, probe)
        ctx.must('the transaction after a kill', lambda: txn.apply_txn(g, {'op': 'raw', 'body': [probe]}, uc, cache_folder),
                 'stuck')
        if world.workdir_content(folder) != m.c or world.dirty(folder):
            ctx.violation('stuck', 'the transaction after {} was killed has not the right effect'.format(what))
        history.append(world.head(folder))


def shrinks(case):
    import copy
    for i, op in enumerate(case['ops']):
        if op.get('body') and len(op['body']) > 1:
            for j in range(len(op['body'])):
                c = copy.deepcopy(case)
                del c['ops'][i]['body'][j]
                yield c
        for key in ('crash', 'reopen'):
            if op.get(key):
                c = copy.deepcopy(case)
                del c['ops'][i][key]
                yield c
