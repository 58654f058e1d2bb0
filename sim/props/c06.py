"""C06: a clone, a pull or a push that fails or is killed at any point can be done again."""
import os

from sim import pools, txn, ops as O
from sim.core import ERRNOS, READ_FAULTS, gen_at, pick
from sim.props.c04 import gen_body, long_value

LEVEL = 'fault_enumeration'
TECHNIQUE = 'seeded kills and errors inside transfers, then redo'
RUNS = {'quick': 1000, 'thorough': 14000}
RULE = ('a case prepares an origin and two replicas with seeded transactions, then does a clone, a pull (fast-forward, merge, '
        'conflict) or a push, which is killed or gets an error at one of its file operations (of the replica or of the origin), or reads, stats, listings, '
        'one or several times, then is done again. The operation hit is drawn among those counted in an uninterrupted run. '
        'non-trivial: the fault fired. distinct: by the digest of operations, faults and states found')
STATES = 'distinct (operation, kind of merge, kind of fault, index of the file operation hit, state found)'
REAL = ['ieml.ieml_database (GitInterface: clone, pull, push, reset)', 'libgit2 (local transport: the origin is written by the same '
        'process)', 'kernel file system (tmpfs)']
STUB = ['death of the process and errors of system calls (LD_PRELOAD seam)', 'order of directory entries', 'clock']
ASSUMPTIONS = ['what a system call wrote survives the death of the process',
               'the lock files of a dead process are removed before the folder is opened again, as git asks for',
               'a pull whose fetch failed may return with the state it had fetched before: the error is only logged']


def prepare():
    from sim import world
    world.install()


def generate(rng, i, tier):
    iemls = pools.some(rng, pools.USLS, rng.choice([1, 2, 3]))
    styles = ['any', 'any', 'edit', 'remove', 'drop', 'empty', 'structure', 'same', 'move']
    hist = []

    def txns(n):
        res = []
        for _ in range(n):
            body = gen_body(rng, iemls, hist, rng.choice(styles))
            hist.extend(body)
            res.append(body)
        return res
    base = [{'op': 'add', 'ieml': ieml, 'lang': rng.choice(pools.LANGS), 'desc': rng.choice(pools.DESCS[:2]),
             'value': pools.value(rng, 0.2) + str(k)} for ieml in iemls for k in range(rng.choice([1, 3, 6]))]
    base += [{'op': 'add', 'ieml': ieml, 'lang': 'fr', 'desc': 'comments', 'value': long_value(rng)} for ieml in iemls if rng.random() < 0.2]
    hist += base
    what = rng.choice(['clone', 'pull', 'pull', 'pull', 'push', 'push'])
    faults = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        kind = rng.choice(['crash_before', 'crash_after', 'torn', 'crash_after', 'errno', 'errno_forever', 'short', 'short'] + list(READ_FAULTS))
        faults.append({'kind': kind, 'at': gen_at(rng), 'torn': rng.randrange(256),
                       'errno': rng.choice(['EIO', 'ENOSPC', 'EACCES'])})
    return {'base': [base], 'remote': txns(rng.choice([0, 1, 1, 2])) if what != 'push' else [],
            'local': txns(rng.choice([0, 1, 1, 2]) if what == 'pull' else 1 + rng.randrange(2)) if what != 'clone' else [],
            'what': what, 'faults': faults, 'branch': rng.choice(pools.BRANCHES), 'branches': rng.random() < 0.5}


def run(case, ctx):
    import pygit2
    from sim import world, sync
    branch = case['branch']
    origin = world.make_origin(os.path.join(ctx.root, 'origin.git'), branch)
    world.Net.reset()
    fa, fb, fc = (os.path.join(ctx.root, w) for w in ('A', 'B', os.path.join('deep', 'C')))

    def commit(g, bodies):
        for b in bodies:
            ctx.must('transaction', lambda: txn.apply_txn(g, {'op': 'raw', 'body': b}, False))

    def prepare_world():
        a = ctx.must('clone', lambda: world.open_replica(origin, fa, branch=branch))
        if case.get('branches'):
            world.add_branches(fa)
        commit(a, case['base'])
        ctx.must('push', a.push)
        b = ctx.must('clone', lambda: world.open_replica(origin, fb, branch=branch))
        commit(b, case['remote'])
        ctx.must('push', b.push)
        commit(a, case['local'])

    # libgit2 keeps packs open per process: every step and every look at the files is in a process of its own
    def apart(fn):
        o = ctx.in_child(fn)
        if o.status != 'ok':
            ctx.violation('unexpected-error', '{}\n{}'.format(o, o.tb))
        return o.value

    apart(prepare_world)
    what = case['what']
    folder = fc if what == 'clone' else fa
    remote0, h0, s0 = apart(lambda: (world.branch_head(origin), world.head(fa), world.workdir_content(fa)))

    def op():
        if what == 'clone':
            world.open_replica(origin, fc, branch=branch)
            return {}
        g = world.open_replica(origin, fa, branch=branch)
        return (g.pull() if what == 'pull' else g.push()) or {}

    # what it does when nothing goes wrong
    snap = ctx.snapshot(fa, origin)
    n_events, ref = ctx.count_events(op)
    if ref.status != 'ok':
        ctx.violation('unexpected-error', '{} without any fault: {}\n{}'.format(what, ref, ref.tb))
    s1, files1, content_of_remote = apart(lambda: (world.workdir_content(folder), world.commit_files(folder),
                                                   world.commit_content(origin, 'refs/heads/' + branch)))
    ctx.restore(snap)
    if what == 'clone':
        import shutil
        shutil.rmtree(os.path.join(ctx.root, 'deep'))
    kind_of = 'clone' if what == 'clone' else 'conflict' if ref.value else what

    def check_state(when):
        """Nothing is half done in the replica"""
        g = ctx.must('open the folder after ' + when, lambda: world.open_replica(origin, folder, branch=branch), 'stuck')
        d = world.dirty(folder)
        if d or ctx.must('status', g.status):
            ctx.violation('not-clean', 'opened again after {}, the working directory is not clean: {}'.format(when, d[:5]))
        got, h = world.workdir_content(folder), world.head(folder)
        if what == 'clone':
            if got != s1:
                ctx.violation('torn', 'opened again after {}: {}'.format(when, world.difference(got, s1)))
            return 'cloned'
        if not world.is_ancestor(folder, h0, h):
            ctx.violation('lost-commit', 'opened again after {}, a local commit is lost'.format(when))
        if h == h0:
            if got != s0:
                ctx.violation('torn', 'opened again after {}: {}'.format(when, world.difference(got, s0)))
            return 'before'
        if world.commit_files(folder) != files1 or got != s1:
            ctx.violation('torn', 'opened again after {}, neither the state before nor the one after: {}'.format(
                when, world.difference(got, s1)))
        return 'after'

    def check_remote(when, done):
        r = world.branch_head(origin)
        if what != 'push':
            if r != remote0:
                ctx.violation('wrong-history', 'the remote branch changed during {}'.format(when))
            return
        if r not in (remote0, h0):
            ctx.violation('wrong-history', 'after {}, the remote branch is neither as before nor at the local head'.format(when))
        if done and r != h0:
            ctx.violation('false-ack', '{} returned, but the remote branch is not at the local head'.format(when))
        world.commit_files(origin, r)       # the objects are there

    for f in case['faults']:
        snap = ctx.snapshot(fa, fc, origin)
        if f['kind'] in READ_FAULTS:
            ctx.arm_reads(f['kind'], folder)
            o = ctx.in_child(op)
            n_events, _ = ctx.end_reads()
        else:
            n_events, o = ctx.count_events(op)
        ctx.restore(snap)
        if o.status != 'ok':
            ctx.violation('stuck', '{} can\'t be done again: {}\n{}'.format(what, o, o.tb))
        k = pick(f['at'], n_events)
        plan = dict(at=k, kind=f['kind'], torn=f['torn'])
        if f['kind'] in ('errno', 'errno_forever'):
            plan['errno'] = ERRNOS[f['errno']]
        if f['kind'] in READ_FAULTS:
            plan = ctx.arm_reads(f['kind'], folder, k, ERRNOS[f['errno']])
        o = ctx.in_child(op, plan)
        fired = ctx.ctl.fired
        fired += ctx.end_reads()[1]
        when = '{} {} at file operation {} of {} ({})'.format(what, f['kind'], k, n_events, o)
        if fired:
            ctx.fault({'errno': 'errno ' + f['errno'], 'errno_forever': 'errno {} from then on'.format(f['errno']),
                       'short': 'short write', 'torn': 'kill in a write', 'crash_before': 'kill before',
                       'crash_after': 'kill after', **READ_FAULTS}[f['kind']])
        world.remove_stale_locks(fa, fc, origin)
        ctx.probe('{} {}'.format(what, o.status))
        if what == 'clone' and o.status != 'ok':
            found = 'none' if not os.path.exists(fc) else apart(lambda: check_state(when))
        else:
            found = apart(lambda: check_state(when))
        apart(lambda: check_remote(when, o.status == 'ok'))
        ctx.trace(what, f['kind'], k, n_events, o.short, found)
        ctx.state(kind_of, f['kind'], k, found)

    # done again, without fault
    before = apart(lambda: world.head(fa))
    again = ctx.in_child(op)
    if again.status != 'ok':
        ctx.violation('stuck', '{} can\'t be done again: {}\n{}'.format(what, again, again.tb))

    def check_again():
        check_state('the second ' + what)
        check_remote('the second ' + what, True)
        got = world.workdir_content(folder)
        if got != s1 or world.commit_files(folder) != files1:
            ctx.violation('wrong-result', '{} done again gives another content than an uninterrupted one: {}'.format(
                what, world.difference(got, s1)))
        if what == 'push' and world.commit_content(origin, 'refs/heads/' + branch) != content_of_remote:
            ctx.violation('wrong-result', 'push done again gives another content of the remote')
        if what == 'pull':
            if before == h0 and {i: sync.flat(d) for i, d in again.value.items()} != \
                    {i: sync.flat(d) for i, d in ref.value.items()}:
                ctx.violation('wrong-result', 'pull done again returns other conflicts: {} instead of {}'.format(
                    again.value, ref.value))
            # and the replica can go on
            g = world.open_replica(origin, fa, branch=branch)
            ctx.must('transaction after the pull', lambda: txn.apply_txn(
                g, {'op': 'raw', 'body': [{'op': 'add', 'ieml': 'a.', 'lang': 'fr', 'desc': 'tags', 'value': 'probe'}]}, False),
                'stuck')
            ctx.must('push after the pull', g.push, 'stuck')

    apart(check_again)
    ctx.trace('again', kind_of)


def shrinks(case):
    import copy
    for key in ('base', 'remote', 'local'):
        for i, body in enumerate(case[key]):
            c = copy.deepcopy(case)
            del c[key][i]
            if key != 'base':
                yield c
            if len(body) > 1:
                for j in range(len(body)):
                    c = copy.deepcopy(case)
                    del c[key][i][j]
                    yield c
