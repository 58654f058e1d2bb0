"""C05: a push is never falsely acknowledged, nothing of the remote is lost, and the replicas converge."""
import os
import shutil

from sim import pools, txn, ops as O
from sim.props.c04 import gen_body, long_value

LEVEL = 'fault_enumeration'
TECHNIQUE = 'seeded interleavings of replicas with message loss, then healing'
RUNS = {'quick': 1400, 'thorough': 12000}
RULE = ('a case is a seeded interleaving of transactions, pulls, pushes and restarts of two or three replicas of an origin, over '
        'a network that loses requests, loses answers, and partitions replicas; then the network works and the replicas pull '
        'and push in turn. non-trivial: at least one message was lost or one push was refused. distinct: by the digest of '
        'operations and outcomes')
STATES = 'distinct (which heads are the same, commits each replica has that the origin has not, and the reverse) reached'
REAL = ['ieml.ieml_database (GitInterface: pull, push, commit)', 'libgit2 (local transport, merge)', 'kernel file system (tmpfs)']
STUB = ['network: requests and answers of fetch and push are lost at the seam pygit2.Remote.fetch / push', 'clock of each replica']
ASSUMPTIONS = ['a request or an answer is lost as a whole; a transfer cut in the middle is simulated in C06',
               'the remote has a branch that only fast-forward pushes and forced pushes change']


def prepare():
    from sim import world
    world.install()


def generate(rng, i, tier):
    n = rng.choice([2, 2, 3])
    names = ['A', 'B', 'C'][:n]
    iemls = pools.some(rng, pools.USLS, rng.choice([1, 2, 3]))
    hist, ops = [], []
    loss = rng.choice([0.1, 0.3, 0.6])
    for _ in range(rng.choice([6, 10, 16, 24])):
        w = rng.choice(names)
        r = rng.random()
        if r < 0.38:
            body = gen_body(rng, iemls, hist, rng.choice(['any', 'any', 'edit', 'remove', 'drop', 'same', 'move', 'empty']))
            if rng.random() < 0.1:
                body = body + [{'op': 'add', 'ieml': rng.choice(iemls), 'lang': 'fr', 'desc': 'comments', 'value': long_value(rng)}]
            hist += body
            ops.append({'op': 'txn', 'who': w, 'body': body})
        elif r < 0.62:
            ops.append({'op': 'pull', 'who': w, 'net': rng.choice(['lost', 'ack_lost']) if rng.random() < loss else 'ok'})
        elif r < 0.88:
            ops.append({'op': 'push', 'who': w, 'net': rng.choice(['lost', 'ack_lost', 'ack_lost']) if rng.random() < loss else 'ok'})
        elif r < 0.9:
            ops.append({'op': 'push', 'who': w, 'net': 'ok', 'peer': rng.choice([x for x in names if x != w])})
        elif r < 0.95:
            ops.append({'op': 'restart', 'who': w})
        else:
            ops.append({'op': rng.choice(['cut', 'heal', 'skew']), 'who': w, 'by': rng.randrange(-10 ** 6, 10 ** 6)})
    # a second remote, and forced pushes
    for op in ops:
        if op['op'] in ('pull', 'push') and not op.get('peer') and rng.random() < 0.15:
            op['remote'] = 'upstream'
        if op['op'] == 'push' and not op.get('peer') and rng.random() < 0.1:
            op['force'] = True
    order = names[:]
    rng.shuffle(order)
    return {'ops': ops, 'names': names, 'branch': rng.choice(pools.BRANCHES), 'branches': rng.random() < 0.5, 'final': order, 'skew': [rng.randrange(-100000, 100000) for _ in names]}


def run(case, ctx):
    import pygit2
    from sim import world, sync
    branch = case['branch']
    origin = world.make_origin(os.path.join(ctx.root, 'origin.git'), branch)
    remotes = {'origin': origin, 'upstream': os.path.join(ctx.root, 'upstream.git')}
    shutil.copytree(origin, remotes['upstream'])
    other_refs = lambda: [{r: c for r, c in world.refs(x).items() if r != 'refs/heads/' + branch} for x in remotes.values()]
    others = other_refs()
    Net = world.Net
    Net.reset()
    names = case['names']
    folders = {w: os.path.join(ctx.root, w) for w in names}
    G = {w: ctx.must('clone', lambda: world.open_replica(origin, folders[w], branch=branch)) for w in names}
    heads = {w: world.add_branches(folders[w]) if case.get('branches') else world.other_branches(folders[w]) for w in names}
    skew = dict(zip(names, case['skew']))
    cut = set()

    def check_branches(w, what):
        if world.other_branches(folders[w]) != heads[w] or world.current_ref(folders[w]) != 'refs/heads/' + branch:
            ctx.violation('wrong-history', '{} changed another branch of the replica'.format(what))
    acked = set()
    local = {w: [] for w in names}      # the commits made by each replica

    def tracking(w, to):
        repo = pygit2.Repository(folders[w])
        ref = 'refs/remotes/{}/{}'.format(to, branch)
        return str(repo.references[ref].target) if ref in repo.references else None

    def pull(w, net, what, to='origin'):
        h0, t0 = world.head(folders[w]), tracking(w, to)
        remote = world.branch_head(remotes[to])
        Net.plan = [net]
        Net.partitioned = w in cut
        o = ctx.attempt(lambda: G[w].pull(remote=to))
        lost = net != 'ok' or w in cut
        Net.reset()
        if lost:
            ctx.fault('fetch: ' + ('partitioned' if w in cut else 'request lost' if net == 'lost' else 'answer lost'))
        t = tracking(w, to)
        check_branches(w, what)
        if o.status == 'exc':
            if not lost:
                ctx.violation('pull-failed', '{} failed: {}\n{}'.format(what, o, o.tb))
            if world.head(folders[w]) != h0 or world.dirty(folders[w]):
                ctx.violation('not-clean', '{} failed and changed the replica'.format(what))
            return 'exc'
        if not lost and t != remote:
            ctx.violation('pull-failed', '{} returned without the commits of the remote'.format(what))
        if not world.is_ancestor(folders[w], h0, world.head(folders[w])):
            ctx.violation('lost-commit', '{}: the local commits are lost'.format(what))
        return sync.verify_pull(ctx, what, G[w], folders[w], h0, t, o.value)

    def push(w, net, what, to='origin', force=False):
        h, before, apart = world.head(folders[w]), world.branch_head(remotes[to]), {x: world.branch_head(p) for x, p in remotes.items() if x != to}
        Net.plan = [net]
        Net.partitioned = w in cut
        o = ctx.attempt(lambda: G[w].push(remote=to, force=force))
        lost = net != 'ok' or w in cut
        Net.reset()
        if lost:
            ctx.fault('push: ' + ('partitioned' if w in cut else 'request lost' if net == 'lost' else 'answer lost'))
        after = world.branch_head(remotes[to])
        check_branches(w, what)
        if o.status == 'ok' and after != h:
            ctx.violation('false-ack', '{} returned, but the remote branch is not at the local head'.format(what))
        if o.status == 'ok' and lost and net == 'lost':
            ctx.violation('false-ack', '{} returned, but nothing reached the remote'.format(what))
        if o.status == 'exc' and after not in (before, h):
            ctx.violation('wrong-history', '{} raised and put the remote somewhere else'.format(what))
        if not force and not world.is_ancestor(remotes[to], before, after):
            ctx.violation('lost-commit', '{} removed commits from the remote branch'.format(what))
        if o.status == 'exc' and not lost and (force or world.is_ancestor(folders[w], before, h)):
            ctx.violation('push-failed', '{} failed although the remote has nothing new: {}\n{}'.format(what, o, o.tb))
        if {x: world.branch_head(p) for x, p in remotes.items() if x != to} != apart or other_refs() != others:
            ctx.violation('wrong-history', '{} changed another branch or another remote'.format(what))
        if o.status == 'exc' and not lost:
            ctx.nontrivial = True
            ctx.probe('push refused')
        if force and not world.is_ancestor(remotes[to], before, after):
            ctx.probe('push that forces')
        if o.status == 'ok':
            acked.add(h)
        if world.head(folders[w]) != h or world.dirty(folders[w]):
            ctx.violation('not-clean', '{} changed the replica'.format(what))
        return o.short

    def shape():
        """For each replica, how many commits it has that the origin hasn't, and the reverse; which heads are the same"""
        end = world.branch_head(origin)
        heads = [world.head(folders[w]) for w in names] + [end]
        first, res = {}, []
        for w, h in zip(names, heads):
            mine, its = sync.ancestors(pygit2.Repository(folders[w]), h), sync.ancestors(pygit2.Repository(origin), end)
            res.append((len(mine - its), len(its - mine)))
        return tuple(first.setdefault(h, len(first)) for h in heads), tuple(res)

    for n, op in enumerate(case['ops']):
        w, k = op['who'], op['op']
        what = '{} by {} (operation {})'.format(k, w, n)
        clock = ctx.ctl.clock_ns
        ctx.ctl.clock_ns = clock + skew[w] * 10 ** 9
        if k == 'txn':
            h = world.head(folders[w])
            ctx.must('transaction', lambda: txn.apply_txn(G[w], {'op': 'raw', 'body': op['body']}, False))
            if world.head(folders[w]) != h:
                local[w].append(world.head(folders[w]))
            out = ''
        elif k == 'pull':
            to = op.get('remote', 'origin')
            if to != 'origin':
                ctx.must('add_remote', lambda: G[w].add_remote(to, remotes[to]))
            out = pull(w, op['net'], what + (' from ' + to), to)
            ctx.probe(out)
        elif k == 'push' and op.get('peer'):
            # a replica is not a remote to push to: its branch is checked out
            p = op['peer']
            ctx.must('add_remote', lambda: G[w].add_remote('peer' + p, folders[p]))
            h, hp = world.head(folders[w]), world.head(folders[p])
            o = ctx.attempt(lambda: G[w].push(remote='peer' + p))
            if o.status == 'ok' and world.head(folders[p]) != h:
                ctx.violation('false-ack', '{} to {} returned, but the branch there is not at the local head'.format(what, p))
            if o.status == 'exc' and world.head(folders[p]) not in (hp, h):
                ctx.violation('wrong-history', '{} to {} raised and moved the branch there somewhere else'.format(what, p))
            if not world.is_ancestor(folders[p], hp, world.head(folders[p])):
                ctx.violation('lost-commit', '{} to {} removed commits there'.format(what, p))
            if world.head(folders[p]) != hp:
                G[p] = ctx.must('reset', lambda: G[p].reset()) or G[p]
            out = o.short
        elif k == 'push':
            to = op.get('remote', 'origin')
            if to != 'origin':
                ctx.must('add_remote', lambda: G[w].add_remote(to, remotes[to]))
            out = push(w, op['net'], what + (' to ' + to) + (' (force)' if op.get('force') else ''), to, op.get('force', False))
            ctx.probe('push ' + out)
        elif k == 'restart':
            h = world.head(folders[w])
            G[w] = ctx.must('open', lambda: world.open_replica(origin, folders[w], branch=branch))
            if world.head(folders[w]) != h:
                ctx.violation('lost-commit', 'opening the folder again changed the current commit')
            out = ''
        elif k == 'cut':
            cut.add(w)
            out = ''
        elif k == 'heal':
            cut.discard(w)
            out = ''
        else:
            skew[w] += op['by']
            ctx.fault('clock jump')
            out = ''
        ctx.trace(k, w, out)
        ctx.state(shape())
        ctx.ctl.clock_ns = max(clock, ctx.ctl.clock_ns - skew[w] * 10 ** 9)

    # the network works again: two rounds of pull and push in turn
    cut.clear()
    for round_ in range(2):
        for w in case['final']:
            pull(w, 'ok', 'pull by {} in round {} after the faults'.format(w, round_))
            r = push(w, 'ok', 'push by {} in round {} after the faults'.format(w, round_))
            if r != 'ok':
                ctx.violation('no-convergence', 'push by {} right after its pull is {}'.format(w, r))
    end = world.branch_head(origin)
    for w in names:
        if world.head(folders[w]) != end:
            ctx.violation('no-convergence', 'two rounds after the faults stopped, {} is not at the head of the origin'.format(w))
        if world.workdir_content(folders[w]) != world.commit_content(origin, end) or world.dirty(folders[w]):
            ctx.violation('no-convergence', 'two rounds after the faults stopped, the content of {} differs'.format(w))
        for c in local[w]:
            if not world.is_ancestor(origin, c, end):
                ctx.violation('lost-commit', 'a transaction of {} is not in the common history'.format(w))
    for c in acked:
        if not world.is_ancestor(origin, c, end):
            ctx.violation('lost-commit', 'an acknowledged push is not in the common history')
    ctx.trace('converged', sorted(world.commit_content(origin, end).items()))


def shrinks(case):
    import copy
    for i, op in enumerate(case['ops']):
        if op.get('body') and len(op['body']) > 1:
            for j in range(len(op['body'])):
                c = copy.deepcopy(case)
                del c['ops'][i]['body'][j]
                yield c
        if op.get('net') not in (None, 'ok'):
            c = copy.deepcopy(case)
            c['ops'][i]['net'] = 'ok'
            yield c
    if any(case['skew']):
        c = copy.deepcopy(case)
        c['skew'] = [0] * len(case['skew'])
        yield c
