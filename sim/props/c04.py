"""C04: a pull keeps what both sides did, and returns every local descriptor it gives up."""
import os

from sim import pools, txn, ops as O

LEVEL = 'exploration'
TECHNIQUE = 'seeded divergent histories of two replicas'
RUNS = {'quick': 1200, 'thorough': 12000}
RULE = ('a case is a seeded history of transactions on two or three replicas of an origin, with pulls from the origin or from '
        'another replica, and pushes; each pull is judged from the three commits it joins. non-trivial: at least one pull '
        'merged diverging histories. distinct: by the digest of operations and outcomes')
STATES = 'distinct (content of ancestor, local and remote head) pulled'
REAL = ['ieml.ieml_database (GitInterface, git_transaction, IEMLDatabase, Descriptors)', 'libgit2 (local transport, merge)',
        'kernel file system (tmpfs)']
STUB = ['order of directory entries', 'clock of each replica (skewed)']
ASSUMPTIONS = ['the files are those the library writes (one ieml per file, one entry per line)',
               'with several best common ancestors, lines of both sides may be combined in more than one way: the result is then '
               'only required to invent nothing and to report conflicts with the right local version']


def prepare():
    from sim import world
    world.install()


MOVED = ['a. s.', 'a. e.', 'b. s.', 'b. e.', 'S: s.', 'S: B:']


def long_value(rng):
    return 'comment ' + ' '.join(rng.choice(['word', 'mot', 'phrase', 'de']) for _ in range(rng.choice([60, 120])))


def gen_body(rng, iemls, history, style):
    """Changes that often touch the same files on the two sides"""
    i = rng.choice(iemls)
    adds = [o for o in history if o['op'] == 'add' and o['ieml'] == i]
    if style == 'drop':
        return [{'op': 'rm', 'ieml': i}]
    if style == 'empty':
        return [{'op': 'rm', 'ieml': i, 'lang': l, 'desc': d} for l in pools.LANGS for d in pools.DESCS]
    if style == 'edit' and adds:
        a = rng.choice(adds)
        return [{'op': 'rm', 'ieml': i, 'lang': a['lang'], 'desc': a['desc'], 'value': a['value']},
                dict(a, value=pools.value(rng, 0.3))]
    if style == 'remove' and adds:
        a = rng.choice(adds)
        return [{'op': 'rm', 'ieml': i, 'lang': a['lang'], 'desc': a['desc'], 'value': a['value']}]
    if style == 'move' and adds:
        # to another usl, as a migration does; a file can then look like a renamed one
        others = [u for u in pools.USLS + MOVED if u != i]
        j = rng.choice([u for u in others if len(u) == len(i)] or others)
        return [{'op': 'rm', 'ieml': i}] + [dict(a, ieml=j) for a in adds]
    if style == 'structure':
        return [O.gen_db_op(rng, [i], structure=1)]
    if style == 'same':
        # the same change is likely on the other side too
        return [{'op': 'add', 'ieml': i, 'lang': 'fr', 'desc': 'translations', 'value': rng.choice(['un', 'deux'])}]
    return [O.gen_db_op(rng, iemls, 0.3, structure=0.15, history=history) for _ in range(rng.choice([1, 1, 2, 4]))]


def generate(rng, i, tier):
    n = 3 if rng.random() < 0.3 else 2
    names = ['A', 'B', 'C'][:n]
    iemls = pools.some(rng, pools.USLS, rng.choice([1, 2, 3]))
    if rng.random() < 0.2:
        iemls += [l for l in pools.POLYMORPHEMES if len(l) > 90][:2]
    base = []
    for ieml in iemls:
        for k in range(rng.choice([0, 1, 4, 8, 16])):
            base.append({'op': 'add', 'ieml': ieml, 'lang': rng.choice(pools.LANGS), 'desc': rng.choice(pools.DESCS[:2]),
                         'value': pools.value(rng, 0.2) + str(k)})
        if rng.random() < 0.3:
            base.append({'op': 'add', 'ieml': ieml, 'lang': 'fr', 'desc': 'comments', 'value': long_value(rng)})
        if rng.random() < 0.3:
            base.append({'op': 'adds', 'ieml': ieml, 'key': 'inhibition', 'value': 'opposed'})
    hist = list(base)
    ops = [{'op': 'txn', 'who': 'A', 'body': base}, {'op': 'push', 'who': 'A'}]
    ops += [{'op': 'pull', 'who': w} for w in names[1:]]
    styles = ['any', 'any', 'edit', 'edit', 'edit', 'remove', 'remove', 'drop', 'empty', 'structure', 'same', 'move', 'move']
    for _ in range(rng.choice([1, 2, 3])):
        for w in names:
            for _ in range(rng.choice([0, 1, 1, 2])):
                body = gen_body(rng, iemls, hist, rng.choice(styles))
                hist += body
                ops.append({'op': 'txn', 'who': w, 'body': body})
        order = names[:]
        rng.shuffle(order)
        for w in order:
            ops.append({'op': 'pull', 'who': w, 'peer': rng.choice([x for x in names if x != w])
                        if rng.random() < 0.25 else None})
            if rng.random() < 0.8:
                ops.append({'op': 'push', 'who': w})
    return {'ops': ops, 'names': names, 'branch': rng.choice(pools.BRANCHES), 'branches': rng.random() < 0.5, 'skew': [rng.randrange(-100000, 100000) for _ in names]}


def run(case, ctx):
    from sim import world, sync
    branch = case['branch']
    origin = world.make_origin(os.path.join(ctx.root, 'origin.git'), branch)
    others = {r: c for r, c in world.refs(origin).items() if r != 'refs/heads/' + branch}
    world.Net.reset()
    G, now = {}, ctx.ctl.clock_ns
    skew = dict(zip(case['names'], case['skew']))

    def at(w):
        ctx.ctl.clock_ns = ctx.ctl.clock_ns + skew[w] * 10 ** 9

    for w in case['names']:
        G[w] = ctx.must('clone', lambda: world.open_replica(origin, os.path.join(ctx.root, w), branch=branch))
        if case.get('branches'):
            world.add_branches(os.path.join(ctx.root, w))
    heads = {w: world.other_branches(os.path.join(ctx.root, w)) for w in G}
    for n, op in enumerate(case['ops']):
        w = op['who']
        g, folder = G[w], os.path.join(ctx.root, w)
        clock = ctx.ctl.clock_ns
        at(w)
        h0 = world.head(folder)
        if op['op'] == 'txn':
            ctx.must('transaction', lambda: txn.apply_txn(g, {'op': 'raw', 'body': op['body']}, False))
            ctx.trace('txn', w, world.head(folder) != h0)
        elif op['op'] == 'push':
            before = world.branch_head(origin)
            o = ctx.attempt(g.push)
            after = world.branch_head(origin)
            if o.status == 'ok' and after != h0:
                ctx.violation('false-ack', 'push returned, but the remote is not at the local head')
            if {r: c for r, c in world.refs(origin).items() if r != 'refs/heads/' + branch} != others:
                ctx.violation('wrong-history', 'push changed other branches: {}'.format(world.refs(origin)))
            ctx.trace('push', w, o.short)
        else:
            remote, target = 'origin', world.branch_head(origin)
            if op.get('peer'):
                remote, target = 'peer' + op['peer'], world.head(os.path.join(ctx.root, op['peer']))
                ctx.must('add_remote', lambda: g.add_remote(remote, os.path.join(ctx.root, op['peer'])))
            conflicts = ctx.must('pull', lambda: g.pull(remote=remote), 'pull-failed')
            if not isinstance(conflicts, dict):
                ctx.violation('wrong-conflict', 'pull returned {!r}'.format(conflicts))
            if g.get_version() != (branch, world.head(folder)):
                ctx.violation('wrong-history', 'the version is {} after the pull'.format(g.get_version()))
            kind = sync.verify_pull(ctx, 'pull {} by {} (operation {})'.format(remote, w, n), g, folder, h0, target, conflicts)
            if ctx.must('current_commit', lambda: g.current_commit) != world.head(folder):
                ctx.violation('wrong-history', 'current_commit is not the current commit')
            ctx.trace('pull', w, remote, kind)
            ctx.probe(kind)
            if kind in ('merge', 'conflict'):
                ctx.nontrivial = True
            ctx.state(sorted(world.commit_content(folder, h0).items()), sorted(world.commit_content(folder, target).items()))
        if world.other_branches(folder) != heads[w]:
            ctx.violation('wrong-history', '{} by {} changed other branches of the replica'.format(op['op'], w))
        # the rest of the world is untouched
        ctx.ctl.clock_ns = max(clock, ctx.ctl.clock_ns - skew[w] * 10 ** 9)


def shrinks(case):
    import copy
    for i, op in enumerate(case['ops']):
        if op.get('body') and len(op['body']) > 1:
            for j in range(len(op['body'])):
                c = copy.deepcopy(case)
                del c['ops'][i]['body'][j]
                yield c
    if any(case['skew']):
        c = copy.deepcopy(case)
        c['skew'] = [0] * len(case['skew'])
        yield c
