"""C14: every committed version can be restored and compared exactly."""
import copy
import os
from collections import Counter

from sim import ops as O, pools, txn
from sim.core import ERRNOS, READ_FAULTS, gen_at, pick

LEVEL = 'exploration'
TECHNIQUE = 'deterministic simulation: histories of commits, uncommitted changes, resets, checkouts and diffs, with disk faults and kills in them'
RUNS = {'quick': 1400, 'thorough': 30000}
RULE = ('a case is a seeded history on one folder: transactions, uncommitted changes (writes of the database, files removed, cut, replaced or added by hand, '
        'staged, an interrupted merge), resets, checkouts, openings at a commit, new branches and differences between versions, through two handles; a part of '
        'the resets, checkouts, openings and diffs meet one disk fault (errno on a write, a read, a stat or a listing, short write) or a kill at the k-th file operation, and are '
        'then done again. Oracle: the bytes of the files when each version was committed. non-trivial: at least one version restored over uncommitted changes, '
        'or after a fault. distinct: by the digest of operations, outcomes and files')
STATES = 'distinct (kind of operation, kinds of uncommitted changes before it, fault, outcome, distance between the versions)'
REAL = ['ieml.ieml_database.git_interface', 'ieml.ieml_database', 'libgit2', 'kernel file system (tmpfs)']
STUB = ['errors of system calls (LD_PRELOAD seam)', 'process kills', 'order of directory entries', 'clock']
ASSUMPTIONS = ['the stale lock files of git are removed by the user after a kill, as git asks',
               'the objects and references of git are not damaged by hand', 'files whose name starts with a dot are not part of the database']

KILLS = ['crash_before', 'crash_after', 'torn']


def prepare():
    from sim import world
    world.install()


# -------------------------------------------------------------- generation

def gen_fault(rng):
    k = rng.choice(['errno', 'errno', 'errno_forever', 'short'] + list(READ_FAULTS) + KILLS * 3)
    return {'kind': k, 'at': gen_at(rng), 'errno': rng.choice(['EIO', 'ENOSPC', 'EACCES', 'EMFILE'] if k in READ_FAULTS else ['EIO', 'ENOSPC', 'EACCES', 'EROFS']),
            'torn': rng.randrange(256), 'again': rng.choice([0, 0, 1])}


def generate(rng, i, tier):
    iemls = pools.some(rng, pools.USLS, rng.choice([2, 4, 8]))
    res, history, long, merging = [], [], [], False

    def body(n):
        r = []
        for _ in range(n):
            r.append(O.gen_db_op(rng, iemls, nasty=0.4, history=history) if rng.random() > 0.01 else O.gen_bulk(rng, iemls))
            history.append(r[-1])
        return r

    for n in range(rng.choice([4, 7, 10, 14])):
        k = 'commit' if n == 0 else res[-1].pop('then', None) or rng.choice(['commit'] * 4 + ['write'] * 4 + ['reset'] * 3 + ['checkout'] * 3 + ['open', 'diff', 'diff', 'diff', 'branch', 'drop', 'drop'])
        op = {'op': k, 'handle': rng.randrange(2)}
        if k == 'commit':
            if rng.random() < (0.6 if long else 0.35):
                # many values of one ieml, then changes far from each other in its file: several parts in a difference
                if long and rng.random() < 0.25:
                    # all the values move to another ieml, as when it is replaced
                    other = rng.choice([x for x in pools.USLS if x != long[0]['ieml']])
                    op['body'] = [{'op': 'rm', 'ieml': long[0]['ieml'], 'lang': None, 'desc': None, 'value': None}]
                    long[:] = [dict(x, ieml=other) for x in long]
                    op['body'] += list(long)
                    op['then'] = rng.choice(['diff', None])
                elif long and rng.random() < 0.75:
                    o = rng.sample(long, min(len(long), rng.choice([2, 3, 5, 8]))) if rng.random() < 0.5 else sorted(long, key=lambda x: x['value'])[rng.randrange(6)::rng.choice([9, 12, 15])]
                    op['then'] = rng.choice(['diff', None])
                    op['body'] = [dict(x, op='rm') for x in o] + body(rng.choice([0, 0, 1])) + [dict(x, value=x['value'] + 'x') for x in o[:rng.choice([0, 1, 2])]]
                else:
                    one, more = rng.choice(iemls), ' and more' * rng.choice([0, 0, 30, 80])
                    long[:] = [{'op': 'add', 'ieml': one, 'lang': rng.choice(pools.LANGS), 'desc': rng.choice(pools.DESCS), 'value': 'v{}{}'.format(x, more)}
                               for x in range(rng.choice([12, 24, 40, 60]))]
                    op['body'] = list(long)
            elif n > 1 and rng.random() < 0.15:
                # only the spaces or the case of a value change
                adds = [o for o in history if o['op'] == 'add' and o['value'].strip()]
                a = dict(rng.choice(adds[-3:])) if adds and rng.random() < 0.8 else {'op': 'add', 'ieml': rng.choice(iemls), 'lang': 'fr', 'desc': 'tags', 'value': 'le mot juste'}
                if a not in history:
                    history.append(a)
                v = rng.choice([a['value'].replace(' ', '  '), a['value'].replace(' ', '\t'), a['value'].replace(' ', ''), a['value'].swapcase(), a['value'] + ' .'])
                new = dict(a, value=v)
                res.append({'op': 'commit', 'handle': op['handle'], 'body': [{'op': 'rm', 'ieml': a['ieml'], 'lang': None, 'desc': None, 'value': None}] * rng.choice([0, 1]) + [a]})
                op['body'] = [dict(a, op='rm'), new]
                history.append(new)
                op['then'] = rng.choice(['diff', 'diff', None])
            else:
                op['body'] = body(rng.choice([1, 2, 4, 8, 16]))
            if merging:
                op['then'] = 'write'
        elif k == 'write':
            op['how'] = 'merge' if merging else rng.choice(['db'] * 5 + ['remove', 'cut', 'replace', 'new', 'new', 'stage', 'move', 'merge', 'merge', 'executable'])
            if op['how'] in ('db', 'merge', 'stage'):
                op['body'] = body(rng.choice([1, 2, 4]))
            if op['how'] == 'merge':
                op['version'] = rng.random()
            op['which'] = rng.random()
            merging = False
            op['data'] = pools.value(rng, 0.5)
        elif k in ('reset', 'drop'):
            if k == 'reset':
                op['version'] = rng.random()
                if rng.random() < 0.4:
                    op['then'] = 'commit'
                    merging = rng.random() < 0.6
        elif k == 'checkout':
            op['branch'] = rng.choice([None, 0, 0.3, 0.6, 0.9])
            op['version'] = rng.choice([None, rng.random(), rng.random()])
        elif k == 'open':
            op['branch'] = rng.choice([0, 0.5, 0.9])
            op['version'] = rng.choice([None, rng.random()])
        elif k == 'diff':
            op['versions'] = [rng.random(), rng.random()]
            op['names'] = rng.random() < 0.2
            op['last'] = rng.random() < 0.4
        elif k == 'branch':
            op['version'] = rng.random()
        if k in ('reset', 'drop', 'checkout', 'open', 'diff') and rng.random() < 0.4:
            op['fault'] = gen_fault(rng)
        res.append(op)
    # the way back: every version in turn
    for v in rng.sample(range(20), 3):
        res.append({'op': 'reset', 'handle': 0, 'version': v / 20})
    return {'ops': res}


def shrinks(case):
    for i, op in enumerate(case['ops']):
        for j in range(len(op.get('body', ())) if len(op.get('body', ())) > 1 else 0):
            c = copy.deepcopy(case)
            del c['ops'][i]['body'][j]
            yield c
        if op.get('fault'):
            c = copy.deepcopy(case)
            del c['ops'][i]['fault']
            yield c


# -------------------------------------------------------------- what is there

def files_of(folder):
    """The files with their bytes, hidden files of the root aside"""
    from sim import world
    return {p: d for p, d in world.workdir_files(folder) if not p.startswith('.')}


def modes_of(folder):
    return {p for p in files_of(folder) if os.stat(os.path.join(folder, p)).st_mode & 0o100}


def changed(a, b):
    return sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p))


def dirty_the_folder(ctx, folder, op, versions, wanted):
    """An uncommitted change made without the git interface. Returns its kind, or None"""
    import pygit2
    from sim import world
    files = sorted(p for p in files_of(folder) if p.endswith(('.desc', '.ieml')))
    path = os.path.join(folder, files[int(op['which'] * len(files))]) if files else None
    how = op['how']
    if how in ('db', 'stage'):
        db = world.database(folder, use_cache=False)
        for o in op['body']:
            try:
                O.apply_db(db, o)
            except (OSError, ValueError):
                ctx.probe('write that fails over the other uncommitted changes')
        if how == 'stage':
            repo = pygit2.Repository(folder)
            repo.index.read()
            repo.index.add_all(['morpheme', 'polymorpheme', 'lexeme', 'word'])
            repo.index.write()
    elif how == 'new':
        p = os.path.join(folder, ['morpheme/x', 'new/a/b/c', 'word', 'x y', 'é.desc', 'lexeme/z.desc'][int(op['which'] * 6)])
        if os.path.exists(p):
            return None
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
        except FileExistsError:
            return None
        with open(p, 'wb') as fp:
            fp.write(op['data'].encode('utf8'))
    elif how == 'merge':
        # what a pull leaves when it is killed in its merge
        repo = pygit2.Repository(folder)
        k = int(op['version'] * len(versions))
        for other, _ in versions[k:] + versions[:k]:
            if not world.dirty(folder) and repo.merge_analysis(repo[other].id)[0] == pygit2.GIT_MERGE_ANALYSIS_NORMAL:
                try:
                    repo.merge(repo[other].id)
                except pygit2.GitError:
                    return None     # what is staged is not what is in the files
                return how
        return None
    elif path is None:
        return None
    elif how == 'remove':
        os.remove(path)
    elif how == 'cut':
        os.truncate(path, os.path.getsize(path) // 2)
    elif how == 'replace':
        with open(path, 'wb') as fp:
            fp.write(op['data'].encode('utf8'))
    elif how == 'move':
        if os.path.exists(path + 'x'):
            return None
        os.rename(path, path + 'x')
    elif how == 'executable':
        os.chmod(path, 0o755)
    return how


def check_diff(ctx, what, d, a, b):
    """d: difference between the files a and b"""
    from sim import world

    def entries(lines, path):
        return world._content([(path, (l if l.endswith('\n') else l + '\n').encode('utf8')) for l in lines])
    for p, x in d.items():
        ca, cb = world._content([(p, a.get(p, b''))]), world._content([(p, b.get(p, b''))])
        add, rm = entries(x['added'], p), entries(x['deleted'], p)
        if rm - ca or add - cb or (ca - rm) + add != cb:
            ctx.violation('wrong-diff', '{}: {} goes from {} to {}, and the difference adds {} and deletes {}'.format(
                what, p, world.show(ca), world.show(cb), world.show(add), world.show(rm)))
        iemls = {k[1] for k in list(ca) + list(cb)}
        if {x['ieml']} != iemls:
            ctx.violation('wrong-diff', '{}: the ieml of {} is {}, and not {}'.format(what, p, x['ieml'], iemls))
        if x['is_new'] != (p not in a) or x['is_removed'] != (p not in b):
            ctx.violation('wrong-diff', '{}: {} is_new {} is_removed {}, in the first version: {}, in the second: {}'.format(
                what, p, x['is_new'], x['is_removed'], p in a, p in b))
    for p in changed(a, b):
        if p not in d and world._content([(p, a.get(p, b''))]) != world._content([(p, b.get(p, b''))]):
            ctx.violation('wrong-diff', '{}: the difference of {} is not listed'.format(what, p))


# -------------------------------------------------------------- run

def run(case, ctx):
    import pygit2
    from sim import world
    origin = world.make_origin(os.path.join(ctx.root, 'origin.git'))
    folder = os.path.join(ctx.root, 'A')
    handles = [ctx.must('clone', lambda: world.open_replica(origin, folder)) for _ in range(2)]
    versions = [(world.head(folder), files_of(folder))]
    wanted = {'master': versions[0][0]}     # commit of each branch
    current = ['master']
    dirt = []

    def files_at(commit):
        return next(f for c, f in versions if c == commit)

    def check(what, kind='not-restored'):
        name, commit = current[0], wanted[current[0]]
        if world.head(folder) != commit:
            ctx.violation(kind, '{}: the current commit is {}, and not {}'.format(what, world.head(folder), commit))
        got = files_of(folder)
        diff = changed(got, files_at(commit))
        if diff:
            p = diff[0]
            ctx.violation(kind, '{}: {} is {}, and was {} in the version'.format(what, p, got.get(p), files_at(commit).get(p)))
        if modes_of(folder):
            ctx.violation(kind, '{}: {} is executable'.format(what, sorted(modes_of(folder))[:2]))
        g = handles[0]
        if g.status():
            ctx.violation(kind, '{}: the status is {}'.format(what, g.status()))
        if g.get_version() != (name, commit) or g.current_commit != commit:
            ctx.violation(kind, '{}: the version is {}, and not {}'.format(what, g.get_version(), (name, commit)))
        for b, c in wanted.items():
            if world.branch_head(folder, b) != c:
                ctx.violation(kind, '{}: the branch {} is on {}, and not on {}'.format(what, b, world.branch_head(folder, b), c))
        if pygit2.Repository(folder).index.conflicts is not None or os.path.exists(os.path.join(folder, '.git', 'MERGE_HEAD')):
            ctx.violation(kind, '{}: a merge is left'.format(what))

    for n, op in enumerate(case['ops']):
        k = op['op']
        g = handles[op['handle']]
        what = 'operation {} ({})'.format(n, k)
        before = list(dirt)
        fault = op.get('fault')
        outcome = '-'

        if k == 'commit':
            if dirt or world.dirty(folder):
                continue
            o = ctx.attempt(lambda: txn.apply_txn(g, {'op': 'raw', 'body': op['body']}, False, None))
            if o.status != 'ok':
                ctx.violation('commit', '{}: {}\n{}'.format(what, o, o.tb))
            if world.head(folder) != wanted[current[0]]:
                versions.append((world.head(folder), files_of(folder)))
                wanted[current[0]] = versions[-1][0]
        elif k == 'write':
            x = dirty_the_folder(ctx, folder, op, versions, wanted)
            if x:
                dirt.append(x)
                ctx.probe('uncommitted: ' + x)
        elif k == 'branch':
            name = 'b{}'.format(n)
            c = versions[int(op['version'] * len(versions))][0]
            repo = pygit2.Repository(folder)
            repo.branches.local.create(name, repo[c])
            wanted[name] = c
        else:
            v = versions[int(op['version'] * len(versions))] if op.get('version') is not None else None
            name = sorted(wanted, reverse=True)[int(op['branch'] * len(wanted))] if op.get('branch') is not None else None
            want, cur = dict(wanted), current[0]
            if k == 'diff':
                (c0, f0), (c1, f1) = (versions[int(x * len(versions))] for x in op['versions'])
                if op['last'] and len(versions) > 1:
                    (c0, f0), (c1, f1) = versions[-2:]
                a, b = c0, c1
                if op['names'] and not op['last']:
                    b = 'HEAD'
                    f1 = files_at(wanted[current[0]])
                call = lambda: (g.diff(a, b), g.diff(b, a))
            elif k in ('reset', 'drop'):
                if v:
                    want[cur] = v[0]
                call = lambda: g.reset(*([v[0]] if v else []))
            else:
                cur = name or cur
                if v:
                    want[cur] = v[0]
                if k == 'checkout':
                    call = lambda: g.checkout(name, v and v[0])
                else:
                    call = lambda: world.open_replica(origin, folder, branch=name, commit_id=v and v[0]) and None
            fired = 0
            if fault:
                for again in range(1 + fault['again']):
                    fired += apply_fault(ctx, folder, origin, fault, call, again)
                    if k == 'diff':
                        continue
                    o = ctx.last
                    if o.status == 'ok':
                        wanted, current = want, [cur]
                        check('{} ({}) returned'.format(what, fault), 'not-restored')
                        break
                    # what a failed or killed operation leaves is one of the two
                outcome = ctx.last.short
                if k == 'diff' and ctx.last.status == 'ok':
                    check_both(ctx, what + ' with ' + str(fault), ctx.last.value, f0, f1)
                if fired:
                    world.remove_stale_locks(folder)
            o = ctx.attempt(call)
            if o.status != 'ok':
                ctx.violation('stuck' if fault else 'unexpected-error', '{}{}: {}\n{}'.format(what, ', after it met {}'.format(fault) if fault else '', o, o.tb))
            if k == 'diff':
                check_both(ctx, what, o.value, f0, f1)
            else:
                wanted, current = want, [cur]
                dirt = []
                check(what + (' done again after {}'.format(fault) if fault else '') + ' over {}'.format(before))
                if before or fired:
                    ctx.nontrivial = True
        ctx.trace(k, before, outcome, world.head(folder), sorted(files_of(folder).items()))
        ctx.state(k, tuple(sorted(set(before))), fault and fault['kind'], outcome, len(versions))


def check_both(ctx, what, value, f0, f1):
    d, back = value
    check_diff(ctx, what, d, f0, f1)
    check_diff(ctx, what + ' (backwards)', back, f1, f0)
    if sorted(d) != sorted(back):
        ctx.violation('wrong-diff', '{}: the difference lists {}, and backwards {}'.format(what, sorted(d), sorted(back)))


def apply_fault(ctx, folder, origin, fault, call, again):
    """Run call with the fault; its outcome in ctx.last. Returns 1 if the fault took place"""
    from sim import world
    C = ctx.ctl
    kind = fault['kind']
    snap = ctx.snapshot(folder)
    if kind in READ_FAULTS:
        ctx.arm_reads(kind, folder)
        ctx.attempt(lambda: ctx.in_child(call))
        total, _ = ctx.end_reads()
    else:
        total, _ = ctx.count_events(call)
    ctx.restore(snap)
    if not total:
        ctx.last = ctx.in_child(call)
        return 0
    at = pick(fault['at'], total)
    if kind in READ_FAULTS:
        ctx.arm_reads(kind, folder, at, ERRNOS[fault['errno']])
        ctx.last = ctx.in_child(call)
        _, fired = ctx.end_reads()
    else:
        ctx.last = ctx.in_child(call, dict(at=at, kind=kind, errno=ERRNOS[fault['errno']], torn=fault['torn']))
        fired = C.fired or ctx.last.status == 'crash'
        C.clear()
    if fired:
        ctx.fault(kind if kind in KILLS else '{} {}'.format(kind, fault['errno']))
    if ctx.last.status == 'crash' or (fired and kind.endswith('_forever')):
        world.remove_stale_locks(folder)
    return int(bool(fired))
