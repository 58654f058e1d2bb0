"""The simulated world: an origin, replicas, what their files contain. Runs in the workers."""
import csv
import io
import os
import shutil
from collections import Counter

import pygit2

# the network seam: installed before the code under test is imported
_real_fetch = pygit2.Remote.fetch
_real_push = pygit2.Remote.push
_real_clone = pygit2.clone_repository


class Net:
    """The network between the replicas and their remotes. plan: what happens to the next requests."""
    plan = []       # list of 'ok' | 'lost' | 'ack_lost' ; empty: everything goes through
    partitioned = False
    log = []

    @classmethod
    def reset(cls):
        cls.plan, cls.partitioned, cls.log = [], False, []

    @classmethod
    def around(cls, what, fn):
        how = cls.plan.pop(0) if cls.plan else 'ok'
        if cls.partitioned:
            how = 'lost'
        cls.log.append((what, how))
        if how == 'lost':
            raise pygit2.GitError('simulated network: unreachable ({})'.format(what))
        res = fn()
        if how == 'ack_lost':
            raise pygit2.GitError('simulated network: connection reset ({})'.format(what))
        return res


def _fetch(self, *args, **kwargs):
    return Net.around('fetch', lambda: _real_fetch(self, *args, **kwargs))


def _push(self, *args, **kwargs):
    return Net.around('push', lambda: _real_push(self, *args, **kwargs))


def _clone(*args, **kwargs):
    return Net.around('clone', lambda: _real_clone(*args, **kwargs))


def install():
    pygit2.Remote.fetch = _fetch
    pygit2.Remote.push = _push
    pygit2.clone_repository = _clone
    pygit2.option(pygit2.GIT_OPT_SET_OWNER_VALIDATION, 0) if hasattr(pygit2, 'GIT_OPT_SET_OWNER_VALIDATION') else None
    import ieml.ieml_database
    from ieml.ieml_database.transactions import DBTransaction
    from ieml.usl.usl import usl
    usl('a. b.')


def sig(n=0):
    return pygit2.Signature('sim', 'sim@sim', 1600000000 + n, 0)


def make_origin(path, branch='master'):
    """A bare repository whose branch is `branch`; it has a branch master too, that nobody touches if it isn't the same"""
    repo = pygit2.init_repository(path, bare=True, initial_head=branch)
    blob = repo.create_blob(b'simulated origin\n')
    tb = repo.TreeBuilder()
    tb.insert('README', blob, 0o100644)
    c = repo.create_commit('refs/heads/' + branch, sig(), sig(), 'first', tb.write(), [])
    if branch != 'master':
        repo.create_commit('refs/heads/master', sig(), sig(), 'another branch', tb.write(), [c])
    return path


def refs(folder):
    repo = pygit2.Repository(folder)
    return {r: str(repo.references[r].resolve().target) for r in repo.references}


def add_branches(folder):
    """Branches of the replica other than the current one, which no operation is about. Returns (their names, their commits)"""
    repo = pygit2.Repository(folder)
    for b in ('master', 'another', 'origin/dev'):
        if b not in repo.branches.local:
            repo.branches.local.create(b, repo[repo.head.target])
    return other_branches(folder)


def other_branches(folder):
    return {r: c for r, c in refs(folder).items() if not r.startswith('refs/remotes/') and r not in ('HEAD', current_ref(folder))}


def current_ref(folder):
    return pygit2.Repository(folder).references['HEAD'].target


def open_replica(origin, folder, **kw):
    from ieml.ieml_database import GitInterface
    return GitInterface(origin=origin, folder=folder, **kw)


def database(folder, **kw):
    from ieml.ieml_database import IEMLDatabase
    return IEMLDatabase(folder=folder, **kw)


def transactions(gitdb, **kw):
    from ieml.ieml_database.transactions.DBTransaction import DBTransactions
    return DBTransactions(gitdb, sig(1), **kw)


# ------------------------------------------------------------------ content, read independently of the code

def parse_lines(data, n):
    rows = []
    for row in csv.reader(io.StringIO(data.decode('utf8'), newline=''), delimiter=' ', quotechar='"', doublequote=True):
        if not row:
            continue
        rows.append(tuple(row) if len(row) == n else ('MALFORMED',) + tuple(row))
    return rows


def _content(files):
    """files: iterable of (path, bytes). The entries: ('D', ieml, lang, desc, value) and ('S', ieml, key, value)"""
    res = Counter()
    for path, data in files:
        if path.endswith('.desc'):
            res.update(('D',) + r for r in parse_lines(data, 4))
        elif path.endswith('.ieml'):
            res.update(('S',) + r for r in parse_lines(data, 3))
    return res


def workdir_files(folder):
    for dirpath, dirs, files in os.walk(folder):
        if '.git' in dirs:
            dirs.remove('.git')
        for f in files:
            p = os.path.join(dirpath, f)
            with open(p, 'rb') as fp:
                yield os.path.relpath(p, folder), fp.read()


def workdir_content(folder):
    return _content(workdir_files(folder))


def tree_files(repo, tree, prefix=''):
    for e in tree:
        o = repo[e.id]
        if isinstance(o, pygit2.Tree):
            yield from tree_files(repo, o, prefix + e.name + '/')
        else:
            yield prefix + e.name, o.data


def commit_files(folder, rev='HEAD'):
    repo = pygit2.Repository(folder)
    c = repo.revparse_single(str(rev)).peel(pygit2.Commit)
    return dict(tree_files(repo, c.tree))


def commit_content(folder, rev='HEAD'):
    return _content(commit_files(folder, rev).items())


def head(folder):
    return str(pygit2.Repository(folder).head.target)


def branch_head(folder, name=None):
    """The commit of a branch, the current one by default"""
    repo = pygit2.Repository(folder)
    return str((repo.lookup_reference('refs/heads/' + name) if name else repo.head).target)


def parents(folder, rev='HEAD'):
    return [str(p) for p in pygit2.Repository(folder).revparse_single(str(rev)).peel(pygit2.Commit).parent_ids]


def is_ancestor(folder, old, new):
    repo = pygit2.Repository(folder)
    return old == new or (old in repo and new in repo and repo.descendant_of(new, old))


def dirty(folder):
    """Independent of the code: files of the working directory that are not those of HEAD (hidden root files aside)"""
    committed = commit_files(folder)
    work = {p: d for p, d in workdir_files(folder) if not p.startswith('.')}
    res = []
    for p in sorted(set(committed) | set(work)):
        if committed.get(p) != work.get(p):
            res.append(p)
    return res


def remove_stale_locks(*folders):
    """What git asks the user to do after a crash: remove the lock files nobody holds any more"""
    n = 0
    for folder in folders:
        for base in (os.path.join(folder, '.git'), folder):
            if os.path.exists(os.path.join(base, 'HEAD')):
                for dirpath, dirs, files in os.walk(base):
                    for f in files:
                        if f.endswith('.lock'):
                            os.remove(os.path.join(dirpath, f))
                            n += 1
                break
    return n


def show(diff, n=6):
    return '; '.join('{}x{}'.format(c, k) for k, c in sorted(diff.items())[:n])


def difference(a, b):
    """What differs between two contents, readable"""
    return 'missing: [{}] unexpected: [{}]'.format(show(b - a), show(a - b))
