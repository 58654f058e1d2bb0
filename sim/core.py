"""
What a simulated run is made of.

A run executes a *case* (plain JSON: operations, faults, schedule, all explicit) in a child forked from a worker
(sim/worker.py). The worker has PYTHONHASHSEED fixed, the LD_PRELOAD seam loaded, and the code of /repo imported.
"""
import errno as _errno
import hashlib
import json
import os
import pickle
import shutil
import signal
import sys
import traceback

REPO = '/repo'


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    pass


def from_code_under_test(tb):
    """True if the exception was raised at or below a frame of the code of the repository"""
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO + '/') or '/ieml/' in f:
            return True
        tb = tb.tb_next
    return False


class Outcome:
    """What happened to an operation: 'ok' (value), 'exc' (type name, message) or 'crash'"""

    def __init__(self, status, value=None, exc=None, message=None, tb=None):
        self.status = status
        self.value = value
        self.exc = exc
        self.message = message
        self.tb = tb

    def __repr__(self):
        if self.status == 'ok':
            return 'ok'
        if self.status == 'exc':
            return '{}: {}'.format(self.exc, self.message)
        return self.status

    @property
    def short(self):
        return self.status if self.status != 'exc' else 'exc:' + self.exc


class Ctx:
    """The services of the simulator for one run"""

    def __init__(self, root, ctl, case):
        self.root = root
        self.ctl = ctl
        self.case = case
        self.stats = {}
        self.faults = {}
        self.states = set()
        self.events = []
        self.nontrivial = False
        self._hash = hashlib.sha256()
        self.main_pid = os.getpid()

    # -- recording
    def trace(self, *items):
        line = ' '.join(i if isinstance(i, str) else json.dumps(i, sort_keys=True, default=str) for i in items)
        line = line.replace(self.root, '@')
        self._hash.update(line.encode('utf8', 'backslashreplace') + b'\n')
        if len(self.events) < 400:
            self.events.append(line[:500])

    def probe(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.nontrivial = True

    def state(self, *key):
        self.states.add(hashlib.sha256(repr(key).encode('utf8', 'backslashreplace')).hexdigest()[:12])

    def violation(self, kind, detail):
        raise Violation(kind, str(detail)[:4000])

    # -- running operations
    def attempt(self, fn):
        """Run fn in this process, never raises"""
        try:
            return Outcome('ok', fn())
        except Violation:
            raise
        except BaseException as e:
            if isinstance(e, (HarnessError, MemoryError)):
                raise
            return Outcome('exc', exc=type(e).__name__, message=str(e)[:300],
                           tb=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])

    def must(self, what, fn, kind='unexpected-error'):
        """Run fn, which the property requires to succeed"""
        o = self.attempt(fn)
        if o.status != 'ok':
            self.violation(kind, '{} failed: {}\n{}'.format(what, o, o.tb))
        return o.value

    def in_child(self, fn, fault=None):
        """
        Run fn in a forked process, with a fault plan for its file operations:
        fault = {'at': k, 'kind': ..., 'errno': ..., 'torn': ..., 'second': ..., 'scope': ...}
        """
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                if fault is not None:
                    self.ctl.arm(os.getpid(), **fault)
                o = self.attempt(fn)
                self.ctl.armed_pid = 0
                o = ('h', None) if o is None else ('o', o)
            except BaseException as e:
                self.ctl.armed_pid = 0
                o = ('h', ''.join(traceback.format_exception(type(e), e, e.__traceback__)),
                     (e.kind, e.detail) if isinstance(e, Violation) else None)
            try:
                with os.fdopen(w, 'wb') as fp:
                    pickle.dump(o, fp)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as fp:
            data = fp.read()
        _, status = os.waitpid(pid, 0)
        self.ctl.armed_pid = 0
        if not data:
            if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 137:
                return Outcome('crash')
            raise HarnessError('child ended with status {}'.format(status))
        o = pickle.loads(data)
        if o[0] == 'h':
            if len(o) > 2 and o[2]:
                raise Violation(*o[2])
            raise HarnessError(o[1])
        return o[1]

    def count_events(self, fn, scope=''):
        """How many mutating file operations fn does, in a forked process. The caller restores the files."""
        o = self.in_child(fn, {'at': -1, 'scope': scope})
        return self.ctl.counter, o

    def arm_reads(self, kind, git, at=-1, errno=0):
        """
        Count the reading operations of one kind (READS) from now on, and fail the one numbered `at`; with '_forever', its path fails
        from then on. `git`: the folder whose .git is meant. To be followed by end_reads.
        """
        how, _, forever = kind.partition('_')
        self.ctl.clear()
        opens, in_git = READS[how]
        if in_git:
            self.ctl.root = os.path.join(git, '.git')
        self.ctl.rf_opens, self.ctl.rf_prog, self.ctl.rf_at, self.ctl.rf_kind, self.ctl.rf_errno = \
            opens, 'python', at, 4 if forever else 1, errno
        self.ctl.rf_count_on = 1

    def end_reads(self):
        """(number of reading operations, how many failed)"""
        res = self.ctl.rf_counter, self.ctl.rf_fired
        self.ctl.clear()
        self.ctl.root = self.root
        return res

    def snapshot(self, *paths):
        dst = os.path.join(os.path.dirname(self.root), 'snapshots', str(len(self.events)) + '-' + str(os.getpid()))
        if os.path.exists(dst):
            shutil.rmtree(dst)
        os.makedirs(dst)
        for i, p in enumerate(paths):
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(dst, str(i)), symlinks=True)
        return dst, paths

    def restore(self, snap):
        dst, paths = snap
        for i, p in enumerate(paths):
            shutil.rmtree(p, ignore_errors=True)
            src = os.path.join(dst, str(i))
            if os.path.isdir(src):
                os.rename(src, p)
        shutil.rmtree(dst, ignore_errors=True)


# the reading operations that can fail: stats and listings of the working directory, opens and reads in .git, all of them
READS = {'look': (8 + 2, False), 'gitread': (4 + 1, True), 'anyread': (8 + 4 + 1, False)}
READ_FAULTS = {'look': 'a file or directory not looked at', 'look_forever': 'a file or directory not looked at from then on',
               'gitread': 'error on a read of .git', 'gitread_forever': 'error on a file of .git from then on',
               'anyread': 'error on a read', 'anyread_forever': 'error on a file from then on'}


def execute(prop, case, root, ctl):
    """Run one case in this process (a fork of the worker). Returns the result dict."""
    ctl.clear()
    ctl.root = root
    ctl.readdir_seed = case.get('readdir_seed', 1)
    ctl.clock_ns = case.get('clock', 1600000000) * 10 ** 9
    ctl.clock_step = 1000003
    start = ctl.clock_ns
    # files have simulated times too, of any granularity (0: they are all equal)
    ctl.ft_ns = 0 if getattr(prop, 'REAL_FILE_TIMES', False) else ctl.clock_ns
    ctl.ft_step = [0, 1, 10 ** 7, 10 ** 9, 3 * 10 ** 9][ctl.readdir_seed % 5]
    ctx = Ctx(root, ctl, case)
    if case.get('log'):
        ctl.log_start()
    res = {'violation': None, 'harness_error': None}
    try:
        prop.run(case, ctx)
    except Violation as v:
        res['violation'] = {'kind': v.kind, 'detail': v.detail.replace(root, '@')}
    except BaseException as e:
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        if from_code_under_test(e.__traceback__) and not isinstance(e, (HarnessError, MemoryError)):
            res['violation'] = {'kind': 'unexpected-error', 'detail': text[-3000:].replace(root, '@')}
        else:
            res['harness_error'] = text[-4000:]
    res.update(stats=ctx.stats, faults=ctx.faults, states=sorted(ctx.states), digest=ctx._hash.hexdigest()[:20],
               events=ctx.events, nontrivial=ctx.nontrivial, sim_ns=max(0, ctl.clock_ns - start))
    ctl.clear()
    if case.get('log'):
        ctl.log_on = 0
        res['log'] = ctl.log_take()
    return res


ERRNOS = {'EIO': _errno.EIO, 'ENOSPC': _errno.ENOSPC, 'EACCES': _errno.EACCES, 'EMFILE': _errno.EMFILE,
          'ENOMEM': _errno.ENOMEM, 'EROFS': _errno.EROFS, 'ENFILE': _errno.ENFILE, 'EDQUOT': _errno.EDQUOT}


def gen_at(rng):
    """Which of the operations of a step is hit: anywhere, or near the end (negative), where the commit becomes visible"""
    return -1 - min(rng.randrange(16), rng.randrange(12), rng.randrange(12)) if rng.random() < 0.35 else rng.randrange(1 << 20)


def pick(at, n):
    if n <= 0:
        return -1
    return max(0, n + at) if at < 0 else at % n
