"""
The thread scheduler. The threads of a run are real threads, but only the one that has the baton runs; it gives the baton away
at a preemption of the schedule, when it waits for a lock, sleeps, or ends. The points where it can be preempted are the lines
(or the bytecode instructions) executed in given files, so one schedule is one execution.

install() replaces the locks of `threading` before the code under test is imported.
"""
import _thread
import sys
import threading
import time

_real_allocate = _thread.allocate_lock
_active = None
M = sys.monitoring
TOOL = 4


class Stuck(BaseException):
    """No thread can go on, or too many steps"""


def _me():
    s = _active
    return s.threads.get(_thread.get_ident()) if s is not None else None


class SimLock:
    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        t = _me()
        if t is not None:
            _active.locks += 1
        if not blocking or timeout == 0:
            if self.owner is not None:
                return False
        else:
            waited = False
            while self.owner is not None:
                if timeout > 0 and waited:
                    return False
                if t is None:
                    raise Stuck('the main thread waits for a lock that nobody will release (held by {})'.format(self.owner))
                if timeout > 0:
                    _active.pause(t)
                    waited = True
                else:
                    _active.block(t, self)
        self.owner = t.name if t is not None else 'main'
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.owner = None
        if _active is not None:
            _active.wake(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_):
        self.release()

    def _at_fork_reinit(self):
        self.owner = None


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self.count = 0
        self.ident = None

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.ident == me:
            self.count += 1
            return True
        if super().acquire(blocking, timeout):
            self.ident = me
            self.count = 1
            return True
        return False

    def release(self):
        if self.ident != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if self.count == 0:
            self.ident = None
            super().release()

    def _is_owned(self):
        return self.ident == _thread.get_ident()

    def _release_save(self):
        state = (self.count, self.ident)
        self.count = 0
        self.ident = None
        super().release()
        return state

    def _acquire_restore(self, state):
        super().acquire()
        self.count, self.ident = state

    def _at_fork_reinit(self):
        super()._at_fork_reinit()
        self.ident = None
        self.count = 0


_real_sleep = time.sleep


def _sleep(s):
    t = _me()
    if t is None:
        _real_sleep(s)
    else:
        _active.pause(t)


def install():
    threading.Lock = threading._allocate_lock = _thread.allocate_lock = _thread.allocate = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    time.sleep = _sleep


class _Thread:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.baton = _real_allocate()
        self.baton.acquire()
        self.blocked = None
        self.done = False
        self.result = None
        self.error = None
        self.steps = 0
        self.injected = 0


def _lines_without_faults(path):
    """
    The lines where no exception is injected, because no code can be right if one happens there: the `with` and `try` lines
    (between taking a lock and being able to release it), the `finally` blocks, the calls of acquire and release.
    """
    import ast
    res = set()
    try:
        src = open(path).read()
        tree = ast.parse(src)
    except (OSError, SyntaxError):
        return None
    for n in ast.walk(tree):
        if isinstance(n, ast.With):
            res.update(range(n.lineno, n.body[0].lineno))
        elif isinstance(n, ast.Try):
            res.update(range(n.lineno, n.body[0].lineno))
            for x in n.finalbody:
                res.update(range(x.lineno, x.end_lineno + 1))
    for i, l in enumerate(src.splitlines(), 1):
        if 'acquire(' in l or 'release(' in l:
            res.add(i)
    return res


_no_faults = {}


def _fault_allowed(code, line):
    f = code.co_filename
    if f not in _no_faults:
        _no_faults[f] = _lines_without_faults(f)
    no = _no_faults[f]
    if no is None or '/ply/' in f:
        return False
    fr = sys._getframe(2)
    if fr.f_lineno in no:
        return False
    while fr is not None:
        if fr.f_code.co_name in ('__enter__', '__exit__', '__del__'):
            return False
        fr = fr.f_back
    return True


def injected():
    """How many exceptions were injected in the calling thread"""
    t = _me()
    return t.injected if t is not None else 0


class Sched:
    """
    fns: what each thread does. scope: a predicate on file names. preemptions: {step: choice}; at this step of the run the
    baton goes to another thread that can go on, the (choice mod n)-th of them. failures: steps at which an allocation fails
    (MemoryError in the thread that runs, at the first line where code can be expected to stand it).
    """

    def __init__(self, fns, scope, preemptions=None, opcodes=False, limit=5000000, failures=()):
        self.failures = sorted(failures)
        self.failed = []
        self.list = [_Thread('t{}'.format(i), f) for i, f in enumerate(fns)]
        self.threads = {}
        self.scope = scope
        self.pre = dict(preemptions or {})
        self.opcodes = opcodes
        self.limit = limit
        self.step = 0
        self.switches = []
        self.locks = 0
        self.stuck = None
        self.end = _real_allocate()
        self.end.acquire()
        self._scope_cache = {}
        self.last_choice = 0
        self.window = None

    # -- the points
    def _start(self, code, offset):
        f = code.co_filename
        r = self._scope_cache.get(f)
        if r is None:
            r = self._scope_cache[f] = bool(self.scope(f))
        if r:
            M.set_local_events(TOOL, code, M.events.INSTRUCTION if self.opcodes else M.events.LINE)
        return M.DISABLE

    def _point(self, code, line):
        t = _me()
        if t is None:
            return
        self.step += 1
        if self.step in self.pre:
            others = [x for x in self.list if x is not t and not x.done and x.blocked is None]
            if others:
                o = others[self.pre[self.step] % len(others)]
                self.switches.append((self.step, t.name, o.name, code.co_name, line))
                self.give(t, o)
        elif self.step > self.limit:
            self.give_up('more than {} steps'.format(self.limit))
        if self.failures and self.step >= self.failures[0] and _fault_allowed(code, line):
            self.failures.pop(0)
            t.injected += 1
            self.failed.append((self.step, t.name, code.co_name, line))
            raise MemoryError('simulated')

    def _monitor(self):
        M.use_tool_id(TOOL, 'sim')
        M.register_callback(TOOL, M.events.PY_START, self._start)
        M.register_callback(TOOL, M.events.INSTRUCTION if self.opcodes else M.events.LINE, self._point)
        M.set_events(TOOL, M.events.PY_START)

    # -- the baton
    def give(self, t, o):
        o.baton.release()
        t.baton.acquire()

    def give_up(self, why):
        self.stuck = why
        self.end.release()
        _real_allocate_forever()

    def runnable(self, t):
        l = self.list
        i = l.index(t)
        for k in range(1, len(l) + 1):
            x = l[(i + k) % len(l)]
            if x is not t and not x.done and x.blocked is None:
                return x
        return None

    def block(self, t, lock):
        t.blocked = lock
        o = self.runnable(t)
        if o is None:
            self.give_up('deadlock: ' + ', '.join('{} waits for a lock of {}'.format(x.name, x.blocked.owner)
                                                  for x in self.list if x.blocked is not None))
        self.switches.append((self.step, t.name, o.name, 'waits', 0))
        self.give(t, o)

    def pause(self, t):
        self.step += 1
        if self.step > self.limit:
            self.give_up('more than {} steps'.format(self.limit))
        o = self.runnable(t)
        if o is not None:
            self.switches.append((self.step, t.name, o.name, 'sleeps', 0))
            self.give(t, o)

    def wake(self, lock):
        for x in self.list:
            if x.blocked is lock:
                x.blocked = None

    def _main(self, t):
        self.threads[_thread.get_ident()] = t
        t.baton.acquire()
        try:
            t.result = t.fn()
        except BaseException as e:
            t.error = e
        t.done = True
        o = self.runnable(t)
        if o is not None:
            o.baton.release()
        elif any(not x.done for x in self.list):
            self.stuck = 'deadlock at the end of {}: '.format(t.name) + ', '.join(
                '{} waits for a lock of {}'.format(x.name, x.blocked.owner) for x in self.list if not x.done)
            self.end.release()
        else:
            self.end.release()

    def run(self):
        global _active
        _active = self
        for t in self.list:
            _thread.start_new_thread(self._main, (t,))
        while len(self.threads) < len(self.list):
            _real_sleep(0.0002)
        self._monitor()
        self.list[0].baton.release()
        self.end.acquire()
        M.set_events(TOOL, 0)
        M.free_tool_id(TOOL)
        _active = None
        return self.list


def _real_allocate_forever():
    l = _real_allocate()
    l.acquire()
    l.acquire()
