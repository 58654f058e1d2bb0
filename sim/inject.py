"""Running something at a chosen point inside a call of the library: at the k-th auditable event of it (open, Popen, listdir...).
The events come from the interpreter, so the points do not depend on how the code is written."""
import os
import sys
import time

EVENTS = {'open', 'subprocess.Popen', 'os.listdir', 'os.scandir', 'os.remove', 'os.rename', 'os.mkdir', 'os.truncate'}
_s = {'on': False, 'n': 0, 'at': -1, 'fn': None, 'root': '', 'fired': 0, 'ignore': set()}
_hooked = []


def quiesce(limit=20):
    """Wait until the subprocesses of this process have ended (or wait for input)"""
    t0 = time.monotonic()
    me = os.getpid()
    while time.monotonic() - t0 < limit:
        busy = False
        try:
            kids = open('/proc/self/task/{}/children'.format(me)).read().split()
        except OSError:
            return
        todo = [k for k in kids if k not in _s['ignore']]
        while todo:
            k = todo.pop()
            try:
                st = open('/proc/{}/stat'.format(k)).read().rsplit(')', 1)[1].split()[0]
                todo += open('/proc/{}/task/{}/children'.format(k, k)).read().split()
            except OSError:
                continue
            if st not in 'Z':
                busy = True
        if not busy:
            return
        time.sleep(0.0005)


def _hook(event, args):
    if not _s['on'] or event not in EVENTS:
        return
    if event != 'subprocess.Popen':
        p = args[0] if args else None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not isinstance(p, str) or not os.path.abspath(p).startswith(_s['root']):
            return
    k = _s['n']
    _s['n'] += 1
    if k == _s['at']:
        _s['on'] = False
        try:
            quiesce()
            _s['fired'] += 1
            _s['fn']()
        finally:
            _s['on'] = True


def during(fn, at, inject, root):
    """Run fn, with inject() run at the at-th event under root (or start of a subprocess) of it. Returns (fired, events)"""
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked.append(1)
    try:
        _s['ignore'] = set(open('/proc/self/task/{}/children'.format(os.getpid())).read().split())
    except OSError:
        _s['ignore'] = set()
    _s.update(on=True, n=0, at=at, fn=inject, root=root, fired=0)
    try:
        fn()
    finally:
        _s['on'] = False
    return _s['fired'], _s['n']


def events():
    return _s['n'], _s['fired']
