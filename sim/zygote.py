"""A process forked before anything happened in a run, which forks a child per request: answers that owe nothing to the
memory of the other processes."""
import os
import pickle
import struct
import traceback

from sim.core import HarnessError, Outcome


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<I', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def exactly(n):
        res = b''
        while len(res) < n:
            x = os.read(fd, n - len(res))
            if not x:
                return None
            res += x
        return res
    h = exactly(4)
    if h is None:
        return None
    return pickle.loads(exactly(struct.unpack('<I', h)[0]))


class Zygote:
    def __init__(self, ctx, fn):
        """fn(arg) -> value, run in a new process for each request"""
        self.ctx = ctx
        r, self.w = os.pipe()
        self.r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                while True:
                    req = _recv(r)
                    if req is None:
                        break
                    pid = os.fork()
                    if pid == 0:
                        try:
                            o = ctx.attempt(lambda: fn(req[0]))
                        except BaseException as e:
                            o = Outcome('harness', tb=''.join(traceback.format_exception(type(e), e, e.__traceback__)))
                        try:
                            _send(w, o)
                        finally:
                            os._exit(0)
                    os.waitpid(pid, 0)
            finally:
                os._exit(0)
        os.close(r)
        os.close(w)

    def __call__(self, arg):
        _send(self.w, (arg,))
        o = _recv(self.r)
        if o is None or o.status == 'harness':
            raise HarnessError('zygote: {}'.format(o.tb if o else 'died'))
        return o
