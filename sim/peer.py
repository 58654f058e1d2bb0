"""
A peer: another process that runs the same code with another hash seed. It forks a child per request. Started by the worker,
shares its seam (LD_PRELOAD, control block).
"""
import importlib
import os
import pickle
import struct
import subprocess
import sys
import traceback


def _read(fd, n):
    res = b''
    while len(res) < n:
        b = os.read(fd, n - len(res))
        if not b:
            return None
        res += b
    return res


def _recv(fd):
    h = _read(fd, 4)
    return None if h is None else pickle.loads(_read(fd, struct.unpack('<I', h)[0]))


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<I', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


class Peer:
    """fn: name of a function of the module of the property, called with the request in a forked child"""

    def __init__(self, prop, hash_seed):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.hash_seed = hash_seed
        self.proc = subprocess.Popen([sys.executable, '-m', 'sim.peer', prop, str(r1), str(w2)], pass_fds=(r1, w2),
                                     env=dict(os.environ, PYTHONHASHSEED=str(hash_seed)), stdin=subprocess.DEVNULL)
        os.close(r1)
        os.close(w2)
        self.r, self.w = r2, w1
        self.n = 0

    def wait(self):
        r = _recv(self.r)
        if r != 'ready':
            raise RuntimeError('a peer can\'t start: {}'.format(r))

    def call(self, fn, *args):
        """('ok', value), ('error', type, message) or ('crash', text)"""
        self.n += 1
        n = (os.getpid(), self.n)
        _send(self.w, (n, fn, args))
        while True:
            r = _recv(self.r)
            if r is None:
                raise RuntimeError('a peer died')
            if r[0] == n:
                return r[1]


def main():
    prop, r, w = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    try:
        m = importlib.import_module('sim.props.' + prop)
        m.peer_prepare()
    except BaseException:
        _send(w, traceback.format_exc())
        os._exit(1)
    _send(w, 'ready')
    while True:
        req = _recv(r)
        if req is None:
            os._exit(0)
        n, fn, args = req
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    res = ('ok', getattr(m, fn)(*args))
                except Exception as e:
                    res = ('crash', ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
                _send(w2, res)
            finally:
                os._exit(0)
        os.close(w2)
        res = _recv(r2)
        os.close(r2)
        os.waitpid(pid, 0)
        _send(w, (n, res if res is not None else ('crash', 'the process died')))


if __name__ == '__main__':
    main()
