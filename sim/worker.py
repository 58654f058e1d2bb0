"""
A worker: imports the code under test once, then forks a child per case. Reads one JSON request per line on stdin,
writes one JSON answer per line on stdout. Started by sim/runner.py with the seams in its environment.
"""
import importlib
import json
import os
import select
import shutil
import signal
import sys
import time
import traceback


def main():
    prop_name, scratch = sys.argv[1:3]
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('SIM_DEBUG'):
        os.dup2(devnull, 2)

    from sim.shim import Ctl
    from sim import core
    ctl = Ctl(os.environ['SIMSHIM_CTL'])
    prop = importlib.import_module('sim.props.' + prop_name.lower())
    if hasattr(prop, 'prepare'):
        try:
            prop.prepare()
        except BaseException as e:
            out.write('FAILED ' + json.dumps(''.join(traceback.format_exception(type(e), e, e.__traceback__))) + '\n')
            out.flush()
            os._exit(1)

    out.write('READY\n')
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        root = os.path.join(scratch, 'run')
        for d in (root, os.path.join(scratch, 'snapshots')):
            if os.path.exists(d):
                shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        r, w = os.pipe()
        t0 = time.monotonic()
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            os.close(r)
            os.chdir(root)
            res = core.execute(prop, req['case'], root, ctl)
            data = json.dumps(res).encode('utf8', 'backslashreplace')
            with os.fdopen(w, 'wb') as fp:
                fp.write(data)
            os._exit(0)
        os.close(w)
        data = b''
        deadline = t0 + req.get('timeout', 60)
        hang = False
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                hang = True
                break
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                hang = True
                break
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
        os.close(r)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        _, status = os.waitpid(pid, 0)
        ctl.clear()
        if hang:
            res = {'hang': True, 'violation': None, 'harness_error': None}
        elif not data:
            res = {'violation': None, 'harness_error': 'run ended with status {} and no result'.format(status)}
        else:
            res = json.loads(data)
        res['wall'] = time.monotonic() - t0
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
