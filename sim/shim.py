"""The control block of the LD_PRELOAD seam (shim/simshim.c)."""
import mmap
import os
import struct

MAGIC = 0x51D5111D
LOG_SIZE = 1 << 20
SIZE = 4096 + LOG_SIZE

FIELDS = {n: 8 * i for i, n in enumerate(
    ['magic', 'armed_pid', 'counter', 'fault_at', 'fault_kind', 'fault_errno', 'torn', 'fired', 'readdir_seed',
     'clock_ns', 'clock_step', 'rf_at', 'rf_counter', 'rf_kind', 'rf_errno', 'rf_fired', 'rf_count_on', 'ex_kind',
     'ex_fired', 'log_on', 'log_len', 'second_at', 'clock_calls', 'rf_opens'])}
FIELDS.update(ft_ns=1600, ft_step=1608)
STRINGS = {'root': (192, 256), 'repo': (448, 256), 'ex_prog': (704, 64), 'rf_prog': (768, 64), 'scope': (832, 256), 'rf_path': (1088, 512)}

KINDS = {'crash_before': 1, 'crash_after': 2, 'torn': 3, 'errno': 4, 'errno_forever': 5, 'short': 6, 'stop': 7}


class Ctl:
    def __init__(self, path, create=False):
        object.__setattr__(self, 'path', path)
        if create:
            with open(path, 'wb') as fp:
                fp.truncate(SIZE)
                fp.write(struct.pack('<Q', MAGIC))
        fd = os.open(path, os.O_RDWR)
        object.__setattr__(self, 'm', mmap.mmap(fd, SIZE))
        os.close(fd)
        if create:
            self.fault_at = self.rf_at = self.second_at = -1

    def __getattr__(self, name):
        if name in FIELDS:
            return struct.unpack_from('<q', self.m, FIELDS[name])[0]
        if name in STRINGS:
            off, n = STRINGS[name]
            return bytes(self.m[off:off + n]).split(b'\0', 1)[0].decode('utf8')
        raise AttributeError(name)

    def __setattr__(self, name, value):
        if name in FIELDS:
            struct.pack_into('<q', self.m, FIELDS[name], int(value))
        elif name in STRINGS:
            off, n = STRINGS[name]
            b = value.encode('utf8')
            assert len(b) < n
            self.m[off:off + n] = b + b'\0' * (n - len(b))
        else:
            raise AttributeError(name)

    def clear(self):
        """No fault, no counting. The clock, the root and the directory order stay."""
        self.armed_pid = 0
        self.counter = 0
        self.fault_at = self.rf_at = self.second_at = -1
        self.fault_kind = self.fault_errno = self.torn = self.fired = 0
        self.rf_counter = self.rf_kind = self.rf_errno = self.rf_fired = self.rf_count_on = self.rf_opens = 0
        self.ex_kind = self.ex_fired = 0
        self.ex_prog = self.rf_prog = self.scope = self.rf_path = ''

    def arm(self, pid, at=-1, kind='crash_before', errno=0, torn=128, second=-1, scope=''):
        self.clear()
        self.fault_at, self.fault_kind, self.fault_errno, self.torn, self.second_at = \
            at, KINDS[kind], errno, torn, second
        self.scope = scope
        self.armed_pid = pid

    def log_start(self):
        self.log_len = 0
        self.log_on = 1

    def log_take(self):
        n = self.log_len
        res = bytes(self.m[4096:4096 + n]).decode('utf8', 'replace')
        self.log_len = 0
        return res
