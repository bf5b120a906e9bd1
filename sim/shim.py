"""Control of the LD_PRELOAD layer (sim/simio.c) from Python."""
import ctypes
import errno
import os
import struct
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
OPEN, READ, WRITE, TRUNC, CLOSE, FSYNC, LSEEK = range(7)
OPS = {'open': OPEN, 'read': READ, 'write': WRITE, 'trunc': TRUNC,
       'close': CLOSE, 'fsync': FSYNC, 'lseek': LSEEK}
ERRNO, SHORT, DROP, CALLBACK, ERRAFTER, SIGINT = range(6)
ACTS = {'err': ERRNO, 'short': SHORT, 'callback': CALLBACK, 'errafter': ERRAFTER,
        'sigint': SIGINT}
FOREVER = 1 << 60


def build(force=False):
    """Compile the layer; returns its path."""
    src = os.path.join(HERE, 'simio.c')
    out = os.path.join(os.path.dirname(HERE), 'build', 'simio.so')
    if not force and os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = '%s.%d' % (out, os.getpid())
    subprocess.check_call(['gcc', '-O2', '-w', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-shared',
                           '-fPIC', '-o', tmp, src, '-ldl'])
    os.replace(tmp, out)
    return out


class Shim(object):
    def __init__(self):
        L = ctypes.CDLL(None)
        lo, i, cp = ctypes.c_long, ctypes.c_int, ctypes.c_char_p
        L.sim_enable.argtypes = [cp]
        L.sim_rule.argtypes = [i, cp, i, lo, lo, i, i, i]
        for f in 'sim_quota sim_budget'.split():
            getattr(L, f).argtypes = [lo]
        L.sim_clock.argtypes = [ctypes.c_int64, ctypes.c_int64]
        for f in ('sim_rule_fired sim_rule_seen sim_opcount sim_faultcount sim_quota_hits '
                  'sim_totalops sim_loglen sim_clockreads').split():
            getattr(L, f).restype = lo
        L.sim_now.restype = ctypes.c_int64
        L.sim_digest.restype = ctypes.c_uint64
        L.sim_mix.argtypes = [cp, lo]
        L.sim_logbuf.restype = ctypes.c_void_p
        L.sim_path.restype = cp
        L.sim_fdpath.restype = cp
        self.L = L
        self.prefix = ''

    def enable(self, prefix, budget=0):
        self.prefix = prefix
        self.L.sim_enable(prefix.encode())
        self.L.sim_budget(budget)

    def disable(self):
        self.L.sim_disable()

    def counting(self, on):
        """count, hash and fault only while on"""
        self.L.sim_counting(int(on))

    def rule(self, op, suffix='', wr=-1, at=0, count=1, act='err', err='EIO', keep=1):
        e = getattr(errno, err) if isinstance(err, str) else err
        return self.L.sim_rule(OPS[op], suffix.encode(), wr, at, count, ACTS[act], e, keep)

    def clear(self):
        self.L.sim_clear_rules()

    def fired(self, i):
        return self.L.sim_rule_fired(i)

    def seen(self, i):
        return self.L.sim_rule_seen(i)

    def quota(self, n):
        self.L.sim_quota(n)

    def quota_hits(self):
        return self.L.sim_quota_hits()

    def clock(self, sec, step=0):
        self.L.sim_clock(int(sec * 1000000), int(step * 1000000))

    def mix(self, text):
        b = text.encode()
        self.L.sim_mix(b, len(b))

    def digest(self):
        return '%016x' % self.L.sim_digest()

    def total(self):
        return self.L.sim_totalops()

    def ops(self):
        return {k: self.L.sim_opcount(v) for k, v in OPS.items()}

    def log(self, on):
        self.L.sim_log(int(on))

    def logpause(self):
        self.L.sim_logpause(0)

    def logdata(self):
        """[(op, path, offset, n, data or None)]"""
        n = self.L.sim_loglen()
        raw = ctypes.string_at(self.L.sim_logbuf(), n) if n else b''
        out, pos = [], 0
        while pos < n:
            op, pid, off, k = struct.unpack_from('<4q', raw, pos)
            pos += 32
            data = None
            if op == WRITE:
                data = raw[pos:pos + k]
                pos += k
            out.append((op, self.L.sim_path(pid).decode(), off, k, data))
        return out

    def openfds(self):
        """paths of files still open below the scratch folder"""
        a = (ctypes.c_int * 4096)()
        n = self.L.sim_openfds(a, 4096)
        return sorted(self.L.sim_fdpath(a[i]).decode() for i in range(n))
