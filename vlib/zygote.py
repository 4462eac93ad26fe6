"""Run functions in processes that no earlier run has touched

`Zygote()` forks a process that does nothing but fork a child per request, so
that every request starts from the state the process had when the zygote was
made.
"""
import os
import pickle
import struct
import traceback


def _write(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<Q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _read(fd):
    def take(n):
        out = b''
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                raise EOFError
            out += b
        return out
    n, = struct.unpack('<Q', take(8))
    return pickle.loads(take(n))


class Zygote:
    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.owner = os.getpid()
        if os.fork() == 0:
            os.close(w1)
            os.close(r2)
            try:
                while True:
                    func, args = _read(r1)
                    pid = os.fork()
                    if pid == 0:
                        try:
                            res = ('ok', func(*args))
                        except BaseException as e:
                            res = ('error', type(e).__name__, str(e),
                                   traceback.format_exc())
                        _write(w2, res)
                        os._exit(0)
                    _, status = os.waitpid(pid, 0)
                    if status:
                        _write(w2, ('died', status))
            except BaseException:
                pass
            os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def __call__(self, func, *args):
        """('ok', value) | ('error', type, text, traceback) | ('died', n)"""
        _write(self.w, (func, args))
        return _read(self.r)
