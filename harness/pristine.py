"""Runs functions in processes in which no function of the package was called yet.

A server is forked once, before the first call; it forks a process per request.
"""
import os
import pickle
import signal
import struct
import sys
import traceback
from harness.core import REPO, Violation

CPU_SECONDS = 40
SECONDS = 110           # a process that takes longer hangs


class Crash(Exception):
    """The process ended without an answer."""


def _read(fd, n):
    out = b''
    while len(out) < n:
        part = os.read(fd, n - len(out))
        if not part:
            raise EOFError()
        out += part
    return out


def _send(fd, data):
    data = struct.pack('>I', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _receive(fd):
    return _read(fd, struct.unpack('>I', _read(fd, 4))[0])


class Pristine(object):
    def __init__(self, fn, prepare=None):
        self.fn, self.prepare = fn, prepare
        self.pid = None

    def start(self):
        sys.stdout.flush()
        sys.stderr.flush()
        request, self.out = os.pipe()
        self.answers, answer = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(request)
            os.close(answer)
            return
        try:
            os.close(self.out)
            os.close(self.answers)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            if self.prepare:
                self.prepare()
            while True:
                try:
                    payload = _receive(request)
                except EOFError:
                    os._exit(0)
                inner_in, inner_out = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(inner_in)
                        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_SECONDS)
                        signal.signal(signal.SIGALRM, signal.SIG_DFL)
                        signal.setitimer(signal.ITIMER_REAL, SECONDS)
                        try:
                            result = ('ok', self.fn(pickle.loads(payload)))
                        except BaseException:
                            result = ('error', traceback.format_exc())
                        _send(inner_out, pickle.dumps(result, 2))
                    finally:
                        os._exit(0)
                os.close(inner_out)
                try:
                    data = _receive(inner_in)
                except EOFError:
                    data = pickle.dumps(('crash', None), 2)
                os.close(inner_in)
                os.waitpid(pid, 0)
                _send(answer, data)
        finally:
            os._exit(1)

    def __call__(self, payload):
        if self.pid is None:
            self.start()
        _send(self.out, pickle.dumps(payload, 2))
        kind, value = pickle.loads(_receive(self.answers))
        if kind == 'error':
            if os.path.join(os.path.realpath(REPO), 'segeval') + os.sep in value:
                raise Violation('unexpected exception\n' + value[-1500:])
            raise RuntimeError(value)
        if kind == 'crash':
            raise Crash()
        return value
