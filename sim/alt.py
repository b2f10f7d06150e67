"""A second interpreter with another string-hash seed.

Every simulated process is forked from the main zygote, so all would share one hash seed; real
restarts do not.  A run with alt=True is executed by this server instead.
"""
import os
import pickle
import select
import socket
import struct
import subprocess
import sys
import time

from . import boot

SEED = '4321'
_path = None
_proc = None
_conn = {}


def start(base):
    """Start the server (in parallel with our own boot)."""
    global _path, _proc
    _path = os.path.join(base, 'alt.sock')
    env = dict(os.environ, PYANEN_SIM_HASHSEED=SEED)
    env.pop('PYANEN_SIM', None)
    main = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'check.py')
    _proc = subprocess.Popen([boot.PY, main, '--zygote', _path, base], env=env, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL)


def stop():
    if _proc is not None:
        _proc.stdin.close()
        try:
            _proc.wait(5)
        except subprocess.TimeoutExpired:
            _proc.kill()
            _proc.wait()


def _send(s, b):
    s.sendall(struct.pack('<Q', len(b)) + b)


def _recv(s):
    def exact(n):
        out = b''
        while len(out) < n:
            b = s.recv(min(1 << 20, n - len(out)))
            if not b:
                return None
            out += b
        return out
    h = exact(8)
    if h is None:
        return None
    return exact(struct.unpack('<Q', h)[0])


def run(**kw):
    import cloudpickle
    from .proc import HarnessError
    if _path is None:
        raise HarnessError('the second interpreter was not started')
    me = os.getpid()
    if me not in _conn:
        _conn.clear()
        end = time.monotonic() + 60
        while True:
            s = socket.socket(socket.AF_UNIX)
            try:
                s.connect(_path)
                break
            except OSError:
                s.close()
                if time.monotonic() > end:
                    raise HarnessError('the second interpreter does not answer')
                time.sleep(0.05)
        _conn[me] = s
    s = _conn[me]
    _send(s, cloudpickle.dumps(kw))
    b = _recv(s)
    if b is None:
        raise HarnessError('the second interpreter ended')
    how, val = pickle.loads(b)
    if how != 'ok':
        raise HarnessError(val)
    return val


def serve(path, base):
    from . import proc
    proc.Scratch.base = base
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path + '.tmp')
    srv.listen(64)
    os.rename(path + '.tmp', path)
    while True:
        rd, _, _ = select.select([srv, sys.stdin], [], [], 1.0)
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        if sys.stdin in rd:
            return 0
        if srv in rd:
            c, _ = srv.accept()
            if os.fork() == 0:
                srv.close()
                code = 0
                try:
                    while True:
                        b = _recv(c)
                        if b is None:
                            break
                        try:
                            r = ('ok', proc.run(**pickle.loads(b)))
                        except Exception as e:
                            r = ('harness', '%s: %s' % (type(e).__name__, e))
                        _send(c, pickle.dumps(r))
                except OSError:
                    code = 1
                os._exit(code)
            c.close()
