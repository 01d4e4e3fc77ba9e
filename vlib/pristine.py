"""Oracle for freedom from hidden state: evaluates a function in a process that has
executed nothing of the code under test except its import.

A server process is forked before any case runs; for every request it forks a
child that evaluates ``module.function(*args)`` and sends the pickled answer back.
"""
import importlib
import os
import pickle
import struct
import sys

_req = _res = None
_owner = None


def _read(fd, n):
    b = b''
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            raise EOFError
        b += x
    return b


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('>Q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack('>Q', _read(fd, 8))[0]))


def start():
    """Called once in every worker, before its first case."""
    global _req, _res, _owner
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(w1)
            os.close(r2)
            _serve(r1, w2)
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    _req, _res, _owner = w1, r2, os.getpid()


def _serve(rd, wr):
    while True:
        try:
            mod, fn, args = _recv(rd)
        except EOFError:
            return
        pid = os.fork()
        if pid == 0:
            try:
                import warnings
                import numpy as np
                np.seterr(all='warn')
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    out = ('ok', getattr(importlib.import_module(mod), fn)(*args))
            except BaseException as e:
                out = ('exc', type(e).__name__ + ': ' + str(e))
            _send(wr, out)
            os._exit(0)
        os.waitpid(pid, 0)


def evaluate(fn, *args):
    """fn: a module-level function of an importable module."""
    if _owner != os.getpid():
        start()     # replay mode: the first request comes before anything else ran
    _send(_req, (fn.__module__, fn.__name__, args))
    return _recv(_res)
