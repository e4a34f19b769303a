"""Zygote: a pristine interpreter with torch and the library under test imported (from /repo's working tree),
from which every simulated process ("incarnation") is forked.

Protocol on a unix socket: each accepted connection gets its own forked child, which serves pickled
requests (module, function, args) until the connection closes.  The child keeps one ``ctx`` dict.
"""
import os, sys, socket, struct, pickle, signal, traceback, gc

SIM = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")


def recv(sock):
    h = b""
    while len(h) < 8:
        c = sock.recv(8 - len(h))
        if not c:
            return None
        h += c
    n = struct.unpack("<Q", h)[0]
    parts = []
    while n:
        c = sock.recv(min(n, 1 << 20))
        if not c:
            return None
        parts.append(c)
        n -= len(c)
    return pickle.loads(b"".join(parts))


def send(sock, obj):
    b = pickle.dumps(obj, protocol=4)
    sock.sendall(struct.pack("<Q", len(b)) + b)


def import_all():
    sys.path.insert(0, os.path.dirname(SIM))
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    import random, threading, uuid, tempfile, copy, io, inspect, math  # noqa
    import numpy, scipy, scipy.linalg, scipy.sparse, sympy  # noqa
    import torch, torch.nn, torch.optim  # noqa
    import torch._dynamo  # noqa  (lazily imported by optimisers: keep it out of the forked children)
    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except Exception:
        pass
    from sim import sched, seams
    seams.install_pre()
    with sched.patched_locks():
        import e2cnn
        import importlib, pkgutil
        for m in pkgutil.walk_packages(e2cnn.__path__, "e2cnn."):
            importlib.import_module(m.name)
    path = os.path.realpath(e2cnn.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("wrong e2cnn: " + path)
    from sim import build  # noqa
    seams.install_post()


def serve_child(conn):
    import importlib
    ctx = {}
    while True:
        req = recv(conn)
        if req is None:
            os._exit(0)
        mod, fn, args = req
        try:
            f = getattr(importlib.import_module(mod), fn)
            res = ("ok", f(ctx, *args))
        except BaseException as e:  # noqa
            res = ("exc", type(e).__name__, str(e)[:4000], traceback.format_exc()[-6000:])
        try:
            send(conn, res)
        except (BrokenPipeError, ConnectionResetError):
            os._exit(0)


def main():
    path = sys.argv[1]
    s = socket.socket(socket.AF_UNIX)
    try:
        import_all()
    except BaseException:
        with open(path + ".fail", "w") as f:
            f.write(traceback.format_exc())
        raise
    props = sys.argv[2:]
    import importlib
    for p in props:
        importlib.import_module("sim.props." + p)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    gc.collect()
    gc.freeze()
    s.bind(path + ".tmp")
    s.listen(64)
    os.rename(path + ".tmp", path)
    ppid = os.getppid()
    s.settimeout(5)
    while True:
        try:
            conn, _ = s.accept()
        except socket.timeout:
            if os.getppid() != ppid:
                os._exit(0)
            continue
        pid = os.fork()
        if pid == 0:
            s.close()
            conn.settimeout(None)
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            try:
                import ctypes
                ctypes.CDLL(None).prctl(1, 9)  # die with the zygote
            except Exception:
                pass
            serve_child(conn)
            os._exit(0)
        conn.close()


if __name__ == "__main__":
    main()
