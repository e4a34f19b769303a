"""Seams installed in the zygote before/after importing the library, and fault injection inside one process."""
import os, sys, ctypes, functools

REPO = os.path.realpath(os.environ.get("SIM_REPO", "/repo"))
PREFIX = os.path.join(REPO, "e2cnn") + os.sep

counters = {"fd_weights": 0}
_shim = None


def install_pre():
    """Count the elementary finite-difference computations (observable of PDO cache hits)."""
    import sympy, sympy.calculus, sympy.calculus.finite_diff as fd
    orig = fd.finite_diff_weights

    @functools.wraps(orig)
    def counted(*a, **k):
        counters["fd_weights"] += 1
        return orig(*a, **k)
    fd.finite_diff_weights = counted
    for m in (sympy, sympy.calculus):
        if hasattr(m, "finite_diff_weights"):
            m.finite_diff_weights = counted


def install_post():
    """warm up what is imported or cached lazily by other packages (not by the library under test)"""
    import sympy.calculus.finite_diff as fd
    for xs in ([-1.5, 0.25, 1.5], [-2.5, -1., 0., 1., 2.5]):
        fd.finite_diff_weights(2, xs, 0)
    counters["fd_weights"] = 0


def shim():
    global _shim
    if _shim is None:
        _shim = ctypes.CDLL(os.environ["SIM_SHIM"])
        _shim.sim_activate.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_char_p, ctypes.c_long, ctypes.c_long, ctypes.c_int]
        _shim.sim_seq.restype = ctypes.c_long
        _shim.sim_deactivate.restype = ctypes.c_long
    return _shim


# calls in which an injected error would break a clean-up rather than the operation itself
_SAFE = {"release", "acquire", "__exit__", "__enter__", "close", "unlink", "remove", "settrace", "setprofile",
         "exc_info", "fileno", "locked", "acquire_lock", "release_lock", "_exit"}


_cleanup = {}


def cleanup_lines(path):
    """lines of a source file where an interrupt would hit clean-up code (with-statements, finally and except blocks):
    no Python program can restore anything when it is interrupted there"""
    if path not in _cleanup:
        import ast
        out = set()
        try:
            tree = ast.parse(open(path).read())
        except (OSError, SyntaxError):
            tree = None
        for n in ast.walk(tree) if tree is not None else ():
            if isinstance(n, (ast.With, ast.AsyncWith)):
                out.update(range(n.lineno, n.body[0].lineno))
            elif isinstance(n, ast.Try):
                out.update(range(n.lineno, n.body[0].lineno))       # e.g. between acquiring a lock and the block which releases it
                for b in n.finalbody:
                    out.update(range(b.lineno, b.end_lineno + 1))
                for h in n.handlers:
                    out.update(range(h.lineno, h.end_lineno + 1))
        _cleanup[path] = out
    return _cleanup[path]


class Injector:
    """Raises an exception at the n-th interruption point of the library's code: entry of one of its functions,
    or a call from its code into a C function (numpy, torch, builtins: an allocation failing there)."""

    def __init__(self, at=None, exc="KeyboardInterrupt", lines=False):
        self.at = at
        self.lines = lines
        self.n = 0
        self.exc = exc
        self.site = None
        self.first, self.last = {}, {}      # without ``at``: first and last point at every line

    def marks(self):
        return sorted(set(self.first.values()) | set(self.last.values()))

    def _fire(self, frame, what):
        self.site = (frame.f_code.co_filename[len(PREFIX):], frame.f_lineno, what)
        sys.setprofile(None)
        sys.settrace(None)
        raise {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError,
               "OSError": OSError}[self.exc]("injected")

    def _due(self, frame):
        if self.at is None:
            k = frame.f_code, frame.f_lineno
            self.first.setdefault(k, self.n)
            self.last[k] = self.n
            return False
        return self.n >= self.at and frame.f_lineno not in cleanup_lines(frame.f_code.co_filename)

    def _prof(self, frame, event, arg):
        if event == "call":
            if frame.f_code.co_filename.startswith(PREFIX) and frame.f_code.co_name not in _SAFE:
                self.n += 1
                if self._due(frame):
                    self._fire(frame, "call " + frame.f_code.co_name)
        elif event == "c_call":
            if frame.f_code.co_filename.startswith(PREFIX):
                name = getattr(arg, "__name__", "?")
                if name in _SAFE:
                    return
                self.n += 1
                if self._due(frame):
                    self._fire(frame, "c_call " + name)

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PREFIX):
            return None
        if event == "line":
            self.n += 1
            if self._due(frame):
                self._fire(frame, "line")
        return self._trace

    def run(self, fn):
        """-> ("done", result) or ("injected", site) or ("error", type, msg)"""
        if self.lines:
            sys.settrace(self._trace)
        else:
            sys.setprofile(self._prof)
        try:
            r = fn()
            sys.setprofile(None)
            sys.settrace(None)
            return ("done", r)
        except BaseException as e:
            sys.setprofile(None)
            sys.settrace(None)
            if self.site is not None:
                return ("injected", self.site, type(e).__name__)
            import traceback
            return ("error", type(e).__name__, str(e)[:500], traceback.format_exc()[-3000:])
