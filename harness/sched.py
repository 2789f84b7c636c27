"""Two (or three) requests at the same time, with a chosen schedule.

Every request is posted in a thread of its own.  A thread is stopped at the n-th point it reaches (a call, a line or
a return inside the Mock CA); the next one then runs until it is finished or cannot go on (it waits for something
the stopped thread has), and then the stopped one goes on.  Everything else is left to the code under test, so a
schedule it forbids simply does not happen.
"""
import os
import sys
import threading
import time
import types

STUCK_S = 0.012
GIVE_UP_S = 40
PKG = os.sep + "mock_ca" + os.sep
CALLED = (os.sep + "resources" + os.sep, os.sep + "pq_logic" + os.sep)
_MON = sys.monitoring
_TOOL = 4
_BY_THREAD = {}


def _codes(code, seen):
    if code in seen:
        return
    seen.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _codes(c, seen)


def _watch():
    """Points are: entering and leaving a function of the Mock CA, its lines, and its calls into the rest of the suite."""
    if _MON.get_tool(_TOOL):
        return
    _MON.use_tool_id(_TOOL, "verif")
    codes = set()
    for m in list(sys.modules.values()):
        f = getattr(m, "__file__", None) or ""
        if PKG not in f:
            continue
        for o in list(vars(m).values()):
            for g in [o] + (list(vars(o).values()) if isinstance(o, type) else []):
                if type(g) in (staticmethod, classmethod):
                    g = g.__func__
                elif type(g) is property:
                    g = g.fget
                while type(g) is types.FunctionType:
                    if PKG in g.__code__.co_filename:
                        _codes(g.__code__, codes)
                    g = g.__dict__.get("__wrapped__")
    E = _MON.events
    for c in codes:
        _MON.set_local_events(_TOOL, c, E.PY_START | E.PY_RETURN | E.CALL | E.LINE)

    def point(kind):
        def cb(code, *a):
            t = _BY_THREAD.get(threading.get_ident())
            if t is None:
                return
            name = code.co_name
            if kind == "call":
                f = getattr(getattr(a[1], "__code__", None), "co_filename", "")
                if not any(d in f for d in CALLED):
                    return
                name += " -> " + a[1].__name__
            if kind == "line":
                name += f" line {a[0]}"
            t.point(f"{kind} {os.path.basename(code.co_filename)}:{name}")
        return cb
    _MON.register_callback(_TOOL, E.PY_START, point("enter"))
    _MON.register_callback(_TOOL, E.PY_RETURN, point("leave"))
    _MON.register_callback(_TOOL, E.CALL, point("call"))
    _MON.register_callback(_TOOL, E.LINE, point("line"))


class Client(threading.Thread):
    def __init__(self, fn, stop_at=None):
        super().__init__(daemon=True)
        self.fn, self.stop_at = fn, stop_at or ()
        self.points = 0
        self.stopped = threading.Event()
        self.go_on = threading.Event()
        self.result = None
        self.where = None
        _watch()

    def point(self, where):
        self.points += 1
        if self.points in self.stop_at:
            self.where = where
            self.stopped.set()
            self.go_on.wait()
            self.go_on.clear()
            self.stopped.clear()

    def run(self):
        _BY_THREAD[threading.get_ident()] = self
        try:
            self.result = self.fn()
        except BaseException as e:  # noqa: BLE001
            self.result = {"ok": False, "v": "raised " + repr(e)[:300]}
        finally:
            _BY_THREAD.pop(threading.get_ident(), None)

    def cpu(self):
        try:
            with open(f"/proc/self/task/{self.native_id}/schedstat") as f:
                return int(f.read().split()[0])
        except (OSError, ValueError):
            return -1

    def in_child_process(self):
        f = sys._current_frames().get(self.ident)
        for _ in range(12):
            if f is None:
                return False
            if os.path.basename(f.f_code.co_filename) in ("subprocess.py", "selectors.py"):
                return True
            f = f.f_back
        return False


def until_settled(t):
    """Run until t is finished, stopped at its point, or waits for something."""
    last, since = -1, time.monotonic()
    while t.is_alive() and not (t.stopped.is_set() and not t.go_on.is_set()):
        t.join(0.0015)
        now = time.monotonic()
        if (c := t.cpu()) != last or t.in_child_process():
            last, since = c, now
        elif now - since > STUCK_S:
            return "waits"
    return "stopped" if t.is_alive() else "finished"


def points_of(fn):
    c = Client(fn)
    c.start()
    c.join(GIVE_UP_S)
    return c.points, c.result


def run(fns, stops):
    """Start the clients one after the other, each as soon as the one before cannot go on; stops[i] are the
    points at which client i lets the others go first.  Returns the clients."""
    cs = [Client(f, frozenset(s) if s else None) for f, s in zip(fns, stops)]
    for c in cs:
        c.start()
        until_settled(c)
    end = time.monotonic() + GIVE_UP_S
    # whoever is stopped goes on, in turn, until all are finished
    while any(c.is_alive() for c in cs) and time.monotonic() < end:
        moved = False
        for c in cs:
            if c.is_alive() and c.stopped.is_set() and not c.go_on.is_set():
                c.go_on.set()
                time.sleep(0)
                while c.go_on.is_set() and c.is_alive():
                    time.sleep(0.0002)
                until_settled(c)
                moved = True
        if not moved:
            for c in cs:
                c.join(0.002)
    for c in cs:
        if c.is_alive():
            c.result = {"ok": False, "v": "no answer"}
    return cs
