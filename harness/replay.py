"""Replay of a specification's transition graph into the real code by forking.

The graph is the list of transitions TLC printed: records f (from), a (action), r (expected reply),
t (to).  The driver starts in the initial state with a freshly built world and walks a spanning tree of
the graph; at every state

* all transitions that do not change the specification's state are executed one after the other in the
  same process (so a hidden side effect of a refused request shows up in the ones that follow),
* every transition that changes the state is executed in a forked child; where its target is reached for
  the first time along the spanning tree, the child goes on from there.

The world object supplies ``do(action) -> reply`` and ``project() -> state`` (what the public API of the
code shows) and ``compare(...)``.  A child that finds a disagreement records it and goes no further.
"""
import gc
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
from collections import Counter, defaultdict, deque

from . import wenv

ITEM_CPU_S = 90


def worker_dirs(n):
    """n private working directories: the code under test writes below data/tmp_* of its directory."""
    ws = os.environ["VERIF_WS"]
    made = []
    for i in range(n):
        d = os.path.join(wenv.SCRATCH, f"wd{i}")
        made.append(d)
        if os.path.isdir(d):
            continue
        os.makedirs(os.path.join(d, "data"))
        for e in os.listdir(ws):
            if e not in ("data", ".scratch"):
                os.symlink(os.path.join(ws, e), os.path.join(d, e))
        for e in os.listdir(os.path.join(ws, "data")):
            if not e.startswith("tmp"):
                os.symlink(os.path.join(ws, "data", e), os.path.join(d, "data", e))
        os.makedirs(os.path.join(d, "data", "tmp_cert_checks"), exist_ok=True)
    return made


class Tokens:
    """A pool of working directories shared by forked processes (tokens in a pipe)."""

    def __init__(self, n):
        self.dirs = worker_dirs(n)
        self.r, self.w = os.pipe()
        os.set_blocking(self.r, False)
        os.write(self.w, bytes(range(n)))

    def take(self):
        try:
            b = os.read(self.r, 1)
        except BlockingIOError:
            return None
        return b[0] if b else None

    def give(self, i):
        os.write(self.w, bytes([i]))

    def enter(self, i):
        os.chdir(self.dirs[i])

    def close(self):
        os.close(self.r)
        os.close(self.w)


def canon(x):
    return json.dumps(x, sort_keys=True)


class Graph:
    def __init__(self, edges, init):
        self.init = canon(init)
        self.out = defaultdict(list)
        seen = set()
        self.nodes = {self.init}
        for e in edges:
            f, t = canon(e["f"]), canon(e["t"])
            k = (f, canon(e["a"]), t)
            if k in seen:
                continue
            seen.add(k)
            self.nodes.add(f)
            self.nodes.add(t)
            self.out[f].append((e, f, t))
        for lst in self.out.values():
            lst.sort(key=lambda x: canon(x[0]["a"]))
        self.n_edges = len(seen)

    def tree(self):
        """BFS spanning tree: parent transition per state, and the children per state."""
        par = {self.init: None}
        q = deque([self.init])
        while q:
            s = q.popleft()
            for item in self.out[s]:
                t = item[2]
                if t not in par:
                    par[t] = item
                    q.append(t)
        return par

    def select(self, keep):
        """Restrict to the transitions for which keep(edge) holds, plus the tree paths that reach them."""
        par = self.tree()
        need = set()
        stack = []
        chosen = defaultdict(list)
        for s in list(self.out):
            if s not in par:
                continue
            for item in self.out[s]:
                if keep(item[0]):
                    chosen[s].append(item)
                    stack.append(s)
        while stack:
            s = stack.pop()
            if s in need:
                continue
            need.add(s)
            p = par[s]
            if p is not None:
                if p not in chosen[p[1]]:
                    chosen[p[1]].append(p)
                stack.append(p[1])
        return chosen, par


def replay(graph, make_world, keep=lambda e: True, nproc=None, deadline=None, rng=None):
    """Returns (stats, disagreements, errors)."""
    nproc = nproc or wenv.NPROC
    chosen, par = graph.select(keep)
    total = sum(len(v) for v in chosen.values())
    tree_edges = {(id(par[t])) for t in par if par[t] is not None}
    out = os.path.join(wenv.SCRATCH, f"replay-{os.getpid()}-{time.monotonic_ns()}.jsonl")
    fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    pool = Tokens(nproc)
    world = make_world()
    t_end = time.monotonic() + deadline if deadline else None
    gc.collect()
    gc.freeze()

    def emit(rec):
        os.write(fd, (json.dumps(rec, default=str) + "\n").encode())

    def run_edge(w, item, path):
        e = item[0]
        try:
            got = w.do(e["a"])
        except Exception:
            emit({"k": "error", "a": e["a"], "path": path, "tb": traceback.format_exc()[-3000:]})
            return False
        try:
            bad = w.compare(e, got)
        except Exception:
            emit({"k": "error", "a": e["a"], "path": path, "tb": traceback.format_exc()[-3000:]})
            return False
        if bad:
            emit({"k": "bad", "a": e["a"], "f": e["f"], "t": e["t"], "r": e["r"], "got": got, "why": bad, "path": path})
            return False
        emit({"k": "ok", "op": w.label(e), "new": 1 if item[2] != item[1] else 0})
        return True

    def explore(w, s, path, token):
        """Runs in the process that is in state s; returns with the process' state no longer of use."""
        items = chosen.get(s, [])
        loops = [i for i in items if i[2] == i[1]]
        steps = [i for i in items if i[2] != i[1]]
        kids = []
        for item in steps:
            if t_end and time.monotonic() > t_end:
                emit({"k": "skip"})
                continue
            extra = pool.take()
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    if extra is not None:
                        pool.enter(extra)
                    mine = [extra]
                    p2 = path + [item[0]["a"]]
                    if run_edge(w, item, path) and id(item) in tree_edges:
                        explore(w, item[2], p2, mine)
                except BaseException:
                    emit({"k": "error", "tb": traceback.format_exc()[-3000:]})
                    rc = 1
                if mine[0] is not None:
                    pool.give(mine[0])
                os._exit(rc)
            if extra is not None:
                kids.append(pid)
            else:
                _, st = os.waitpid(pid, 0)
                if st != 0:
                    emit({"k": "error", "tb": f"child status {st}"})
            # reap
            for p in list(kids):
                r, st = os.waitpid(p, os.WNOHANG)
                if r:
                    kids.remove(p)
                    if st != 0:
                        emit({"k": "error", "tb": f"child status {st}"})
        for item in loops:
            if t_end and time.monotonic() > t_end:
                emit({"k": "skip"})
                continue
            if not run_edge(w, item, path):
                break
        if kids:
            # a waiting parent is not a working process: hand its directory on
            if token[0] is not None:
                pool.give(token[0])
                token[0] = None
            for p in kids:
                _, st = os.waitpid(p, 0)
                if st != 0:
                    emit({"k": "error", "tb": f"child status {st}"})

    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        rc = 0
        try:
            tok = [pool.take()]
            pool.enter(tok[0])
            explore(world, graph.init, [], tok)
        except BaseException:
            emit({"k": "error", "tb": traceback.format_exc()[-3000:]})
            rc = 1
        os._exit(rc)
    os.waitpid(pid, 0)
    os.close(fd)
    pool.close()
    gc.unfreeze()
    bad, errors, stats = [], [], Counter()
    ops = Counter()
    with open(out) as fh:
        for line in fh:
            rec = json.loads(line)
            stats[rec["k"]] += 1
            if rec["k"] == "bad":
                bad.append(rec)
            elif rec["k"] == "error":
                errors.append(rec)
            elif rec["k"] == "ok":
                ops[rec["op"]] += 1
                stats["changing"] += rec["new"]
    os.unlink(out)
    stats["selected"] = total
    return {"stats": dict(stats), "ops": dict(ops)}, bad, errors


def pmap(fn, items, nproc=None, chunk=1):
    """Run fn(item) for every item in forked workers; results in the order of the items.

    fn returns a JSON-able value.  An exception becomes {"__error__": traceback}.
    """
    nproc = nproc or wenv.NPROC
    items = list(items)
    n = len(items)
    if not n:
        return []
    out = os.path.join(wenv.SCRATCH, f"pmap-{os.getpid()}-{time.monotonic_ns()}.jsonl")
    fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    ctr = multiprocessing.Value("l", 0)
    now = multiprocessing.Array("l", [-1] * nproc, lock=False)       # what each worker is at
    gc.collect()
    gc.freeze()
    sys.stdout.flush()
    dirs = worker_dirs(nproc)

    def worker(wi):
        try:
            os.chdir(dirs[wi])
            while True:
                with ctr.get_lock():
                    i = ctr.value
                    ctr.value = i + chunk
                if i >= n:
                    break
                for j in range(i, min(n, i + chunk)):
                    now[wi] = j
                    signal.setitimer(signal.ITIMER_PROF, ITEM_CPU_S)     # ends a worker that is busy with one item for ever
                    try:
                        r = fn(items[j])
                    except Exception:
                        r = {"__error__": traceback.format_exc()[-3000:]}
                    signal.setitimer(signal.ITIMER_PROF, 0)
                    data = (json.dumps([j, r], default=_js) + "\n").encode()
                    while data:
                        k = os.write(fd, data)
                        data = data[k:]
        finally:
            os._exit(0)

    def start(wi):
        pid = os.fork()
        if pid == 0:
            worker(wi)
        pids[pid] = wi

    pids, hung = {}, []
    for wi in range(min(nproc, n)):
        start(wi)
    while pids:
        p, st = os.wait()
        wi = pids.pop(p, None)
        if wi is not None and os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGPROF:
            hung.append(now[wi])
            if len(hung) < 3:
                start(wi)
            else:
                with ctr.get_lock():
                    ctr.value = n
    os.close(fd)
    gc.unfreeze()
    res = [{"__error__": "no result: the worker died"} if len(hung) < 3 else {"__skipped__": True}] * n
    for j in hung:
        res[j] = {"__hung__": f"no answer after {ITEM_CPU_S} s of computing"}
    with open(out) as fh:
        for line in fh:
            j, r = json.loads(line)
            res[j] = r
    os.unlink(out)
    return res


def _js(o):
    if isinstance(o, (set, frozenset)):
        return sorted(o, key=str)
    if isinstance(o, (bytes, bytearray)):
        return bytes(o).hex()
    return str(o)
