"""Every schedule of threads which use the Python layer for the first time, up to a bound on preemptions.

Each execution is made in a process of its own, so that nothing has been looked up before. Threads run one at
a time; a thread may lose its turn before any line of the Python layer (sys.settrace), and where it waits for
a lock. What each thread sees must be what it would have seen alone.
"""
import importlib
import json
import os
import sys
import threading

import explore as mc

REPO = os.environ.get("SDP_REPO", "/repo")
PKG = os.path.realpath(os.path.join(REPO, "src", "ska_sdp_func"))


class Sched:
    """Who has the turn. A schedule: who begins, where and to whom the turn is lost first, then a choice wherever there is one."""

    def __init__(self, kind, first, cut, bound, rest):
        self.kind = kind
        self.n = n = len(kind)
        self.fresh = set(range(n))
        self.first, self.cut, self.bound, self.rest = first, cut, bound, rest
        self.lock = threading.Condition(threading.Lock())
        self.turn = -1
        self.state = ["new"] * n       # new, ready, blocked, done
        self.begun = False
        self.points = []               # before the first cut: to how many threads the turn could be lost there
        self.trace = []                # after it: number of ways on, way taken
        self.cuts = 0
        self.steps = 0
        self.dead = False
        self.where = []

    def alike(self, t):
        """A thread which has not begun and of which there is another one before it: nothing new comes of it."""
        return t in self.fresh and any(u < t and self.kind[u] == self.kind[t] for u in self.fresh)

    def ready(self, me=-1):
        return [t for t in range(self.n) if t != me and self.state[t] == "ready" and not self.alike(t)]

    def take(self, n):
        if n < 2:
            return 0
        d = len(self.trace)
        k = self.rest[d] if d < len(self.rest) else 0
        self.trace.append((n, k))
        return k

    def other(self):
        ready = self.ready()
        if not ready:
            return -1
        if not self.begun:
            self.begun = True
            return ready[self.first]
        return ready[self.take(len(ready))]

    def wait(self, me):
        while self.turn != me and not self.dead:
            self.lock.wait()
        if self.dead:
            raise SystemExit
        self.fresh.discard(me)

    def point(self, me, where=""):
        # only the thread which has the turn gets here
        if self.dead:
            raise SystemExit
        k = self.steps
        self.steps += 1
        if self.cuts >= self.bound:
            return
        o = self.ready(me)
        if self.cuts == 0:
            self.points.append(len(o))
            if self.cut is None or self.cut[0] != k:
                return
            t = o[self.cut[1]]
        else:
            c = self.take(1 + len(o))
            if c == 0:
                return
            t = o[c - 1]
        self.cuts += 1
        with self.lock:
            self.turn = t
            self.where.append("%d at %s -> %d" % (me, where, t))
            self.lock.notify_all()
            self.wait(me)

    def leave(self, me, state):
        with self.lock:
            self.state[me] = state
            self.turn = self.other()
            if self.turn < 0 and any(x == "blocked" for x in self.state):
                self.dead = True
            self.lock.notify_all()
            if state != "done":
                self.wait(me)

    def start(self, me):
        with self.lock:
            self.state[me] = "ready"
            if all(s == "ready" for s in self.state):
                self.turn = self.other()
                self.lock.notify_all()
            self.wait(me)


SCHED = None
ME = threading.local()


class Lock:
    """Stands for a lock of the Python layer: waiting gives the turn away."""

    def __init__(self):
        self.owner = None
        self.waiting = []

    def acquire(self, blocking=True, timeout=-1):
        me = getattr(ME, "id", None)
        if me is None or SCHED is None:
            self.owner = -1
            return True
        SCHED.point(me, "lock")
        while self.owner is not None:
            if not blocking:
                return False
            self.waiting.append(me)
            SCHED.leave(me, "blocked")
        self.owner = me
        return True

    def release(self):
        self.owner = None
        for t in self.waiting:
            SCHED.state[t] = "ready"
        self.waiting = []

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    def __init__(self):
        super().__init__()
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = getattr(ME, "id", None)
        if self.owner is not None and self.owner == me:
            self.depth += 1
            return True
        r = super().acquire(blocking, timeout)
        if r:
            self.depth = 1
        return r

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            super().release()

    __enter__ = acquire


def own_locks():
    """From now on, locks made by the Python layer take part in the schedule."""
    for name, mine in (("Lock", Lock), ("RLock", RLock)):
        def make(real=getattr(threading, name), mine=mine):
            f = sys._getframe(1).f_code.co_filename
            return mine() if os.path.realpath(f).startswith(PKG) else real()
        setattr(threading, name, make)


SCENARIOS = [
    # per thread: (entry name, status the library reports)
    ("same function", [("fft_convolution", 0), ("fft_convolution", 0)]),
    ("same function, three threads", [("fft_convolution", 0), ("fft_convolution", 0), ("fft_convolution", 0)]),
    ("one fails", [("fft_convolution", 3), ("fft_convolution", 0)]),
    ("two functions", [("subgrid_cut_out", 0), ("subgrid_add", 0)]),
    ("objects", [("Direct", 0), ("Direct", 0)]),
    ("objects, one not made", [("Wtower", 2), ("Wtower", 0)]),
    ("properties", [("Direct.theta", 0), ("Direct.theta", 0)]),
    ("coordinates", [("phase_rotate_uvw", 0), ("phase_rotate_uvw", 0)]),
    ("value", [("rms_diff", 0), ("rms_diff", 1)]),
    ("handles", [("Mem", 0), ("Mem", 0), ("Mem", 0)]),
]


INSIDE = {}


def inside(path, files):
    r = INSIDE.get(path)
    if r is None:
        p = os.path.realpath(path)
        r = INSIDE[path] = p.startswith(PKG) and (files == "all" or os.path.basename(os.path.dirname(p)) == files
                                                  or files == "lookup" and os.path.basename(p) in ("lib.py", "error_checking.py"))
    return r


JOBS = {}


def jobs_of(scen):
    if scen not in JOBS:
        import api
        import numpy as np
        import table
        util = importlib.import_module("ska_sdp_func.utility")
        entries = {(e.get("cls") or "") + ("." if e.get("cls") else "") + e["py"]: e for e in table.FUNCS}
        entries.update(table.CLASSES)
        JOBS[scen] = [make_job(api, np, util, entries, name, status, k) for k, (name, status) in enumerate(SCENARIOS[scen][1])]
    return JOBS[scen]


def run_one(scen, first, cut, bound, rest, granularity, files):
    """In the child: run the threads under this schedule; the result as text."""
    global SCHED
    import api
    jobs = jobs_of(scen)
    n = len(jobs)
    INSIDE.clear()
    SCHED = s = Sched(SCENARIOS[scen][1], first, cut, bound, rest)
    results = [None] * n

    def tracer(me):
        def local(frame, event, arg):
            if event == granularity:
                s.point(me, "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            return local

        def top(frame, event, arg):
            if event != "call" or not inside(frame.f_code.co_filename, files):
                return None
            if granularity == "opcode":
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return top

    def thread(me):
        ME.id = me
        try:
            s.start(me)
            sys.settrace(tracer(me))
            results[me] = jobs[me]()
        except SystemExit:
            results[me] = "stopped"
        except BaseException as e:   # noqa: B902
            results[me] = "raised %s: %s" % (type(e).__name__, e)
        finally:
            sys.settrace(None)
        try:
            s.leave(me, "done")
        except SystemExit:
            pass

    threads = [threading.Thread(target=thread, args=(k,), daemon=True) for k in range(n)]
    for t in threads:
        t.start()
    for t in threads:
        t.join(20)
    stuck = any(t.is_alive() for t in threads) or any(r in (None, "stopped") for r in results)
    bad = ["BAD " + f for f, a in api.lines() if "BAD" in a or "NOSTATUS" in a or "PRIOR" in " ".join(a)]
    return dict(results=results, trace=s.trace, points=s.points if cut is None else None, steps=s.steps, stuck=stuck, bad=bad, where=s.where[-8:])


def make_job(api, np, util, entries, name, status, k):
    if name == "Mem":
        a = np.arange(4.0) + k

        def job():
            m = util.Mem(a)
            return "made" if m is not None else "nothing"
        return job
    e = entries[name]
    kind = e.get("cls")
    # distinct arguments per thread; sky coordinates and objects are made in the thread
    call = None
    if not any(p["kind"] == "s" for p in e["params"]):
        call = api.Call(e)
        for p in e["params"]:
            if p["kind"] in "il":
                call.env[p["name"]] += 1000 * (k + 1)
            elif p["kind"] in "df":
                call.env[p["name"]] += 1000 * (k + 1)

    def job():
        c = call
        if c is None:
            c = api.Call(e, "T%d" % k)
        if kind:
            c.obj = api.make_obj(kind)
        want = None if e["ret"] == "prop" else [w for w in c.expected() if w != "obj"]
        if status:
            api.S.stub_script_arg(e["c"].encode(), status, api_key(c, e))
        err = None
        res = None
        try:
            res = getattr(c.obj, e["py"]) if e["ret"] == "prop" else c.invoke(0)
        except util.CError as x:
            err = str(x)
        if e["ret"] == "prop":
            import stub
            w = stub.ret_int(e["c"]) if stub.SIG[e["c"]][0] == "i" else stub.ret_double(e["c"])
            return "ok" if res == w else "value %r" % res
        mine = 0
        for f, a in api.lines():
            if f == e["c"]:
                have = [api.parse_token(t) for t in a]
                if kind:
                    have = have[1:]
                if have == want:
                    mine += 1
        if mine != 1:
            return "library called %d times with the arguments of this thread" % mine
        if status:
            return "ok" if err and str(status) in err else "error %d seen as %r" % (status, err)
        if err:
            return "error seen: " + err
        if e["ret"] == "double" and res != __import__("stub").ret_double(e["c"]):
            return "value %r" % res
        return "ok"
    return job


def api_key(c, e):
    """The number which tells this thread's call from the others': address of its first array, or its first number."""
    for p in e["params"]:
        if p["kind"] == "m":
            return c.env[p["name"]].ctypes.data
        if p["kind"] in "il":
            return c.env[p["name"]]
    return 0


def child(*args):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = json.dumps(run_one(*args))
        except BaseException as e:   # noqa: B902
            import traceback
            out = json.dumps(dict(fatal="".join(traceback.format_exception(e))[-1500:]))
        os.write(w, out.encode())
        os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not buf:
        return dict(fatal="process ended with status %d" % st)
    return json.loads(buf)


BASE = {}


def base(scen, first, gran, files):
    """The places at which a turn may be lost, when it never is: to how many threads."""
    key = (scen, first, gran, files)
    if key not in BASE:
        jobs_of(scen)
        res = child(scen, first, None, 1, (), gran, files)
        if "fatal" in res:
            mc.fail("fatal", "%s: %s" % (SCENARIOS[scen][0], res["fatal"]))
        BASE[key] = [(k, t) for k, n in enumerate(res["points"]) for t in range(n)]
    return BASE[key]


def body():
    scen = mc.choose(len(SCENARIOS), "threads")
    name, plan = SCENARIOS[scen]
    n = len(plan)
    mc.context("schedules of " + name)
    if mc.quick():
        gran, files, bound = mc.pick([("line", "all", 1), ("line", "lookup", 2)], "points")
        if bound > 1 and name not in ("one fails", "objects", "properties", "handles"):
            mc.infeasible()
    else:
        gran, files, bound = mc.pick([("line", "all", 2), ("line", "lookup", 3), ("opcode", "lookup", 2)], "points")
        if n > 2 and (bound > 2 or gran == "opcode") and name != "handles":
            mc.infeasible()
    first = mc.choose(len(set(plan)), "begins")
    cuts = base(scen, first, gran, files)
    c = mc.choose(1 + len(cuts), "first turn lost at")
    cut = cuts[c - 1] if c else None
    d0 = len(mc.G.path)
    rest = list(mc.G.prefix[d0:])
    mc.mark()
    res = child(scen, first, cut, bound, rest, gran, files)
    if "fatal" in res:
        mc.fail("fatal", "%s: %s" % (name, res["fatal"]))
    for m, k in res["trace"]:
        if mc.choose(m, "turn") != k:
            mc.fail("nondeterministic", "%s: the schedule could not be repeated" % name)
    mc.calls(n)
    where = "; ".join(res["where"])
    mc.state((scen, res["results"], res["steps"], where))
    c = mc.G.counters
    c["schedules of %d threads" % n] = c.get("schedules of %d threads" % n, 0) + 1
    c["scheduling points"] = c.get("scheduling points", 0) + res["steps"]
    mc.check(not res["stuck"], "stuck", "%s: threads wait for each other for ever: %s (%s)" % (name, res["results"], where))
    for k, r in enumerate(res["results"]):
        mc.check(r in ("ok", "made"), "result", "%s: thread %d of %d: %s (%s)" % (name, k, n, r, where))
    mc.check(not res["bad"], "handles", "%s: %s" % (name, res["bad"]))
