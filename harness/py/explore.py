"""Exhaustive exploration of choice trees, as mc/mc.hpp does, for harnesses in Python.

A body calls choose(n, label) wherever behaviour may differ; every combination is run.
Workers split the tree by its first choices; a worker which dies is reported with the path it
was on and replaced by one which carries on behind that path.
"""
import hashlib
import json
import mmap
import os
import signal
import sys
import time
import traceback
import zlib


class Skip(BaseException):
    """This execution is not part of the exploration."""


class Violation(BaseException):
    def __init__(self, key, msg):
        super().__init__(key, msg)
        self.key, self.msg = key, msg


class G:
    tier = "quick"
    path, arity, labels, prefix = [], [], [], []
    worker, workers, split = 0, 1, 2
    pruned_here = False
    executions = transitions = pruned = 0
    states, counters, bounds, samples, viols = set(), {}, {}, [], {}
    replay = False
    context = ""
    deadline = 1e18


def quick():
    return G.tier == "quick"


def choose(n, label):
    d = len(G.path)
    if n <= 0:
        raise RuntimeError("choose(%d) %s" % (n, label))
    c = G.prefix[d] if d < len(G.prefix) else 0
    if c >= n:
        raise RuntimeError("the choice tree is not deterministic at %s" % label)
    G.path.append(c)
    G.arity.append(n)
    G.labels.append("%s=%d" % (label, c))
    G.bounds[label] = max(n, G.bounds.get(label, 0))
    if len(G.path) == G.split and G.workers > 1 and not G.replay:
        if int(hashlib.md5(repr(G.path).encode()).hexdigest()[:8], 16) % G.workers != G.worker:
            raise Skip()
    return c


def pick(items, label):
    return items[choose(len(items), label)]


def flip(label):
    return bool(choose(2, label))


def infeasible():
    raise Skip()


def calls(n=1):
    G.transitions += n


def state(x):
    G.states.add(zlib.crc32(repr(x).encode()) | (zlib.adler32(repr(x).encode()) << 32))


def fail(key, msg):
    raise Violation(key, msg)


def check(ok, key, msg):
    if not ok:
        raise Violation(key, msg)


def context(s):
    G.context = s


def next_path(path, arity):
    p = list(path)
    for i in range(len(p) - 1, -1, -1):
        if p[i] + 1 < arity[i]:
            return p[:i] + [p[i] + 1]
    return None


def record(key, msg):
    old = G.viols.get(key)
    # the shortest path is the simplest counterexample
    if old is None or (len(G.path), G.path) < (len(old["path"]), old["path"]):
        G.viols[key] = {"key": key, "msg": msg, "labels": " ".join(G.labels), "path": list(G.path)}


def one(body):
    G.path, G.arity, G.labels, G.context = [], [], [], ""
    try:
        body()
        if len(G.path) < G.split and G.workers > 1 and not G.replay and G.worker:
            raise Skip()
        G.executions += 1
        if len(G.samples) < 3:
            G.samples.append(" ".join(G.labels))
        return None
    except Skip:
        G.pruned += 1
    except Violation as v:
        G.executions += 1
        record(v.key, v.msg)
        return v
    except Exception as e:
        G.executions += 1
        key = "exception:" + (G.context or type(e).__name__)
        record(key, "".join(traceback.format_exception(e))[-1500:])
        return e
    return None


def dump():
    return {"executions": G.executions, "transitions": G.transitions, "pruned": G.pruned, "states": sorted(G.states),
            "counters": G.counters, "bounds": G.bounds, "samples": G.samples, "viols": list(G.viols.values())}


def worker(body, w, start, mm, out, exec_timeout):
    G.worker = w
    t00 = time.time()
    path = start
    done = True
    n = 0
    while path is not None:
        G.prefix = path
        if time.time() > G.deadline:
            done = False
            break
        blob = json.dumps(path).encode()
        mm[0:4] = len(blob).to_bytes(4, "little")
        mm[4:4 + len(blob)] = blob
        mm[262144:262148] = (0).to_bytes(4, "little")
        signal.alarm(exec_timeout)
        G.mm = mm
        one(body)
        signal.alarm(0)
        path = next_path(G.path, G.arity)
        n += 1
    d = dump()
    if os.environ.get("MC_DEBUG"):
        print("worker", w, G.executions, G.pruned, round(time.time() - t00, 1), file=sys.stderr)
    d["done"] = done
    with open(out, "w") as f:
        json.dump(d, f)


def mark():
    """Save where this execution is: called before anything which may end the process."""
    mm = getattr(G, "mm", None)
    if mm is None:
        return
    blob = json.dumps([G.path, G.arity, G.labels, G.context]).encode()
    mm[262148:262148 + len(blob)] = blob
    mm[262144:262148] = len(blob).to_bytes(4, "little")


def main(body):
    a = sys.argv[1:]
    opt = {}
    for i in range(0, len(a), 2):
        opt[a[i]] = a[i + 1]
    G.tier = opt.get("--tier", "quick")
    G.prop = opt.get("--prop", "")
    t0 = time.time()
    G.deadline = t0 + float(opt.get("--deadline", 600))
    if "--replay" in opt:
        G.replay = True
        G.prefix = [int(x) for x in opt["--replay"].split(",") if x]
        v = one(body)
        if v is None:
            print("replay: no violation; %s" % " ".join(G.labels))
            return 0
        if isinstance(v, Violation):
            print("replay: %s: %s\n  choices: %s" % (v.key, v.msg, " ".join(G.labels)))
        else:
            traceback.print_exception(v)
        return 1
    W = G.workers = int(opt.get("--workers", "8"))
    tmp = opt["--out"]
    exec_timeout = int(opt.get("--exec-timeout", "60"))
    mms = [mmap.mmap(-1, 1 << 20) for _ in range(W)]
    pids = {}
    sys.stdout.flush()
    res, crash, crashes, truncated = [], {}, 0, False
    gen = 0

    def spawn(w, start):
        nonlocal gen
        gen += 1
        out = "%s.w%d.%d" % (tmp, w, gen)
        pid = os.fork()
        if pid == 0:
            try:
                worker(body, w, start, mms[w], out, exec_timeout)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
                os._exit(3)
        pids[pid] = (w, out)

    for w in range(W):
        spawn(w, [])
    while pids:
        pid, st = os.wait()
        if pid not in pids:
            continue
        w, out = pids.pop(pid)
        if st == 0:
            res.append(json.load(open(out)))
            os.unlink(out)
            continue
        if os.WIFEXITED(st):
            raise SystemExit("harness worker failed")
        # ended by a signal: what this worker had seen is lost but for its violations' paths; they are found again
        crashes += 1
        mm = mms[w]
        n = int.from_bytes(mm[262144:262148], "little")
        if not n:
            raise SystemExit("harness worker ended by signal %d at an unknown place" % os.WTERMSIG(st))
        path, arity, labels, ctx = json.loads(mm[262148:262148 + n])
        how = "hang" if os.WTERMSIG(st) == signal.SIGALRM else "crash"
        key = "%s:%s" % (how, ctx)
        if key not in crash or (len(path), path) < (len(crash[key]["path"]), crash[key]["path"]):
            crash[key] = {"key": key, "msg": "process ended by signal %d" % os.WTERMSIG(st), "labels": " ".join(labels), "path": path}
        nxt = next_path(path, arity)
        if crashes > 200:
            truncated = True
        elif nxt is not None:
            spawn(w, nxt)
    tot = {"executions": 0, "transitions": 0, "pruned": 0}
    states, counters, bounds, samples, viols = set(), {}, {}, [], dict(crash)
    for r in res:
        for k in tot:
            tot[k] += r[k]
        states.update(r["states"])
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r["bounds"].items():
            bounds[k] = max(v, bounds.get(k, 0))
        samples += r["samples"]
        truncated |= not r["done"]
        for v in r["viols"]:
            o = viols.get(v["key"])
            if o is None or (len(v["path"]), v["path"]) < (len(o["path"]), o["path"]):
                viols[v["key"]] = v
    with open(tmp, "w") as f:
        json.dump({"executions": tot["executions"], "transitions": tot["transitions"],
                   "skipped_not_owned_or_pruned": tot["pruned"], "distinct_states": len(states),
                   "exhausted": not truncated, "crashes": crashes, "wall_s": round(time.time() - t0, 2), "counters": counters,
                   "choice_points": bounds, "samples": samples[:6], "violations": [viols[k] for k in sorted(viols)]}, f)
    return 1 if viols else 0
