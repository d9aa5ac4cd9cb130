#!/usr/bin/env python3
"""Run one property's check:  check.py <ID> quick|thorough   (or  check.py <ID> --replay <file>)"""
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "mc"))
import build  # noqa: E402
from checks import CHECKS  # noqa: E402


def known(prop):
    """Known findings of this property: {key regex: description}."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def python():
    """An interpreter with numpy and astropy: the one the repository's tests run with."""
    for p in ("/opt/vp/venv/bin/python", "/opt/veriftools/pyvenv/bin/python", sys.executable):
        if os.path.exists(p) and subprocess.run([p, "-c", "import numpy"], stderr=subprocess.DEVNULL).returncode == 0:
            return p
    raise RuntimeError("no Python interpreter with numpy")


def slug(key):
    return re.sub(r"\s+", "_", key)


def run_part(prop, part, tier, replay=None):
    t0 = time.time()
    if part["src"].endswith(".py"):
        exe = [python(), os.path.join(VERIF, part["src"])]
    else:
        exe = [build.build(os.path.join(VERIF, part["src"]), part.get("flavour", "asan"),
                           extra_src=[os.path.join(VERIF, x) for x in part.get("extra", [])],
                           defines=part.get("defines", []))]
    tb = time.time() - t0
    out = os.path.join(build.BUILD, "out.%s.%s.%d.json" % (prop, part["name"], os.getpid()))
    env = dict(os.environ)
    env.update({"OMP_NUM_THREADS": "1", "SKA_SDP_FUNC_LOG_LEVEL": part.get("log", "crit"),
                "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:"
                                "detect_stack_use_after_return=0:quarantine_size_mb=16:max_allocation_size_mb=2048",
                "UBSAN_OPTIONS": "print_stacktrace=1", "STUB_BUILD": build.BUILD, "SDP_REPO": build.REPO,
                "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": ""})
    env.update(part.get("env", {}))
    cmd = exe + ["--prop", part.get("mode", prop), "--tier", tier, "--workers", "8",
           "--deadline", str(part.get("deadline", {"quick": 400, "thorough": 3000})[tier])]
    if "exec_timeout" in part:
        cmd += ["--exec-timeout", str(part["exec_timeout"])]
    if replay is not None:
        r = subprocess.run(cmd + ["--replay", replay], env=env)
        return r.returncode
    r = subprocess.run(cmd + ["--out", out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    if not os.path.exists(out):
        raise RuntimeError("explorer gave no result: %s" % r.stdout[-2000:])
    res = json.load(open(out))
    os.unlink(out)
    res["build_s"] = tb
    # replay every violation from its recorded choices: it must reproduce
    for v in res["violations"]:
        path = ",".join(map(str, v["path"]))
        rr = subprocess.run(cmd + ["--replay", path], env=env, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, text=True, errors="replace",
                            timeout=max(120, 2 * part.get("exec_timeout", 300)))
        v["reproduced"] = rr.returncode != 0
        v["replay_output"] = rr.stdout[-3000:]
    return res


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    spec = CHECKS[prop]
    if tier == "--replay":
        d = json.load(open(sys.argv[3]))
        part = [p for p in spec["parts"] if p["name"] == d["part"]][0]
        sys.exit(run_part(prop, part, d["tier"], ",".join(map(str, d["path"]))))
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tot = {"states": 0, "transitions": 0, "executions": 0}
    samples, parts, viols, exhaustive = [], [], [], True
    for part in spec["parts"]:
        if tier == "quick" and part.get("thorough_only"):
            continue
        res = run_part(prop, part, tier)
        tot["states"] += res["distinct_states"]
        tot["transitions"] += res["transitions"]
        tot["executions"] += res["executions"]
        exhaustive = exhaustive and res["exhausted"]
        samples += ["%s: %s" % (part["name"], s) for s in res["samples"][:2]]
        parts.append({"part": part["name"], "executions": res["executions"], "library_calls": res["transitions"],
                      "distinct_observed_states": res["distinct_states"], "counters": res["counters"],
                      "exhausted": res["exhausted"], "build_s": round(res["build_s"], 1), "wall_s": res["wall_s"],
                      "choice_points": res["choice_points"],
                      "bounds": "every combination of: " + ", ".join(
                          "%s (up to %d)" % kv for kv in sorted(res["choice_points"].items()) if kv[1] > 1)})
        for v in res["violations"]:
            v["part"] = part["name"]
            viols.append(v)
    kn = known(prop)
    new, old = [], []
    for v in viols:
        hit = [d for k, d in kn if k == slug(v["key"])]
        (old if hit else new).append((v, hit))
    rep = []
    for v, hit in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, hit[0], slug(v["key"])))
    for v, _ in new:
        name = re.sub(r"[^A-Za-z0-9_.-]+", "_", v["key"])[:80]
        f = os.path.join(VERIF, "evidence", "%s.%s.replay.json" % (prop, name))
        json.dump({"property": prop, "tier": tier, "part": v["part"], "key": v["key"], "message": v["msg"],
                   "choices": v["labels"], "path": v["path"], "reproduced": v["reproduced"],
                   "replay_output": v["replay_output"]}, open(f, "w"), indent=1)
        rep.append(f)
        print("VIOLATION property=%s replay=%s" % (prop, f))
        print("  %s: %s" % (v["key"], v["msg"][:600]))
        if v["labels"]:
            print("  choices: %s" % v["labels"][:600])
    cov = {"states": tot["states"], "transitions": tot["transitions"],
           "traces_validated_against_impl": tot["executions"],
           "evaluations": tot["executions"], "distinct_nontrivial": tot["states"],
           "samples": samples[:6], "exhaustive": exhaustive,
           "rule": spec.get("rule", "every combination of the harness's choice points within the stated bounds; "
                            "states = distinct hashes of observed library state/output"),
           "parts": parts, "known_findings_seen": [slug(v["key"]) for v, _ in old]}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec["level"],
          "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": [{"key": v["key"], "msg": v["msg"][:500], "replay": f} for (v, _), f in zip(new, rep)]}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d executions, %d library calls, %d distinct states, exhausted=%s, %.1f s, %d new violation(s), "
          "%d known" % (prop, tier, tot["executions"], tot["transitions"], tot["states"], exhaustive,
                        time.time() - t0, len(new), len(old)))
    sys.exit(1 if new else 0)


if __name__ == "__main__":
    main()
