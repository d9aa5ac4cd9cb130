#!/usr/bin/env python3
"""Development aid: plant small syntactic changes in a scratch copy of the library and see whether the checks notice.

usage: mutate.py LANE_DIR RESULTS.jsonl N SEED FILE...     (LANE_DIR/verif and LANE_DIR/repo are scratch copies)
       lines are taken only where COVERED.json (file -> [lines]) in LANE_DIR says some check executes them
"""
import json
import os
import random
import re
import subprocess
import sys
import time

CHECKS = {
    "sdp_gridder_clamp_channels.cpp": "K01 G02 G01 E02",
    "sdp_gridder_direct.cpp": "G01 E02 A02",
    "sdp_gridder_utils.cpp": "G05 G06 G01 G02 K01 E02 X01",
    "sdp_grid_wstack_wtower.cpp": "G04 X01 E02 A02 G03",
    "sdp_degrid_uvw_custom.cpp": "U02 E02",
    "sdp_gridder_wtower_height.cpp": "G06 G05 G04 E02 A02",
    "sdp_gridder_grid_correct.cpp": "G06 G02 E02 A02",
    "sdp_gridder_wtower_uvw.cpp": "G02 G03 E02 A02 X01 G04",
    "sdp_fft_convolution.cpp": "F04 C01 E02 A02",
    "sdp_station.cpp": "B02 E02",
    "sdp_element_dipole.cpp": "B01 E02",
    "sdp_element_spherical_wave_harp.cpp": "B01 E02",
    "sdp_hogbom_clean.cpp": "C01 E02 A02",
    "sdp_ms_clean_cornwell.cpp": "C02 E02 A02",
    "sdp_dft.cpp": "D01 E02",
    "sdp_phase_rotate.cpp": "R01 E02",
    "sdp_flagger.cpp": "L01 E02",
    "sdp_tiled_functions.cpp": "Q01 E02",
    "sdp_weighting.cpp": "W01 E02",
    "sdp_fft_padded_size.cpp": "F02",
    "sdp_fft.cpp": "F01 F03 E02 A01",
    "sdp_swiftly.cpp": "S01 E02 A02",
    "sdp_pswf.cpp": "P01 E02 A02",
    "sdp_sky_coord.c": "U03",
    "sdp_mem.cpp": "M01 M02 E03 E01 E02 A01",
    "sdp_thread_support.cpp": "X01",
    "sdp_data_model_checks.c": "E03 E02",
    "sdp_logging.c": "U01",
    "sdp_timer.cpp": "T01",
    "sdp_mem_view.h": "E03 G05",
}


def mutants(line):
    out = []
    code = line.split("//")[0]
    if not code.strip() or "SDP_LOG" in code or code.lstrip().startswith(("#", "*", "/*", "template", "static", "inline", "const char")):
        if "SDP_LOG" in code or not code.strip() or code.lstrip()[0] in "#*/":
            return out

    def each(pat, rep, name):
        for m in re.finditer(pat, code):
            out.append((name, code[:m.start()] + m.expand(rep) + code[m.end():] + line[len(code):]))
    each(r"(?<![<\-])<(?![<=])(?= )", "<=", "lt->le")
    each(r"(?<= )<=(?= )", "<", "le->lt")
    each(r"(?<= )>(?= )", ">=", "gt->ge")
    each(r"(?<= )>=(?= )", ">", "ge->gt")
    each(r"(?<= )==(?= )", "!=", "eq->ne")
    each(r"(?<= )!=(?= )", "==", "ne->eq")
    each(r"&&", "||", "and->or")
    each(r"\|\|", "&&", "or->and")
    each(r"(?<= )\+(?= )", "-", "plus->minus")
    each(r"(?<= )-(?= )", "+", "minus->plus")
    each(r"(?<= )\*(?= )", "/", "mul->div")
    each(r"(?<= )/(?= )", "*", "div->mul")
    each(r"(?<= )%(?= )", "/", "mod->div")
    each(r"\+=", "-=", "addassign->sub")
    each(r"\+=", "=", "addassign->assign")
    each(r"-=", "+=", "subassign->add")
    each(r"(?<=[\(\[ ,])1(?=[\)\],; ])", "2", "1->2")
    each(r"(?<=[\(\[ ,])1(?=[\)\],; ])", "0", "1->0")
    each(r"(?<=[\(\[ ,])2(?=[\)\],; ])", "3", "2->3")
    each(r"(?<=[\(\[ ,])0(?=[\)\],; ])", "1", "0->1")
    each(r"if \((?!\*status\))(.*)\)\s*$", r"if (!(\1))", "negate")
    each(r"if \(\*status\)", "if (0)", "drop-status")
    each(r"true", "false", "true->false")
    each(r"false", "true", "false->true")
    if re.match(r"^\s+[A-Za-z_][\w:\[\]\.\->\(\)\*\+, ]*( [\+\-\*/]?= .*|\(.*\));\s*$", code) and not re.match(r"^\s+(return|const|int|double|sdp_\w+\*? \w+ =|auto|break|complex)", code):
        out.append(("delete", re.match(r"^\s*", code).group(0) + ";" + line[len(code.rstrip("\n")):]))
    return [m for m in out if m[1] != line]


def main():
    lane, results, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    rnd = random.Random(seed)
    cov = json.load(open(os.path.join(lane, "COVERED.json")))
    repo = os.path.join(lane, "repo")
    cand = []
    for f in sys.argv[5:]:
        p = subprocess.run(["find", repo + "/src", "-name", f], capture_output=True, text=True).stdout.split()[0]
        lines = open(p).read().split("\n")
        for ln in cov.get(f, []):
            for name, new in mutants(lines[ln - 1]):
                cand.append((f, p, ln, name, lines[ln - 1], new))
    rnd.shuffle(cand)
    print("%d candidates" % len(cand), flush=True)
    perfile = {}
    for f, p, ln, name, old, new in cand:
        if perfile.get(f, 0) >= n:
            continue
        perfile[f] = perfile.get(f, 0) + 1
        text = open(p).read()
        lines = text.split("\n")
        lines[ln - 1] = new
        open(p, "w").write("\n".join(lines))
        rec = {"file": f, "line": ln, "kind": name, "old": old.strip(), "new": new.strip(), "caught": None}
        t0 = time.time()
        for c in CHECKS[f].split():
            env = dict(os.environ, SDP_REPO=repo)
            try:
                r = subprocess.run([sys.executable, "check.py", c, "quick"], cwd=lane + "/verif", env=env, capture_output=True, text=True,
                                   timeout=900)
            except subprocess.TimeoutExpired:
                rec["caught"] = "TIMEOUT " + c
                subprocess.run("pkill -f %s/verif/.build/bin" % lane, shell=True)
                break
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                rec["caught"] = c
                break
            if r.returncode:
                rec["caught"] = "build" if "command failed" in r.stderr else "ERR " + r.stderr[-300:]
                break
        rec["s"] = round(time.time() - t0)
        open(p, "w").write(text)
        open(results, "a").write(json.dumps(rec) + "\n")
        objs = lane + "/verif/.build"
        subprocess.run("find %s/bin %s/obj -type f -mmin +3 -size +1M -name '%s*' -delete; find %s/bin -type f -mmin +15 -delete" % (objs, objs, f, objs), shell=True)


main()
