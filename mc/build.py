"""Compile the library from /repo's working tree (several flavours) plus a harness.

Object files are cached under /verif/.build by a hash of (compiler, flags, source
text, every header in the tree), so a changed source is always rebuilt.
"""
import concurrent.futures as cf
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SDP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SRC = os.path.join(REPO, "src", "ska-sdp-func")

COMMON = ["-DNDEBUG", "-DSDP_USE_POCKETFFT", "-DSOURCE_PATH_SIZE=6", "-g1", "-w", "-fPIC"]
FLAVOURS = {
    # functional exploration: address sanitizer, single OpenMP thread at run time
    # (clang: gcc's address sanitizer leaves loads of complex values unchecked; its
    # OpenMP calls are served by mc/kmp)
    "asan": (["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fopenmp", "-ffp-contract=off",
              "-I" + os.path.join(VERIF, "mc", "kmp")],
             ["-fsanitize=address"]),
    # plain, optimised as shipped
    "fast": (["-O2", "-fopenmp"], ["-fopenmp"]),
    # schedule exploration: every memory access calls into our own runtime
    "sched": (["-O1", "-fsanitize=thread", "-fopenmp", "-fno-omit-frame-pointer"], []),
}
WRAPPED = ["memcpy", "memmove", "memset", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock",
           "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]


CC = {"asan": ("clang", "clang++")}
KMP = os.path.join(VERIF, "mc", "kmp", "kmp.c")

LINK = {"api.cpp": ["-Wl,--wrap=calloc"]}   # requests for memory can be made to fail


def sources():
    out = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith((".cpp", ".c")):
                out.append(os.path.join(d, f))
    return sorted(out)


def headers_hash():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(SRC)):
        for f in sorted(fs):
            if f.endswith((".h", ".hpp", ".cu")):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def version_header(bdir):
    inc = os.path.join(bdir, "inc")
    os.makedirs(inc, exist_ok=True)
    p = os.path.join(inc, "sdp_func_version.h")
    if not os.path.exists(p):
        with open(p + ".%d" % os.getpid(), "w") as f:
            f.write("#define SDP_FUNC_VERSION 0x010202\n#define SDP_FUNC_VERSION_STR \"1.2.2\"\n")
        os.replace(p + ".%d" % os.getpid(), p)
    return inc


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[:3000]))


def compile_one(src, flags, tag, inc, cc=("gcc", "g++")):
    cxx = not src.endswith(".c")
    h = hashlib.sha256()
    h.update(" ".join(cc + tuple(flags)).encode())
    h.update(tag.encode())
    h.update(src.encode())
    h.update(open(src, "rb").read())
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + h.hexdigest()[:20] + ".o")
    if os.path.exists(obj):
        return obj
    std = "-std=c++17" if src.startswith(VERIF) else "-std=c++11"
    cmd = ([cc[1], std] if cxx else [cc[0]]) + flags + \
        ["-I" + inc, "-I" + REPO, "-I" + os.path.join(REPO, "src"), "-I" + VERIF,
         "-c", src, "-o", obj + ".%d.tmp" % os.getpid()]
    run(cmd)
    os.replace(obj + ".%d.tmp" % os.getpid(), obj)
    return obj


def build(harness, flavour, extra_src=(), extra_flags=(), defines=()):
    """Return path of the executable for harness (path of .cpp) in a flavour."""
    link = LINK.get(os.path.basename(harness), [])
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    inc = version_header(BUILD)
    cflags, lflags = FLAVOURS[flavour]
    hh = headers_hash()
    mch = hashlib.sha256()
    for d in ("mc", "harness", os.path.join("mc", "kmp")):
        for f in sorted(os.listdir(os.path.join(VERIF, d))):
            if f.endswith((".hpp", ".h")):
                mch.update(open(os.path.join(VERIF, d, f), "rb").read())
    jobs = []
    libflags = COMMON + cflags + list(extra_flags)
    for s in sources():
        jobs.append((s, libflags, hh))
    hflags = ["-DNDEBUG", "-g1", "-w", "-fPIC"] + list(defines)
    if flavour == "asan":
        hflags += ["-O1", "-fsanitize=address", "-I" + os.path.join(VERIF, "mc", "kmp")]
    else:
        hflags += ["-O1"]
    cc = CC.get(flavour, ("gcc", "g++"))
    jobs.insert(0, (harness, hflags + ["-fopenmp"] * (flavour == "fast"), hh + mch.hexdigest()))
    if flavour == "asan":
        jobs.append((KMP, ["-O1", "-g1", "-w", "-fPIC"], mch.hexdigest()))
    for s in extra_src:
        jobs.insert(0, (s, hflags, hh + mch.hexdigest()))
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], j[1], j[2], inc, cc), jobs))
    h = hashlib.sha256("\n".join(objs + [flavour] + list(link)).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "bin", os.path.basename(harness).rsplit(".", 1)[0] + "." + flavour + "." + h)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        lf = lflags
        if flavour == "sched":
            # instrumented copies of inline functions win: the library first, the harness last
            k = 1 + len(extra_src)
            objs = objs[k:] + objs[:k]
            lf = ["-Wl,--wrap=" + f for f in WRAPPED]
        run([cc[1]] + objs + list(lf) + list(link) + ["-lpthread", "-lm", "-o", tmp])
        os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    print(build(os.path.abspath(sys.argv[1]), sys.argv[2] if len(sys.argv) > 2 else "asan"))
