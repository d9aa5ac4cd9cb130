"""The Python layer: what it passes to the library, what it makes of errors, and the lifetimes of its objects."""
import ctypes
import gc
import importlib
import inspect
import os
import re
import struct
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("SDP_REPO", "/repo")
sys.dont_write_bytecode = True
import stub  # noqa: E402

STUB_DIR = stub.build(os.environ["STUB_BUILD"])
os.environ["SKA_SDP_FUNC_LIB_DIR"] = STUB_DIR
sys.path.insert(0, os.path.join(REPO, "src"))
import explore as mc  # noqa: E402
import numpy as np  # noqa: E402
import table  # noqa: E402

S = stub.load(STUB_DIR)
ENTRIES = list(table.CLASSES.values()) + table.FUNCS
CLS = {id(c): k for k, c in table.CLASSES.items()}
MEMTYPE = {"int8": 1, "int32": 2, "float32": 4, "float64": 8, "complex64": 36, "complex128": 40}


def resolve(e):
    m = importlib.import_module(e["mod"])
    return getattr(m, e["py"])


def get_class(kind):
    return resolve(table.CLASSES[kind])


# ------------------------------------------------------------------ arrays
class Sub(np.ndarray):
    pass


def base_array(shape, dtype="float64", salt=0):
    n = int(np.prod(shape)) if shape else 1
    return (np.arange(n).reshape(shape) + 1 + salt).astype(dtype)


DEVS = ["plain", "int8", "int32", "float32", "complex64", "complex128", "fortran", "gaps", "reversed", "read-only", "zero-dim", "empty",
        "broadcast", "six-dim", "offset", "unaligned", "subclass", "int64", "uint8", "bool", "big-endian", "float16", "longdouble",
        "uint32", "object", "structured", "string", "list", "number", "None", "memoryview", "datetime"]
REFUSED = set(DEVS[DEVS.index("int64"):]) - {"None"}


def make_array(shape, dev, salt=0):
    """The array, and what must be kept alive for it."""
    if dev in ("plain", "int8", "int32", "float32", "complex64", "complex128", "int64", "uint8", "float16", "longdouble", "uint32"):
        return base_array(shape, "float64" if dev == "plain" else dev, salt)
    if dev == "bool":
        return base_array(shape, "bool")
    if dev == "fortran":
        return np.asfortranarray(base_array(shape, "float64", salt))
    if dev == "gaps":
        return base_array(tuple(2 * s for s in shape), "float64", salt)[tuple(slice(None, None, 2) for _ in shape)]
    if dev == "reversed":
        return base_array(shape, "float64", salt)[tuple(slice(None, None, -1) for _ in shape)]
    if dev == "read-only":
        a = base_array(shape, "complex128", salt)
        a.flags.writeable = False
        return a
    if dev == "zero-dim":
        return np.array(1.5 + salt)
    if dev == "empty":
        return np.zeros(tuple(shape[:-1]) + (0,))
    if dev == "broadcast":
        return np.broadcast_to(np.array(2.5), shape)
    if dev == "six-dim":
        return base_array((1, 2, 1, 2, 1, 3), "float32", salt)
    if dev == "offset":
        return base_array(tuple(s + 1 for s in shape), "float64", salt)[tuple(slice(1, None) for _ in shape)]
    if dev == "unaligned":
        n = int(np.prod(shape)) * 8
        return np.frombuffer(bytearray(n + 1), dtype="float64", offset=1).reshape(shape)
    if dev == "subclass":
        return base_array(shape, "float64", salt).view(Sub)
    if dev == "big-endian":
        return base_array(shape, ">f8", salt)
    if dev == "object":
        return base_array(shape, "object", salt)
    if dev == "structured":
        return np.zeros(shape, dtype=[("a", "f8"), ("b", "f8")])
    if dev == "string":
        return np.zeros(shape, dtype="S4")
    if dev == "datetime":
        return np.zeros(shape, dtype="M8[s]")
    if dev == "list":
        return [1.0, 2.0, 3.0]
    if dev == "number":
        return 3
    if dev == "memoryview":
        return memoryview(base_array(shape, "float64", salt))
    return None


def mem_token(a):
    if a is None:
        return ("void",)
    return (a.ctypes.data, MEMTYPE[a.dtype.name], 0, 0 if a.flags.writeable else 1, tuple(zip(a.shape, a.strides)))


def parse_token(t):
    """One recorded argument, in comparable form."""
    if t[0] == "M":
        w = t[1:].split(",")
        sh = tuple(tuple(int(x) for x in p.split(":")) for p in w[5:])
        if w[2] == "0":
            return ("void",) if not sh and w[1] == "0" and w[3] == "0" else ("void?", t)
        return (int(w[1]), int(w[2]), int(w[3]), int(w[4]), sh)
    if t[0] == "d":
        return ("d", bits(float.fromhex(t[1:]) if "n" not in t[1:] else float(t[1:])))
    if t[0] in "il":
        return ("n", int(t[1:]))
    if t[0] == "S":
        w = t[1:].split(",")
        return ("S", w[0]) + tuple(bits(float.fromhex(x)) for x in w[1:])
    return t


def bits(x):
    x = float(x)
    return "nan" if x != x else struct.pack("<d", x)


def lines():
    out = []
    for l in S.stub_log().decode().splitlines():
        w = l.split(" ")
        out.append((w[0], w[1:]))
    return out


# ------------------------------------------------------------------ one call
BASE = {"i": 7, "l": 11, "d": 0.375, "f": 0.75, "b": True, "B": False, "o": 5, "O": 1.625, "n": 2, "c": 0, "t": (3, 4, 5)}


class Call:
    """One call of a Python function with known arguments, and what it should lead to."""

    def __init__(self, e, sky_type="AltAz"):
        self.e = e
        self.env = {}
        self.given = set()
        n = 0
        for p in e["params"]:
            k = p["kind"]
            n += 1
            if k == "m":
                self.env[p["name"]] = make_array(p["shape"], "plain", 10 * n)
            elif k == "v":
                self.env[p["name"]] = make_array((4, 2), "complex128", 10 * n)
            elif k == "s":
                SkyCoord = importlib.import_module("ska_sdp_func.utility").SkyCoord
                c = SkyCoord(sky_type + str(n), 0.25 * n, 0.5 * n, 0.125 * n)
                c.set_epoch(1900.0 + n)
                self.env[p["name"]] = c
                self.sky = getattr(self, "sky", {})
                self.sky[p["name"]] = (sky_type + str(n), 0.25 * n, 0.5 * n, 0.125 * n, 1900.0 + n)
            elif k == "I":
                self.env[p["name"]] = ctypes.c_int(40 + n)
            elif k in "il":
                self.env[p["name"]] = BASE[k] + n
            elif k in "df":
                self.env[p["name"]] = BASE[k] + n
            elif k == "w":
                self.env[p["name"]] = None   # made by the caller
            else:
                self.env[p["name"]] = BASE[k]
            self.given.add(p["name"])
        self.obj = None
        self.refuse = False   # some argument must be refused
        self.maybe = False    # may be refused

    def names(self):
        return [p["name"] for p in self.e["params"]]

    def omit(self, name):
        p = [p for p in self.e["params"] if p["name"] == name][0]
        self.given.discard(name)
        self.env[name] = p["default"]

    def expected(self, vis=None):
        e = self.e
        env = dict(self.env)
        kinds = {p["name"]: p["kind"] for p in e["params"]}
        if vis is not None:
            env["vis"] = vis
        if e["c"] == "sdp_gridder_uvw_es_fft_create_plan":
            if env["do_w_stacking"]:
                w = np.abs(env["uvw"][:, 2])
                env["_wrange"] = (w.min() * (env["freq_hz"][0] / 299792458.0), w.max() * (env["freq_hz"][-1] / 299792458.0))
            else:
                env["_wrange"] = (0, 0)
        sig = [a for a in stub.SIG[e["c"]][1] if a != "e" and a[0] not in "x"]
        out = []
        if sig and sig[0][0] == "h" and len(sig[0]) > 1 and sig[0] != "hSky":
            out.append("obj")
            sig = sig[1:]
        assert len(sig) == len(e["cargs"]), (e["py"], sig, e["cargs"])
        for kind, c in zip(sig, e["cargs"]):
            v = c(env) if callable(c) else env[c]
            if kind == "m":
                out.append(mem_token(v))
            elif kind == "hSky":
                out.append(("S", self.sky[c][0]) + tuple(bits(x) for x in self.sky[c][1:]))
            elif kind in "il":
                out.append(("n", int(v)))
            elif kind == "d":
                out.append(("d", bits(v)))
            elif kind == "f":
                out.append(("d", bits(ctypes.c_float(v).value)))
            elif kind == "I":
                out.append("I%d" % v.value)
            else:
                out.append(v)
        return out

    def invoke(self, style):
        """style 0: positional, 1: by name, 2: first half positional."""
        e = self.e
        names = self.names()
        f = getattr(self.obj, e["py"]) if self.obj is not None and "cls" in e else resolve(e)
        npos = {0: len(names), 1: 0, 2: (len(names) + 1) // 2}[style]
        args, kw = [], {}
        pos = True
        for k, n in enumerate(names):
            if n not in self.given:
                pos = False
                continue
            if pos and k < npos:
                args.append(self.env[n])
            else:
                kw[n] = self.env[n]
        mc.mark()
        mc.calls()
        return f(*args, **kw)


NUM_RETS = {}


def target_lines(log, c):
    return [a for f, a in log if f == c]


def strip_getters(log):
    return [(f, a) for f, a in log if not re.match(r"sdp_gridder_(direct|wtower_uvw)_(image_size|shear_[uv]|subgrid_size|support|theta|w_step|"
                                                  r"oversampling|w_oversampling|w_support)$", f)]


def make_obj(kind):
    """An object of this kind; what it was made with is not kept."""
    c = Call(table.CLASSES[kind])
    o = c.invoke(0)
    return o


def close(msg):
    """Nothing may be left behind: every C object is freed exactly once."""
    gc.collect()
    for k, name in enumerate(stub.KINDS):
        n = S.stub_live(k)
        mc.check(n == 0, "left", "%s: %d %s object(s) of the library were never freed" % (msg, n, name))
    for f, a in lines():
        mc.check("BAD" not in a and not any(x.startswith(("DEAD", "KIND")) for x in a), "freed-twice", "%s: %s was given %s" % (msg, f, a))


def judge(call, style, status=0, null=False, mem_fail=-1, what=""):
    """Make the call and check everything that can be observed of it."""
    e = call.e
    name = (e.get("cls", "") + "." if "cls" in e else "") + e["py"]
    where = "%s %s" % (name, what)
    created_before = S.stub_created()
    S.stub_clear_log()
    if status or null:
        S.stub_script(e["c"].encode(), status, int(null), 0)
    elif mem_fail >= 0:
        S.stub_script(b"sdp_mem_create_wrapper", 4, 1, mem_fail)
    err, res = None, None
    ret = e["ret"]
    is_create = id(e) in CLS
    CError = importlib.import_module("ska_sdp_func.utility").CError
    ival = {p["name"]: call.env[p["name"]].value for p in e["params"] if p["kind"] == "I" and isinstance(call.env[p["name"]], ctypes.c_int)}
    exp = None
    if not (call.refuse or (call.maybe and False)):
        v = call.env.get("vis")
        if ret == "vis" and v is None or e.get("special"):
            exp = None
        else:
            exp = call.expected()
    snap = [(n, a, a.tobytes()) for n, a in call.env.items() if isinstance(a, np.ndarray)]
    try:
        res = call.invoke(style)
    except BaseException as x:
        if isinstance(x, (mc.Violation, mc.Skip)):
            raise
        err = x
    S.stub_script(b"", 0, 0, 0)
    log = strip_getters(lines())
    got = target_lines(log, e["c"])
    if e.get("special") == "find_max" and not call.refuse:
        exp = [("n", stub.ret_int("sdp_gridder_wtower_uvw_image_size")), ("n", stub.ret_int("sdp_gridder_wtower_uvw_subgrid_size"))]
        exp += [("d", bits(stub.ret_double("sdp_gridder_wtower_uvw_" + n))) for n in ("theta", "w_step", "shear_u", "shear_v")]
        exp += [("n", stub.ret_int("sdp_gridder_wtower_uvw_" + n)) for n in ("support", "oversampling", "w_support", "w_oversampling")]
        exp += [("d", bits(call.env["fov"])), ("d", bits(call.env["subgrid_frac"])), ("n", call.env["num_samples"]),
                ("d", bits(call.env["target_err"] or 0.0))]
    for f, a in log:
        mc.check("NOSTATUS" not in a and "PRIOR" not in " ".join(a), "status:" + name, "%s: %s was called %s" %
                 (where, f, "without a place for its status" if "NOSTATUS" in a else "with a status already set"))
        mc.check("BAD" not in a and not any(x.startswith(("DEAD", "KIND", "NULL")) for x in a), "handle:" + name,
                 "%s: %s was given an object which does not exist any more, is of another kind or was never made: %s" % (where, f, a))
    for n, a, b in snap:
        mc.check(a.tobytes() == b, "touched:" + name, "%s: the Python layer changed the values of %s" % (where, n))
    if call.refuse or (call.maybe and err is not None):
        mc.check(err is not None, "accepted:" + name, "%s: accepted" % where)
        mc.check(not got, "accepted:" + name, "%s: the library was called although an exception was raised" % where)
    elif mem_fail >= 0:
        mc.check(isinstance(err, (CError, RuntimeError)), "mem-error:" + name, "%s: an array handle could not be made: %r" % (where, err))
        mc.check(not got, "mem-error:" + name, "%s: the library was called although an array handle could not be made" % where)
    else:
        mc.check(len(got) == 1, "called:" + name, "%s: %s was called %d times (%r)" % (where, e["c"], len(got), err))
        if ret == "vis" and call.env["vis"] is None and err is None:
            mc.check(isinstance(res, np.ndarray) and res.dtype == np.complex128 and res.flags.c_contiguous
                     and res.shape == (call.env["uvws"].shape[0], call.env["ch_count"]) and not res.any(),
                     "returned:" + name, "%s: returned %r" % (where, type(res)))
            exp = call.expected(res)
        if exp is not None:
            have = [parse_token(t) for t in got[0]]
            want = list(exp)
            if want and want[0] == "obj":
                mc.check(have and re.match(r"^\d+$", str(have[0])), "object:" + name, "%s: the object was not passed on" % where)
                have, want = have[1:], want[1:]
            for k, (h, w) in enumerate(zip(have, want)):
                mc.check(h == w, "argument:" + name, "%s: argument %d of %s is %s, should be %s" % (where, k, e["c"], show(h), show(w)))
            mc.check(len(have) == len(want), "argument:" + name, "%s: %d arguments, should be %d" % (where, len(have), len(want)))
        if status:
            mc.check(isinstance(err, CError), "error:" + name, "%s: the library reported error %d, but Python saw %r" % (where, status, err))
            mc.check(re.search(r"(?<![\d.-])%d(?!\d)" % status, str(err)), "error:" + name, "%s: error %d is reported as: %s" % (where, status, err))
        elif null:
            mc.check(err is not None, "error:" + name, "%s: nothing was created, but no exception was raised" % where)
        else:
            mc.check(err is None, "raised:" + name, "%s: the library succeeded, but Python raised %r" % (where, err))
            if ret == "double" or ret == "int" or ret == "prop":
                c = e["c"]
                w = stub.ret_int(c) if stub.SIG[c][0] == "i" else stub.ret_double(c)
                mc.check(res == w and isinstance(res, (int, float)), "returned:" + name, "%s: returned %r, should be %r" % (where, res, w))
            elif ret == "bounds":
                ok = len(res) == 2 and list(res[0]) == [50.5, 51.5, 52.5] and list(res[1]) == [60.5, 61.5, 62.5]
                mc.check(ok, "returned:" + name, "%s: returned %r" % (where, [list(x) for x in res]))
            elif ret == "facet":
                mc.check(res is call.env["facet"], "returned:" + name, "%s: did not return the facet" % where)
            elif ret == "vis":
                pass
            elif ret is None:
                mc.check(res is None, "returned:" + name, "%s: returned %r" % (where, res))
            for n, v in ival.items():
                mc.check(call.env[n].value == v + 1000, "returned:" + name, "%s: %s was not updated" % (where, n))
    ok = err is None
    err = None
    if is_create and ok:
        # the new object owns exactly one C object
        kind = CLS[id(e)]
        gc.collect()
        mc.check(S.stub_live(stub.KINDS.index(kind)) == 1, "created:" + name, "%s: %d objects alive" % (where, S.stub_live(stub.KINDS.index(kind))))
        res = None
        gc.collect()
        mc.check(S.stub_live(stub.KINDS.index(kind)) == 0, "left", "%s: its object was not freed" % where)
        mc.check(len(target_lines(lines(), table.FREE[kind])) == 1, "freed-twice", "%s: freed %d times" %
                 (where, len(target_lines(lines(), table.FREE[kind]))))
    mc.state((name, status, null, ok, len(got), [parse_token(t)[1:] if t[0] == "M" else t for t in (got[0] if got else [])]))
    return ok


def show(t):
    if isinstance(t, tuple) and t and t[0] == "d" and isinstance(t[1], bytes):
        return repr(struct.unpack("<d", t[1])[0])
    return repr(t)


INTS = [0, 1, -1, 2**31 - 1, -2**31, 1000003]
LONGS = INTS + [2**31, 2**40 + 5, -2**40, 2**63 - 1, -2**63]
DOUBLES = [0.0, -0.0, 1.0 / 3.0, -2.5, 1e308, 5e-324, float("inf"), float("-inf"), float("nan"), 3, 16777217.0]
WRONG = ["text", None, [1], 1 + 2j]


def fresh():
    gc.collect()
    S.stub_reset()


def prepare(e):
    fresh()
    call = Call(e)
    if "cls" in e:
        call.obj = make_obj(e["cls"])
    if e.get("special") == "find_max":
        call.env["grid_kernel"] = make_obj("Wtower")
    return call


def set_mem(call, p, dev):
    a = make_array(p["shape"] if p["kind"] == "m" else (4, 2), dev, 900)
    call.env[p["name"]] = a
    if dev in REFUSED:
        call.refuse = True
    if dev == "None" and p["kind"] == "m":
        call.maybe = True
        if call.e["c"] in ("sdp_element_beam_dipole", "sdp_element_beam_spherical_wave_harp", "sdp_station_beam_aperture_array"):
            if p["shape"] == (5,):
                call.refuse = True
    e = call.e
    if e["c"] in ("sdp_gridder_direct_grid", "sdp_gridder_wtower_uvw_grid") and e["py"] == "grid_subgrid" and p["name"] == "vis":
        call.env["ch_count"] = 0


def finish(call, what):
    e = call.e
    name = e["py"]
    call.env.clear()
    call.obj = None
    close(name + " " + what)
    # the next plain call is not affected
    c2 = prepare(e)
    judge(c2, 0, what="(plain call after %s)" % what)
    c2.env.clear()
    c2.obj = None
    close(name + " after " + what)


def n02():
    k = mc.choose(len(ENTRIES), "function")
    e = ENTRIES[k]
    mode = mc.choose(6, "mode")
    mc.context(e["py"])
    mems = [p for p in e["params"] if p["kind"] in "mv"]
    call = prepare(e)
    if e["ret"] == "prop":
        if mode:
            mc.infeasible()
        judge_prop(call)
        return
    style = mc.choose(3, "style") if mode != 3 else 0
    what = ""
    if mode == 0:      # one array, or two, of another kind
        if not mems:
            mc.infeasible()
        p = mems[mc.choose(len(mems), "array")]
        dev = DEVS[mc.choose(len(DEVS), "kind of array")]
        what = "%s: %s" % (p["name"], dev)
        if p["kind"] == "v" and dev == "None":
            call.env["vis"] = None
        else:
            set_mem(call, p, dev)
        judge(call, style, what=what)
    elif mode == 1:    # one number
        sc = [p for p in e["params"] if p["kind"] in "ildfbBoOctn"]
        if not sc:
            mc.infeasible()
        p = sc[mc.choose(len(sc), "number")]
        kd = p["kind"]
        if kd in "il":
            v = mc.pick(INTS if kd == "i" else LONGS, "value")
        elif kd in "df":
            v = mc.pick(DOUBLES, "value")
            if kd == "f" and v == 1e308:
                mc.infeasible()
        elif kd in "bB":
            v = mc.pick([False, True, 0, 1], "value")
        elif kd == "o":
            v = mc.pick([None, 0, 1, 9], "value")
        elif kd == "O":
            v = mc.pick([None, 0.0, 0.5, -3.0], "value")
        elif kd == "t":
            v = mc.pick([(0, 0, 0), (-1, 2, -3), (2**31 - 1, -2**31, 5), [7, 8, 9], np.array([1, 2, 3]).tolist()], "value")
        elif kd == "c":
            v = mc.pick([0, 3, 2], "value")
            if v == 2:
                call.refuse = True
        elif kd == "n":
            v = mc.pick([0, 1, 5], "value")
            call.env["vis"] = None
        call.env[p["name"]] = v
        if kd == "B" and v:
            call.env["freq_hz"] = make_array((2,), mc.pick(["plain", "float32"], "frequencies"), 5)
            call.env["uvw"] = np.array([[1., 2., -3.], [4., 5., 6.], [7., 8., -90.], [1., 1., 0.25]])[:mc.choose(4, "rows") + 1]
        what = "%s = %r" % (p["name"], v)
        judge(call, style, what=what)
    elif mode == 2:    # a value which is no number
        sc = [p for p in e["params"] if p["kind"] in "ildf"]
        if not sc:
            mc.infeasible()
        p = sc[mc.choose(len(sc), "number")]
        v = mc.pick(WRONG + ([2.5] if p["kind"] in "il" else []), "value")
        call.env[p["name"]] = v
        call.refuse = True
        what = "%s = %r" % (p["name"], v)
        judge(call, style, what=what)
    elif mode == 3:    # what the library reports
        args = stub.SIG[e["c"]][1]
        create = id(e) in CLS
        if "e" not in args and not create:
            mc.infeasible()
        st = mc.pick([1, 2, 3, 4, 5, 6, 7, -1, 99, 0], "status")
        null = create
        if st == 0 and (not create or CLS[id(e)] == "Swiftly"):
            mc.infeasible()
        style = mc.choose(3, "style")
        what = "status %d%s" % (st, ", nothing created" if null else "")
        judge(call, style, st, null, what=what)
    elif mode == 4:    # an array handle cannot be made
        if not mems:
            mc.infeasible()
        i = mc.choose(len(mems), "handle which fails")
        what = "array handle %d not made" % i
        judge(call, style, mem_fail=i, what=what)
    else:              # default values: any set of optional parameters left out
        opt = [p for p in e["params"] if p["has_default"]]
        if not opt:
            mc.infeasible()
        any_ = False
        for p in opt:
            if mc.flip("leave out " + p["name"]):
                call.omit(p["name"])
                what += " without " + p["name"]
        judge(call, style, what=what)
    finish(call, what)


def judge_prop(call):
    e = call.e
    S.stub_clear_log()
    mc.mark()
    mc.calls()
    res = getattr(call.obj, e["py"])
    c = e["c"]
    w = stub.ret_int(c) if stub.SIG[c][0] == "i" else stub.ret_double(c)
    log = lines()
    mc.check(len(log) == 1 and log[0][0] == c, "called:" + e["py"], "%s: the library was asked %r" % (e["py"], log))
    mc.check(re.match(r"^\d+$", log[0][1][0]), "object:" + e["py"], "%s: the object was not passed on: %r" % (e["py"], log))
    mc.check(res == w and type(res) is (int if stub.SIG[c][0] == "i" else float), "returned:" + e["py"], "%s: %r, should be %r" % (e["py"], res, w))
    mc.state((e["cls"], e["py"]))
    call.obj = None
    close(e["py"])


# ------------------------------------------------------------------ N01: lifetimes
def n01():
    util = importlib.import_module("ska_sdp_func.utility")
    Mem, SkyCoord, CError = util.Mem, util.SkyCoord, util.CError
    fresh()
    fam = mc.choose(3, "family")
    depth = 4 if mc.quick() else 5
    slots = [None, None]     # [python object, model]
    arrs = {}                # live arrays by key: array, buffer
    dead = []
    made = 0

    def alive(model):
        return model is not None

    class Buf(bytearray):
        pass

    import weakref

    def new_array(kind):
        buf = Buf(64)
        a = np.frombuffer(buf, dtype="float64")
        if kind == 1:
            a = a[::2]
        if kind == 2:
            a.flags.writeable = False
        return a, weakref.ref(buf)

    def sync(step):
        gc.collect()
        want = {}
        for s in slots:
            if s:
                want[id(s[1])] = s[1]
        for kind in range(len(stub.KINDS)):
            n = sum(1 for m in want.values() if m["kind"] == kind)
            mc.check(S.stub_live(kind) == n, "objects", "after %s: %d %s objects alive in the library, should be %d" %
                     (step, S.stub_live(kind), stub.KINDS[kind], n))
        for f, a in lines():
            mc.check("BAD" not in a and not any(x.startswith(("DEAD", "KIND")) for x in a), "objects", "after %s: %s was given %s" % (step, f, a))
        for m in want.values():
            if m.get("buf") is not None:
                mc.check(m["buf"]() is not None, "array-kept", "after %s: the memory of an array went away while its handle is alive" % step)
        for f, n in frees.items():
            have = len(target_lines(lines(), f))
            mc.check(have == n, "freed", "after %s: %s was called %d times, should be %d" % (step, f, have, n))

    frees = {f: 0 for f in table.FREE.values()}

    def drop(i):
        s = slots[i]
        slots[i] = None
        if s is None:
            return
        if not any(t and t[1] is s[1] for t in slots):
            k = stub.KINDS[s[1]["kind"]]
            if k in table.FREE:
                frees[table.FREE[k]] += 1
            dead.append(s[1])

    def model_of(o):
        for s in slots:
            if s and s[0] is o:
                return s[1]
        return None

    PLANS = ["Fft", "Direct", "Wtower", "Swiftly", "EsFft", "ExampleA"]
    hist = []
    plan_kind = mc.pick(PLANS, "plan") if fam == 2 else None
    for step in range(depth):
        i = mc.choose(2, "slot") if step else 0
        if fam == 0:
            op = mc.pick(["array", "gaps", "read-only", "none", "refused", "fails", "drop", "copy", "use", "stop"], "op")
        elif fam == 1:
            op = mc.pick(["sky", "sky-copy", "sky-self", "epoch", "drop", "copy", "use", "sky-null", "stop"], "op")
        else:
            op = mc.pick(["plan", "plan-fails", "plan-null", "drop", "copy", "method", "method-fails", "stop"], "op")
        mc.context("history")
        mc.mark()
        if op == "stop":
            break
        hist.append("%s(%d)" % (op, i))
        label = " ".join(hist)
        mc.calls()
        if op in ("array", "gaps", "read-only"):
            a, wb = new_array(["array", "gaps", "read-only"].index(op))
            tok = mem_token(a)
            drop(i)
            o = Mem(a)
            slots[i] = [o, dict(kind=0, buf=wb, tok=tok)]
            del a, o
        elif op == "none":
            drop(i)
            slots[i] = [Mem(None), dict(kind=0, tok=("void",))]
        elif op in ("refused", "fails"):
            a = np.zeros(3, dtype="int64" if op == "refused" else "float64")
            if op == "fails":
                S.stub_script(b"sdp_mem_create_wrapper", 4, 1, 0)
            err = None
            try:
                Mem(a)
            except (TypeError, CError, RuntimeError) as x:
                err = x
            S.stub_script(b"", 0, 0, 0)
            mc.check(err is not None, "error", "after %s: no exception" % label)
            err = None
        elif op in ("sky", "sky-null"):
            made += 1
            v = ("type%d" % made, 0.5 * made, 0.25 * made, 3.0 * made)
            if op == "sky-null":
                S.stub_script(b"sdp_sky_coord_create", 0, 1, 0)
                err = None
                try:
                    SkyCoord(*v)
                except RuntimeError as x:
                    err = x
                S.stub_script(b"", 0, 0, 0)
                mc.check(err is not None, "error", "after %s: no exception" % label)
                err = None
            else:
                drop(i)
                n = mc.choose(2, "values") if step == 0 else 1
                slots[i] = [SkyCoord(*v[:3 + n]), dict(kind=1, v=[v[0], v[1], v[2], v[3] if n else 0.0, 2000.0])]
        elif op in ("sky-copy", "sky-self"):
            src = slots[1 - i] if op == "sky-copy" else slots[i]
            if not src:
                mc.infeasible()
            o = SkyCoord(src[0])
            m = dict(kind=1, v=list(src[1]["v"]))
            src = None
            drop(i)
            slots[i] = [o, m]
            del o
        elif op == "epoch":
            if not slots[i]:
                mc.infeasible()
            made += 1
            ep = 1950.0 + made
            slots[i][0].set_epoch(ep)
            slots[i][1]["v"][4] = ep
        elif op == "drop":
            if not slots[i]:
                mc.infeasible()
            drop(i)
        elif op == "copy":
            if not slots[1 - i]:
                mc.infeasible()
            if slots[i] and slots[i][1] is slots[1 - i][1]:
                mc.infeasible()
            drop(i)
            slots[i] = [slots[1 - i][0], slots[1 - i][1]]
        elif op == "use":
            if not slots[i]:
                mc.infeasible()
            Lib = util.Lib
            if fam == 0:
                from ska_sdp_func import numeric_functions  # noqa: F401  (declares the function)
                S.stub_clear_log()
                o = slots[i][0]
                Lib.sdp_fft_convolution(o, o, o)
                del o
                t = [parse_token(x) for x in lines()[0][1]]
                mc.check(t == [slots[i][1]["tok"]] * 3, "used", "after %s: the handle stands for %s, should be %s" % (label, t[0], slots[i][1]["tok"]))
        elif op in ("plan", "plan-fails", "plan-null"):
            c = Call(table.CLASSES[plan_kind])
            err = None
            if op == "plan":
                drop(i)
                slots[i] = [c.invoke(0), dict(kind=stub.KINDS.index(plan_kind))]
            else:
                if op == "plan-null" and plan_kind == "Swiftly":
                    mc.infeasible()
                S.stub_script(c.e["c"].encode(), 2 if op == "plan-fails" else 0, 1, 0)
                try:
                    c.invoke(0)
                except (CError, RuntimeError) as x:
                    err = x
                S.stub_script(b"", 0, 0, 0)
                mc.check(err is not None, "error", "after %s: no exception" % label)
                err = None
            del c
        elif op in ("method", "method-fails"):
            if not slots[i]:
                mc.infeasible()
            e = [f for f in table.FUNCS if f.get("cls") == plan_kind and f["ret"] != "prop"][0]
            c = Call(e)
            c.obj = slots[i][0]
            if op == "method-fails":
                S.stub_script(e["c"].encode(), 3, 0, 0)
            err = None
            try:
                c.invoke(0)
            except CError as x:
                err = x
            S.stub_script(b"", 0, 0, 0)
            mc.check((err is not None) == (op == "method-fails"), "error", "after %s: %r" % (label, err))
            err = None
            del c
        for s in slots:
            if s and s[1]["kind"] == 1:
                o, v = s[0], s[1]["v"]
                have = [o.type(), o.value(0), o.value(1), o.value(2), o.epoch()]
                mc.check(have == v, "coordinate", "after %s: the coordinate is %r, should be %r" % (label, have, v))
                del o
        s = None
        sync(label)
        mc.state((fam, plan_kind, [(s and (s[1]["kind"], s[1].get("v"), s[1].get("buf") is not None)) for s in slots], slots[0] and slots[1] and slots[0][1] is slots[1][1]))
        s = None
    for i in (0, 1):
        drop(i)
        sync(" ".join(hist) + " drop(%d)" % i)
    for m in dead:
        if m.get("buf"):
            mc.check(m["buf"]() is None, "array-released", "after %s: the memory of an array stays although its handle is gone" % " ".join(hist))


# ------------------------------------------------------------------ N04: ranges of coordinates
def n04():
    which = mc.choose(2, "function")
    dt = mc.pick(["float64", "float32"], "type")
    vals = [0.0, -3.0, 2.0, 5.5, -7.25]
    tol = 1e-12 if dt == "float64" else 1e-6
    nf = 1 + mc.choose(3, "channels")
    f = np.array([1.0e8, 1.5e8, 2.0e8][:nf])
    mc.context("ranges of coordinates")
    mc.calls()
    if which == 0:
        g = importlib.import_module("ska_sdp_func.visibility").get_uv_range
        nt, nb = 1 + mc.choose(2, "times"), 1 + mc.choose(2, "baselines")
        uvw = np.zeros((nt, nb, 3), dtype=dt)
        # the largest coordinate at any one place, others anywhere
        for t in range(nt):
            for b in range(nb):
                for k in range(3):
                    uvw[t, b, k] = (1.0 + k) if (t, b) == (0, 0) else 0.5
        t, b, k = mc.choose(nt, "time"), mc.choose(nb, "baseline"), mc.choose(3, "coordinate")
        uvw[t, b, k] = mc.pick([-9.0, 11.0, 0.0, 2.5], "value")
        want = max(abs(uvw[..., 0]).max(), abs(uvw[..., 1]).max()) * f[-1] / 299792458.0
        before = uvw.copy()
        got = g(uvw, f)
        mc.check(abs(got - want) <= tol * abs(want), "uv-range", "largest coordinate %r in wavelengths, should be %r, for %r" % (got, want, uvw.tolist()))
        mc.check((uvw == before).all(), "touched", "the coordinates were changed")
        mc.state((which, uvw.tobytes(), nf))
    else:
        g = importlib.import_module("ska_sdp_func.grid_data").GridderUvwEsFft.get_w_range
        n = 1 + mc.choose(4, "rows")
        uvw = np.zeros((n, 3), dtype=dt)
        for r in range(n):
            uvw[r] = (100.0 + r, -200.0 - r, mc.pick(vals[1:], "w"))
        want = (abs(uvw[:, 2]).min() * f[0] / 299792458.0, abs(uvw[:, 2]).max() * f[-1] / 299792458.0)
        before = uvw.copy()
        got = g(uvw, f)
        mc.check(len(got) == 2 and all(abs(a - b) <= tol * abs(b) for a, b in zip(got, want)), "w-range", "range %r, should be %r, for w = %r" % (got, want, uvw[:, 2].tolist()))
        mc.check((uvw == before).all(), "touched", "the coordinates were changed")
        mc.state((which, uvw.tobytes(), nf))


if __name__ == "__main__":
    p = sys.argv[sys.argv.index("--prop") + 1]
    if p == "N03":
        import threads
        threads.own_locks()
    for m in ("visibility", "grid_data", "fourier_transforms.swiftly", "clean", "examples", "station_beam", "numeric_functions",
              "visibility.tiled_functions", "visibility.opt_weighting"):
        importlib.import_module("ska_sdp_func." + m)
    gc.collect()
    gc.freeze()    # what there is now is not looked at again
    gc.disable()
    if p == "N03":
        mc.G.split = 4
        sys.exit(mc.main(threads.body))
    sys.exit(mc.main({"N01": n01, "N02": n02, "N04": n04}[p]))
