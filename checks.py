"""Registry: property id -> parts (harness binaries) that decide it."""
MC = "model_checking"


def part(name, src, **kw):
    d = {"name": name, "src": "harness/" + src}
    d.update(kw)
    return d


CHECKS = {}


def add(prop, *parts, **kw):
    CHECKS[prop] = dict({"level": MC, "parts": list(parts)}, **kw)


add("M01", part("ops", "mem.cpp"))
add("M02", part("elements", "mem.cpp"), part("huge", "huge.cpp", flavour="fast", exec_timeout=250))
add("F01", part("fft", "fft.cpp"))
add("F02", part("padded", "fft.cpp"))
add("F03", part("ops", "fft.cpp"), part("huge", "huge.cpp", flavour="fast", exec_timeout=250))
add("F04", part("conv", "fft.cpp"))
add("P01", part("pswf", "swiftly.cpp"))
add("S01", part("swiftly", "swiftly.cpp"))
add("K01", part("clamp", "gridutils.cpp"))
add("G05", part("utils", "gridutils.cpp"), part("huge", "huge.cpp", flavour="fast", exec_timeout=250))
add("G06", part("correct", "gridutils.cpp"))
add("G01", part("direct", "gridutils.cpp"), part("huge", "huge.cpp", flavour="fast"))
add("G02", part("wtower", "wtower.cpp"), part("huge", "huge.cpp", flavour="fast"))
add("G03", part("adjoint", "wtower.cpp"))
add("G04", part("wstack", "wtower.cpp"))
add("W01", part("weighting", "vis.cpp"), part("huge", "huge.cpp", flavour="fast"))
add("L01", part("flagger", "vis.cpp"), part("huge", "huge.cpp", flavour="fast", exec_timeout=250, thorough_only=True))
add("Q01", part("tiles", "vis.cpp"))
add("R01", part("rotate", "vis.cpp"), part("huge", "huge.cpp", flavour="fast", exec_timeout=250, thorough_only=True))
add("D01", part("dft", "vis.cpp"), part("huge", "huge.cpp", flavour="fast", exec_timeout=250, thorough_only=True))
add("U02", part("custom", "beams.cpp"), part("huge", "huge.cpp", flavour="fast"))
add("B01", part("elements", "beams.cpp"))
add("B02", part("station", "beams.cpp"))
add("C01", part("hogbom", "clean.cpp"))
add("C02", part("msclean", "clean.cpp"))
add("E01", part("status", "api.cpp", exec_timeout=30))
add("A01", part("resources", "api.cpp", exec_timeout=30))
add("E02", part("arguments", "api.cpp", exec_timeout=90))
add("X01", part("schedules", "sched.cpp", flavour="sched", extra=["harness/sched_rt.cpp"]))
add("X02", part("threads", "sched.cpp", flavour="sched", extra=["harness/sched_rt.cpp"]))
add("T01", part("timers", "misc.cpp", log="info"))
add("E03", part("checks", "misc.cpp"))
add("U01", part("log", "misc.cpp"))
add("U03", part("sky", "misc.cpp"))
add("A02", part("shortage", "api.cpp", exec_timeout=30))
add("N01", part("lifetimes", "py/api.py"))
add("N02", part("arguments", "py/api.py"))
add("N03", part("threads", "py/api.py", exec_timeout=120))
add("N04", part("ranges", "py/api.py"))
add("H01", part("height", "height.cpp"))
add("V01", part("setup", "esfft.cpp"))
