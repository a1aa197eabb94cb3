"""C23: checked misuse."""
ASSUMPTIONS = ["the sinks are standard output, debug.log and the registered callbacks; a request that ended the process may do so by a signal or a failing exit status"]
GEN = """SPECIFICATION Spec
CONSTANTS
 MaxLen = %d
 MaxH = %d
 Kinds = %s
VIEW View_
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""
GROUPS = ["{1,3,5,6,18,19}", "{2,4}", "{7,8}", "{9,10,11,12,13,14,15,16,17,20}"]


def run(ctx):
    th = ctx.thorough
    maxlen, maxh = (3, 2) if not th else (5, 4)
    san = ["-Wno-everything"]
    builds = [("asan", "address", "-O0", "-O1", [])]
    builds += [("release", "", "-O2", "-O2", ["-URPP_RELWITHDEBINFO_BUILD", "-DRPP_RELEASE_BUILD", "-DNDEBUG"]),
               ("debug", "", "-O0", "-O0", ["-URPP_RELWITHDEBINFO_BUILD", "-DRPP_DEBUG_BUILD"])]
    res = ctx.par(*[lambda b=b: ctx.build("misuse_" + b[0], ["misuse.cpp"], san=b[1], opt=b[2], libopt=b[3], flags=b[4], libflags=b[4], tag=b[0]) for b in builds],
                  *[lambda g=g, i=i: ctx.model("MisuseGen", GEN % (maxlen, maxh, g), "g%d" % i, edges=True) for i, g in enumerate(GROUPS)])
    nb = len(builds)
    for b, exe in zip(builds, res[:nb]):
        scripts = []
        for edges in res[nb:]:
            bad = ctx.misuse(edges, (350 if b[0] == "asan" else 500) if not th else 20000)
            w, _ = ctx.covering([e for e in edges if "bad" not in e[1]])
            for x in w + bad:
                scripts.append(({"t": ctx.rng.randint(0, 1), "subs": ctx.rng.randint(0, 3), "h": ctx.rng.randint(0, 1),
                                 "ind": ctx.rng.randint(0, 2), "e": ctx.rng.randint(0, 1)}, x))
        ctx.conform(exe, "MisuseTrace", TRACE, scripts, b[0])
