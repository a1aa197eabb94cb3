"""C25: vectors, matrices, quaternions, boxes."""
ASSUMPTIONS = ["arguments are whole numbers (or halves and quarters) for which single precision is exact; results of division, roots and angles are compared in thousandths",
               "rounding behaviour beyond that, infinities and not-a-number are not covered",
               "the SSE paths are only compiled by MSVC and are not covered"]
DESIGN = """%s
CONSTANTS
 Under = %d
 Over = %d
 Part = %d
 Steps = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
GEN = """%s
CONSTANTS
 Deep = %s
%s
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    th = ctx.thorough
    deep = "TRUE" if th else "FALSE"
    num, depth, sims = (14, 150, 3) if not th else (300, 400, 5)
    flags = ["-fno-sanitize-recover=all"]
    builds = [("asan", "address,undefined", "-O0"), ("opt", "", "-O2")]
    under, over = (1, 2) if not th else (3, 3)
    res = ctx.par(*[lambda b=b: ctx.build("vec_" + b[0], ["vec.cpp"], san=b[1], opt=b[2], libopt=b[2], flags=flags, libflags=flags, tag=b[0]) for b in builds],
                  lambda: ctx.model("VecGen", GEN % ("SPECIFICATION Spec", deep, "VIEW View_\nACTION_CONSTRAINT Emit"), "gen", edges=True),
                  *[lambda i=i: ctx.simulate("VecGen", GEN % ("INIT Init\nNEXT SimNext", deep, "ACTION_CONSTRAINT SimEmit"), "sim%d" % i, num, depth, seed=ctx.seed * 10 + i) for i in range(sims)],
                  lambda: ctx.model("VecDesign", DESIGN % ("SPECIFICATION Spec", 3, 3, 0, 300 if not th else 20000, "Inverse Boxes Unit Turns"), "random"),
                  lambda: ctx.model("VecDesign", DESIGN % ("SPECIFICATION Spec", under, over, 1, 0, "Unit Turns"), "quat"),
                  lambda: ctx.model("VecDesign", DESIGN % ("SPECIFICATION Spec", under, over, 2, 0, "Boxes"), "box"))
    walks, _ = ctx.covering(res[2], maxlen=150)
    scripts = [({"x": 0}, [o for o in w if o["op"] != "nop"]) for w in walks]
    for s in res[3:3 + sims]:
        scripts += [({"x": 0}, w) for w in s]
    for b, exe in zip(builds, res[:2]):
        ctx.conform(exe, "VecTrace", TRACE, scripts if b[0] == "asan" or th else scripts[::3], b[0])
