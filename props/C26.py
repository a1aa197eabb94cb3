"""C26: reflection, type lists, literals, floating point limits."""
ASSUMPTIONS = ["one byte addressing, natural alignment and IEEE 754 numbers of the platform the library builds for",
               "the declarations of the specification and of the driver are the same text in two languages"]
DESIGN = """SPECIFICATION Spec
CONSTANTS
 N = %d
 T = %d
INVARIANTS ListOps Layout Covers OneWrite
CHECK_DEADLOCK FALSE
"""
GEN = """%s
CONSTANTS
 MaxList = %d
%s
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    th = ctx.thorough
    ml = 5 if th else 4
    num, depth = (20, 120) if not th else (300, 300)
    flags = ["-fno-sanitize-recover=all"]
    builds = [("asan", "address,undefined", "-O0"), ("opt", "", "-O2")]
    res = ctx.par(*[lambda b=b: ctx.build("reflect_" + b[0], ["reflect.cpp"], san=b[1], opt=b[2], libopt=b[2], flags=flags, libflags=flags, tag=b[0]) for b in builds],
                  lambda: ctx.model("ReflectGen", GEN % ("SPECIFICATION Spec", ml, "VIEW View_\nACTION_CONSTRAINT Emit"), "gen", edges=True),
                  *[lambda i=i: ctx.simulate("ReflectGen", GEN % ("INIT Init\nNEXT SimNext", ml, "ACTION_CONSTRAINT SimEmit"), "sim%d" % i, num, depth, seed=ctx.seed * 10 + i) for i in range(4 if th else 2)],
                  lambda: ctx.model("ReflectDesign", DESIGN % (6, 3) if th else DESIGN % (4, 3), "design"))
    walks, _ = ctx.covering(res[2], maxlen=120)
    scripts = [({"x": 0}, [o for o in w if o["op"] != "nop"]) for w in walks]
    for sims in res[3:3 + (4 if th else 2)]:
        scripts += [({"x": 0}, w) for w in sims]
    for b, exe in zip(builds, res[:2]):
        ctx.conform(exe, "ReflectTrace", TRACE, scripts, b[0])
