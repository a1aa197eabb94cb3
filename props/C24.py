"""C24: integer helpers."""
ASSUMPTIONS = ["64-bit arguments are covered at and around every power of two and at random; the arithmetic the specification uses for them is checked exhaustively for narrow numbers",
               "undefined behaviour on the way to a result is observed by UndefinedBehaviorSanitizer"]
DESIGN = """SPECIFICATION Spec
CONSTANTS
 NL = %d
 B = %d
INVARIANTS Arith Align Code Bits Powers
CHECK_DEADLOCK FALSE
"""
GEN = """%s
CONSTANTS
 Ks = %s
 Few = %s
%s
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    th = ctx.thorough
    ks, few = ("{0, 3, 31, 32, 63}", "{0, 7, 31, 63}") if not th else ("{%s}" % ", ".join(map(str, list(range(0, 64, 3)) + [1, 31, 32, 62])), "{0, 6, 7, 8, 14, 15, 16, 30, 31, 32, 62, 63}")
    num, depth = (14, 150) if not th else (300, 400)
    flags = ["-fno-sanitize-recover=all"]
    builds = [("asan", "address,undefined", "-O0"), ("opt", "", "-O2")]
    designs = [(2, 4), (3, 2), (1, 16)] if not th else [(2, 4), (6, 2), (1, 16), (3, 4), (2, 8)]
    res = ctx.par(*[lambda b=b: ctx.build("math_" + b[0], ["math.cpp"], san=b[1], opt=b[2], libopt=b[2], flags=flags, libflags=flags, tag=b[0]) for b in builds],
                  lambda: ctx.model("MathGen", GEN % ("SPECIFICATION Spec", ks, few, "VIEW View_\nACTION_CONSTRAINT Emit"), "gen", edges=True),
                  *[lambda i=i: ctx.simulate("MathGen", GEN % ("INIT Init\nNEXT SimNext", ks, few, "ACTION_CONSTRAINT SimEmit"), "sim%d" % i, num, depth, seed=ctx.seed * 10 + i) for i in range(4 if th else 3)],
                  *[lambda d=d: ctx.model("NumDesign", DESIGN % d, "num%dx%d" % d) for d in designs])
    walks, _ = ctx.covering(res[2], maxlen=150)
    scripts = [({"x": 0}, [o for o in w if o["op"] != "nop"]) for w in walks]
    for sims in res[3:3 + (4 if th else 3)]:
        scripts += [({"x": 0}, w) for w in sims]
    for b, exe in zip(builds, res[:2]):
        ctx.conform(exe, "MathTrace", TRACE, scripts if b[0] == "asan" or th else scripts[::5], b[0])
