"""C21: UDP sockets."""
ASSUMPTIONS = ["the loopback interface loses no packets while few are pending"]
DESIGN = """SPECIFICATION Spec
CONSTANTS
 Objs = {1,2}
 Ports = {1%s}
 MaxQueue = %d
 MaxAuto = 1
 Fixed = TRUE
VIEW View
INVARIANT Owned
INVARIANT NoLeak
INVARIANT Agree
INVARIANT Single
CHECK_DEADLOCK FALSE
"""
GEN = """%s
CONSTANTS
 Objs = %s
 Ports = %s
 Sizes = %s
 MaxQueue = %d
%s
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    th = ctx.thorough
    view = "VIEW View\nACTION_CONSTRAINT Emit"
    gen = ("SPECIFICATION Spec", "{1,2}", "{1}", "{0,1473}" if not th else "{0,1472,1473}", 1, view)
    num, depth = (60, 120) if not th else (1000, 300)
    res = ctx.par(lambda: ctx.build("net", ["net.cpp"]),
                  lambda: ctx.model("NetDesign", DESIGN % (("", 1) if not th else (",2", 1)), "design"),
                  lambda: ctx.model("NetGen", GEN % gen, "gen", edges=True),
                  lambda: ctx.simulate("NetGen", GEN % ("INIT Init\nNEXT SimNext", "{1,2,3,4,5}", "{1,2,3,4}", "{0}", 12, "ACTION_CONSTRAINT SimEmit"), "sim", num, depth))
    scripts = [({"x": 0}, w) for w in res[3]]
    bad = ctx.misuse(res[2], 60 if not th else 400)
    w, total = ctx.covering([e for e in res[2] if "bad" not in e[1]], limit=3000 if not th else 60000)
    scripts += [({"x": 0}, x) for x in w + bad]
    ctx.conform(res[0], "NetTrace", TRACE, scripts, "net")
