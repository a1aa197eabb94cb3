"""C02: Queue."""
ASSUMPTIONS = ["element types are represented by four categories: trivial, clone-only, copy-only, trivially movable clone-only",
               "memory errors are observed by AddressSanitizer; element lifetime by token-carrying element types"]
CFG = """SPECIFICATION Spec
CONSTANTS
 NC = %d
 MaxLen = %d
 MaxCap = %d
 Sizes = %s
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY RefinesAlways
INVARIANTS Refines NoStray
CHECK_DEADLOCK FALSE
"""
SIM = CFG.replace("SPECIFICATION Spec", "INIT Init\nNEXT SimNext").replace("PROPERTY RefinesAlways\n", "")
TRACE = """SPECIFICATION Spec
CONSTANT NS = 3
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    sets = [("one", 1, 5, 8, "{0,1,2,3,4,5}"), ("two", 2, 2, 4, "{0,1,2,3}"), ("grow", 1, 9, 16, "{7,8}")]
    if ctx.thorough:
        sets += [("one8", 1, 8, 16, "{0,1,2,3,4,5,6,7,8}"), ("two3", 2, 3, 4, "{1,2,3,4}")]
    nsim, depth = (60, 120) if not ctx.thorough else (1500, 250)
    res = ctx.par(lambda: ctx.build("queue", ["queue.cpp"]),
                  lambda: ctx.simulate("QueueDesign", SIM % (3, 20, 40, "{0,1,2,3,5,7,11,17}"), "sim", nsim, depth),
                  lambda: ctx.simulate("QueueDesign", SIM % (1, 12, 24, "{1,3,5,9}"), "sim1", nsim, depth),
                  *[lambda s=s: ctx.model("QueueDesign", CFG % s[1:], s[0], edges=True) for s in sets])
    exe, scripts = res[0], []
    for s, edges in zip(sets, res[3:]):
        walks, total = ctx.covering(edges)
        scripts += [({"what": 0, "kind": k}, w) for i, w in enumerate(walks)
                    for k in (range(5) if s[0] != "two" or ctx.thorough else [i % 5])]
    for i, w in enumerate(res[1] + res[2]):
        scripts.append(({"what": 0, "kind": i % 5}, w))
    ctx.conform(exe, "QueueTrace", TRACE, scripts, "queue")
