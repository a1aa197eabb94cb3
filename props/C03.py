"""C03: Heap."""
ASSUMPTIONS = ["element types are represented by four categories: trivial, clone-only, copy-only, trivially movable clone-only",
               "memory errors are observed by AddressSanitizer; element lifetime by token-carrying element types"]
CFG = """SPECIFICATION Spec
CONSTANTS
 NC = %d
 MaxLen = %d
 MaxCap = %d
 Sizes = %s
 Keys = %s
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY RefinesAlways
INVARIANTS Refines HeapOrder
CHECK_DEADLOCK FALSE
"""
SIM = CFG.replace("SPECIFICATION Spec", "INIT Init\nNEXT SimNext").replace("PROPERTY RefinesAlways\n", "")
TRACE = """SPECIFICATION Spec
CONSTANT NS = 3
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    sets = [("one", 1, 6, 8, "{7}", "{0,1,2}"), ("caps", 1, 4, 8, "{0,1,2,3,4}", "{0,1}"),
            ("two", 2, 2, 3, "{1,3}", "{0,1}"), ("grow", 1, 9, 16, "{8}", "{0,1}")]
    if ctx.thorough:
        sets += [("one7", 1, 7, 8, "{7}", "{0,1,2,3}"), ("perm", 1, 6, 8, "{6}", "{0,1,2,3,4,5}")]
    nsim, depth = (60, 150) if not ctx.thorough else (1500, 300)
    res = ctx.par(lambda: ctx.build("queue", ["queue.cpp"]),
                  lambda: ctx.simulate("HeapDesign", SIM % (3, 24, 48, "{0,1,3,7,17}", "{0,1,2,3,4,5,6,7,8,9,10,11,12}"), "sim", nsim, depth),
                  lambda: ctx.simulate("HeapDesign", SIM % (1, 40, 64, "{1,3}", "{%s}" % ",".join(map(str, range(30)))), "sim1", nsim, depth),
                  *[lambda s=s: ctx.model("HeapDesign", CFG % s[1:], s[0], edges=True) for s in sets])
    exe, scripts = res[0], []
    for s, edges in zip(sets, res[3:]):
        walks, total = ctx.covering(edges)
        scripts += [({"what": 1, "kind": k}, w) for i, w in enumerate(walks)
                    for k in (range(5) if ctx.thorough else [i % 5, (i + 2) % 5])]
    for i, w in enumerate(res[1] + res[2]):
        scripts.append(({"what": 1, "kind": i % 5}, w))
    ctx.conform(exe, "HeapTrace", TRACE, scripts, "heap")
