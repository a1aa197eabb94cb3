"""C08: Range_Allocator."""
ASSUMPTIONS = ["an allocator is destroyed or overwritten only when all its ranges were freed"]
CFG = """SPECIFICATION Spec
CONSTANTS
 NC = %d
 Heaps = %s
 Sizes = %s
 Aligns = %s
 MaxRanges = %d
 Buckets = %d
 Bias = %d
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Refines
PROPERTY RefinesAlways
CHECK_DEADLOCK FALSE
"""
SIM = CFG.replace("SPECIFICATION Spec", "INIT Init\nNEXT SimNext").replace("PROPERTY RefinesAlways\n", "").replace("INVARIANT Refines\n", "")
TRACE = """SPECIFICATION Spec
CONSTANT NS = 2
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    th = ctx.thorough
    sets = [("b3", 1, "{6}", "{1,2,3,6}", "{1,2,4}", 4, 3, 0), ("b1", 1, "{5,8}", "{1,3,8}", "{1,4}", 3, 1, 0),
            ("mv", 2, "{3}", "{1,3}", "{2}", 2, 5, 1)]
    if th:
        sets += [("b3x", 1, "{8}", "{1,2,3,4,5}", "{1,2,4}", 5, 3, 0), ("b5", 1, "{9,10}", "{1,2,4,7}", "{1,4}", 5, 5, 1)]
    sims = [("s24", 2, "{1,7,1000,4096,65536,1048576,100000000}", "{1,2,3,60,100,255,256,257,300,511,512,513,1000,3000,5000,70000,1000000,30000000}",
             "{1,2,3,4,16,64,100,256,4096,65536}", 30, 24, 8),
            ("s3", 1, "{20,64}", "{1,2,3,4,5,6,7,8}", "{1,2,3,4,5,8}", 20, 3, 0),
            ("s5", 1, "{40,200}", "{1,2,3,5,8,13,21}", "{1,2,4,8,16,32}", 30, 5, 1)]
    ns, depth = (40, 150) if not th else (600, 300)
    res = ctx.par(lambda: ctx.build("range", ["range.cpp"]),
                  *[lambda s=s: ctx.model("RangeDesign", CFG % s[1:], s[0], edges=True) for s in sets],
                  *[lambda s=s: ctx.simulate("RangeDesign", SIM % s[1:], s[0], ns, depth) for s in sims])
    scripts = []
    for s, r in zip(sets + sims, res[1:]):
        if s in sets:
            r, _ = ctx.covering(r)
        rs = {"bk": s[6], "bi": s[7]}
        scripts += [(rs, w) for w in r]
    ctx.conform(res[0], "RangeTrace", TRACE, scripts, "range")
