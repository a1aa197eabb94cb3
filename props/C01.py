"""C01: Vec, Stack, Array, Slice as sequences."""
ASSUMPTIONS = ["element types are represented by five categories: plain aggregate, trivial, clone-only, copy-only, trivially movable clone-only",
               "memory errors are observed by AddressSanitizer; element lifetime by token-carrying element types"]

CFG = """SPECIFICATION Spec
CONSTANTS
 NC = %d
 MaxLen = %d
 MaxCap = %d
 Sizes = %s
 Mode = %d
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY RefinesAlways
INVARIANTS Refines NoStray
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTANT NS = 4
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""



def run(ctx):
    sets = [("vec2", 0, 2, 3, 4, "{0,1,2,3}"), ("vec1", 0, 1, 9, 18, "{0,1,2,5,9,10}"),
            ("stack2", 1, 2, 3, 8, "{0,1,2,3}"), ("stack1", 1, 1, 9, 18, "{0,1,3}"), ("array2", 2, 2, 3, 3, "{0}")]
    if ctx.thorough:
        sets += [("vec2b", 0, 2, 4, 10, "{0,1,2,4}"), ("vec3", 0, 3, 2, 3, "{0,1,2}")]
    nsim, depth = (60, 120) if not ctx.thorough else (1500, 200)
    sims = [(0, "simvec"), (1, "simstack"), (2, "simarray")]
    SIM = CFG.replace("SPECIFICATION Spec", "INIT Init\nNEXT SimNext").replace("PROPERTY RefinesAlways\n", "")
    res = ctx.par(lambda: ctx.build("seq", ["seq.cpp"]),
                  *[lambda s=s: ctx.model("SeqDesign", CFG % (s[2], s[3], s[4], s[5], s[1]), s[0], edges=True) for s in sets],
                  *[lambda s=s: ctx.simulate("SeqDesign", SIM % (4, 40, 80, "{0,1,2,3,7,17,33}", s[0]), s[1], nsim, depth)
                    for s in sims])
    exe, scripts = res[0], []
    for s, edges in zip(sets, res[1:]):
        walks, total = ctx.covering(edges)
        scripts += [({"what": s[1], "kind": kind}, w) for w in walks for kind in range(5)]
    for s, walks in zip(sims, res[1 + len(sets):]):
        scripts += [({"what": s[0], "kind": i % 5}, w) for i, w in enumerate(walks)]
    ctx.conform(exe, "SeqTrace", TRACE, scripts, "seq")
