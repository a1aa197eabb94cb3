"""C09: region allocator."""
ASSUMPTIONS = ["regions are opened and closed through Region_Allocator::Scope; threads take turns (all region state is thread local)",
               "memory errors are observed by AddressSanitizer, content changes by fill patterns"]
CFG = """SPECIFICATION Spec
CONSTANTS
 NT = %d
 Sizes = %s
 Brands = %s
 MaxBlocks = %d
 MaxOpen = %d
 MaxDepth = 127
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Refines
PROPERTY RefinesAlways
CHECK_DEADLOCK FALSE
"""
SIM = CFG.replace("SPECIFICATION Spec", "INIT Init\nNEXT SimNext").replace("PROPERTY RefinesAlways\n", "")
TRACE = """SPECIFICATION Spec
CONSTANTS
 NT = 3
 MaxDepth = 127
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    th = ctx.thorough
    sets = [("one", 1, "{0,400,1000,1001,3000}", "{1,2}", 3, 3), ("two", 2, "{600}", "{1,2}", 2, 2)]
    if th:
        sets += [("onex", 1, "{1,600,1000,1024,2024,2025}", "{1,2}", 4, 3), ("deep", 1, "{0,999,1500}", "{1}", 4, 5)]
    sims = [("s3", 3, "{0,1,7,24,100,500,976,1000,1024,2024,2048,4072,5000,70000}", "{1,2,3}", 60, 20),
            ("s1", 1, "{0,1,3,24,300,999,1000,1001,2023,2024,2025,10000,300000}", "{1,2,3}", 40, 12)]
    ns, depth = (40, 150) if not th else (400, 300)
    res = ctx.par(lambda: ctx.build("region", ["region.cpp"]),
                  *[lambda s=s: ctx.model("RegionDesign", CFG % s[1:], s[0], edges=True) for s in sets],
                  *[lambda s=s: ctx.simulate("RegionDesign", SIM % s[1:], s[0], ns, depth) for s in sims])
    scripts = []
    for s, r in zip(sets + sims, res[1:]):
        if s in sets:
            bad = ctx.misuse(r, 400 if th else 60)
            r, _ = ctx.covering([e for e in r if "bad" not in e[1]])
            r += bad
        scripts += [({"x": 0}, w) for w in r]
    # nesting up to the limit, and beyond it
    deep = [{"op": "begin", "t": 1, "b": 1 + i % 3} for i in range(127)]
    scripts.append(({"x": 0}, deep + [{"op": "alloc", "t": 1, "b": 1, "n": 1500}, {"op": "begin", "t": 2, "b": 1},
                                     {"op": "end", "t": 1, "b": 1}, {"op": "end", "t": 1, "b": 3}]))
    scripts.append(({"x": 0}, deep + [{"op": "begin", "t": 1, "b": 2}]))
    scripts.append(({"x": 0}, deep + [{"op": "alloc", "t": 1, "b": 1, "n": 5000}, {"op": "begin", "t": 1, "b": 3}]))
    ctx.conform(res[0], "RegionTrace", TRACE, scripts, "region")
