"""C16: allocation accounting."""
ASSUMPTIONS = ["the blocks really in use are counted by a malloc that replaces the system's at link time"]
CFG = """SPECIFICATION Spec
CONSTANTS
 NK = %d
 NO = %d
 Sizes = %s
 MaxAl = %d
 Kinds = %s
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Refines Balanced
CHECK_DEADLOCK FALSE
"""
SIM = CFG.replace("SPECIFICATION Spec", "INIT Init\nNEXT SimNext").replace("ACTION_CONSTRAINT Emit", "ACTION_CONSTRAINT Emit")
TRACE = """SPECIFICATION Spec
CONSTANTS
 NK = 12
 NO = 60
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""
CONST = """CONSTANTS
 NT = %d
 NV = %d
 NK = %d
"""
GEN = CONST + " Sizes = %s\n MaxOps = %d\n"
INV = "INVARIANT Exact\nCHECK_DEADLOCK FALSE\n"
MODEL = "SPECIFICATION Spec\n" + GEN + "VIEW View\n" + INV
GSIM = "INIT Init\nNEXT SimNext\n" + GEN + "ACTION_CONSTRAINT Emit\n" + INV
CTRACE = "SPECIFICATION Spec\n" + CONST + "CONSTRAINT Track\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"


def concurrent(ctx):
    """Several threads."""
    th = ctx.thorough
    mods = [("two", 2, 1, 1, "{1,5}", 3)] + ([("three", 3, 1, 1, "{1}", 3), ("names", 2, 2, 2, "{1}", 3)] if th else [])
    sims = [("mix", 3, 2, 3, "{1,8,100}", 7), ("one", 3, 1, 1, "{1,2,4}", 6), ("two", 2, 2, 2, "{3,10,50}", 8)]
    ns = 16 if not th else 200
    res = ctx.par(lambda: ctx.build_conc("allocc", ["allocc.cpp"]),
                  *[lambda m=m: ctx.model("AllocCGen", MODEL % m[1:], "conc_" + m[0]) for m in mods],
                  *[lambda m=m: ctx.simulate("AllocCGen", GSIM % m[1:], "conc_" + m[0], ns, 100) for m in sims])
    scripts = []
    for m, r in zip(sims, res[1 + len(mods):]):
        for i, w in enumerate(r):
            scripts.append(({"dfs": 60 if not th else 600, "rnd": 60 if not th else 600, "bound": 2, "seed": ctx.seed * 1000 + i,
                             "faults": i % 2, "cores": 4, "reuse": 1, "nt": m[1], "nv": m[2]}, w))
    ctx.conform(res[0], "AllocCTrace", CTRACE % (3, 2, 3), scripts, "allocc")


ALL = '{"al","fr","az","fz","fin","rb","ra","re","fb","fe","sub","unsub","log"}'


def run(ctx):
    th = ctx.thorough
    mods = [("stats", 2, 2, "{1,5}", 2, '{"al","fr","az","fz"}'), ("one", 1, 3, "{1,5}", 4, '{"al","fr"}'),
            ("around", 1, 1, "{3}", 2, ALL)]
    if th:
        mods += [("more", 2, 3, "{1,5}", 3, '{"al","fr"}'), ("fins", 1, 2, "{3}", 3, '{"al","fr","fin","log","sub","unsub","fb","fe"}')]
    sims = [("sim", 12, 20, "{1,2,7,8,24,100,1000,70000}", 500, '{"al","fr","az","fz","fin","fb","fe","log","sub","unsub"}'),
            ("many", 1, 60, "{1,16,333}", 900, '{"al","fr"}'),
            ("mix", 4, 8, "{1,8,24,700,3000}", 500, ALL)]
    ns, depth = (30, 150) if not th else (400, 400)
    res = ctx.par(lambda: ctx.build("alloc", ["alloc.cpp"], san=None, ldflags=["-Wl,--wrap=malloc", "-Wl,--wrap=free"]),
                  *[lambda m=m: ctx.simulate("AllocDesign", SIM % m[1:], m[0], ns, depth) for m in sims],
                  *[lambda m=m: ctx.model("AllocDesign", CFG % m[1:], m[0], edges=True) for m in mods])
    scripts = []
    for m, r in zip(sims, res[1:]):
        for w in r:
            scripts += [({"sim": 1}, w[:n]) for n in (len(w), len(w) // 2, len(w) // 4)]
    for m, r in zip(mods, res[1 + len(sims):]):
        walks, _n = ctx.covering(r, limit=60000 if not th else 1000000)
        # a report after every prefix of some walks, as the report is what shows the numbers
        for i, w in enumerate(walks):
            w = w[:60]
            cuts = range(1, len(w) + 1) if i % 8 == 0 else [len(w)]
            scripts += [({"sim": 0}, w[:c]) for c in cuts]
    ctx.conform(res[0], "AllocTrace", TRACE, scripts, "alloc")
    if not ctx.violation:
        concurrent(ctx)
