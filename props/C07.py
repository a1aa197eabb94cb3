"""C07: Rc and Arc."""
ASSUMPTIONS = ["memory errors in the sequential part are observed by AddressSanitizer; object lifetime by token-carrying objects",
               "in the concurrent part threads are serialised by a user-level scheduler at every atomic operation, futex and pthread call"]
CFG = """SPECIFICATION Spec
CONSTANTS
 NC = %d
 NO = %d
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Refines Counts
PROPERTY DiedAgrees
CHECK_DEADLOCK FALSE
"""
SIM = CFG.replace("SPECIFICATION Spec", "INIT Init\nNEXT SimNext").replace("PROPERTY DiedAgrees\n", "")
TRACE = """SPECIFICATION Spec
CONSTANTS
 NC = 3
 NO = 5
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""

CONST = """CONSTANTS
 NT = %d
 NV = %d
 NO = %d
"""
GEN = CONST + " Kinds = %s\n MaxOps = %d\n K0 = %d\n Step0 = %d\n Chain0 = %d\n"
ALL = '{"mk","dup","mv","clr","refs","get","cow","next","from","give","take"}'
INV = "INVARIANT Counted\nINVARIANT DeadFree\nINVARIANT NoLoss\nCHECK_DEADLOCK FALSE\n"
MODEL = "SPECIFICATION Spec\n" + GEN + "VIEW View\nPROPERTY DieOnce\n" + INV
GSIM = "INIT Init\nNEXT SimNext\n" + GEN + "ACTION_CONSTRAINT Emit\n" + INV
ATRACE = "SPECIFICATION Spec\n" + CONST + "CONSTRAINT Track\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"


def concurrent(ctx):
    """Arc shared by threads."""
    th = ctx.thorough
    mods = [("share", 2, 2, 1, '{"dup","clr","mv"}', 3, 1, 0, 0),
            ("chain", 2, 1, 2, '{"next","clr","dup"}', 3, 2, 1, 1),
            ("peek", 2, 2, 2, '{"next","clr"}', 3, 2, 9, 1),
            ("hand", 2, 1, 2, '{"mk","give","take","clr","refs","cow"}', 3, 1, 0, 0)]
    if th:
        mods += [("three", 3, 1, 1, '{"dup","clr","refs","cow"}', 3, 1, 0, 0),
                 ("chain3", 2, 2, 3, '{"next","clr","mk","mv"}', 3, 2, 1, 1)]
    sims = [("mix", 3, 3, 9, ALL, 8, 2, 1, 0), ("one", 3, 2, 4, '{"dup","clr","refs","get","cow","mv","from"}', 7, 1, 2, 0),
            ("last", 3, 1, 4, '{"get","clr","cow","refs"}', 3, 1, 0, 0),
            ("chain", 3, 2, 8, '{"next","clr","mk","mv","get","dup"}', 7, 4, 2, 1),
            ("peek", 3, 2, 5, '{"next","clr","refs","get"}', 5, 3, 9, 1),
            ("hand", 3, 2, 8, '{"mk","give","take","clr","get","cow"}', 8, 2, 1, 1)]
    ns = 16 if not th else 200
    res = ctx.par(lambda: ctx.build_conc("arc", ["arc.cpp"]),
                  *[lambda m=m: ctx.model("ArcGen", MODEL % m[1:], "arc_" + m[0]) for m in mods],
                  *[lambda m=m: ctx.simulate("ArcGen", GSIM % m[1:], "arc_" + m[0], ns, 150) for m in sims])
    scripts = []
    for m, r in zip(sims, res[1 + len(mods):]):
        for i, w in enumerate(r):
            scripts.append(({"dfs": 60 if not th else 800, "rnd": 40 if not th else 400, "bound": 2, "seed": ctx.seed * 1000 + i,
                             "faults": i % 2, "cores": 4, "ty": i % 3 == 2, "nt": 3, "nv": m[2], "no": m[6], "step": m[7], "chain": m[8],
                             "one": m[2]}, w))
    for nv in (1, 2, 3):
        ctx.conform(res[0], "ArcTrace", ATRACE % (3, nv, 9), [x for x in scripts if x[0]["nv"] == nv], "arc%d" % nv)
        if ctx.violation:
            return


def run(ctx):
    th = ctx.thorough
    mods = [("two", 2, 3), ("three", 3, 2)] + ([("big", 3, 3), ("wide", 2, 4)] if th else [])
    ns, depth = (60, 100) if not th else (1500, 250)
    res = ctx.par(lambda: ctx.build("rc", ["rc.cpp"]),
                  lambda: ctx.simulate("RcDesign", SIM % (3, 5), "sim", ns, depth),
                  *[lambda m=m: ctx.model("RcDesign", CFG % m[1:], m[0], edges=m[0] != "big") for m in mods])
    scripts = []
    for j, (m, r) in enumerate(zip([("sim", 0, 0)] + mods, res[1:])):
        if m[0] == "big":
            continue
        if m[0] != "sim":
            r, _n = ctx.covering(r)
        for i, w in enumerate(r):
            for ty in range(1, 7) if th or m[0] == "sim" else (1 + i % 2, 1 + (i + j) % 6):
                scripts.append(({"ty": ty, "how": i % 6, "pad": i % 2}, w))
    ctx.conform(res[0], "RcTrace", TRACE, scripts, "rc")
    if not ctx.violation:
        concurrent(ctx)
