"""C10: Free_List and Mpool."""
ASSUMPTIONS = ["memory errors in the sequential part are observed by AddressSanitizer, by address comparison and by contents",
               "in the concurrent part threads are serialised by a user-level scheduler at every atomic operation, lock and plain memory access"]
CFG = """SPECIFICATION Spec
CONSTANTS
 NO = %d
 Tys = %s
 MaxSpare = %d
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Refines OnePlace
CHECK_DEADLOCK FALSE
"""
SIM = CFG.replace("SPECIFICATION Spec", "INIT Init\nNEXT SimNext")
TRACE = """SPECIFICATION Spec
CONSTANT NO = 10
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""


CONST = """CONSTANTS
 NT = %d
 NV = %d
 NB = %d
"""
GEN = CONST + " Kinds = %s\n Tys = %s\n MaxOps = %d\n"
INV = "INVARIANT Once\nINVARIANT Spares\nCHECK_DEADLOCK FALSE\n"
MODEL = "SPECIFICATION Spec\n" + GEN + "VIEW View\n" + INV
GSIM = "INIT Init\nNEXT SimNext\n" + GEN + "ACTION_CONSTRAINT Emit\n" + INV
CTRACE = "SPECIFICATION Spec\n" + CONST + "CONSTRAINT Track\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
ALL = '{"mk","rm","get","set","give","take"}'


def concurrent(ctx):
    """Mpool shared by threads."""
    th = ctx.thorough
    mods = [("two", 2, 1, 6, '{"mk","rm"}', "{1,3}", 4), ("hand", 2, 1, 4, '{"mk","rm","give","take"}', "{1}", 4)]
    if th:
        mods += [("three", 3, 1, 6, '{"mk","rm"}', "{1,2}", 3), ("wide", 2, 2, 6, '{"mk","rm"}', "{1,3}", 4)]
    sims = [("mix", 3, 2, 20, ALL, "{1,2,3}", 9), ("one", 3, 1, 12, '{"mk","rm","get"}', "{1}", 8),
            ("nest", 2, 2, 20, '{"mk","rm","get"}', "{1,3}", 9), ("hand", 3, 1, 20, '{"mk","rm","give","take","get"}', "{1,2}", 9)]
    ns = 16 if not th else 200
    res = ctx.par(lambda: ctx.build_conc("mpoolc", ["mpoolc.cpp"]),
                  *[lambda m=m: ctx.model("MpoolCGen", MODEL % m[1:], "conc_" + m[0]) for m in mods],
                  *[lambda m=m: ctx.simulate("MpoolCGen", GSIM % m[1:], "conc_" + m[0], ns, 120) for m in sims])
    scripts = []
    for m, r in zip(sims, res[1 + len(mods):]):
        for i, w in enumerate(r):
            scripts.append(({"dfs": 60 if not th else 800, "rnd": 60 if not th else 600, "bound": 2, "seed": ctx.seed * 1000 + i,
                             "faults": i % 2, "cores": 4, "nt": 3, "nv": m[2]}, w))
    for nv in (1, 2):
        ctx.conform(res[0], "MpoolCTrace", CTRACE % (3, nv, 20), [x for x in scripts if x[0]["nv"] == nv], "mpoolc%d" % nv)
        if ctx.violation:
            return


def run(ctx):
    th = ctx.thorough
    mods = [("lists", 2, "{2}", 2), ("classes", 2, "{1,3,6}", 2)] + ([("big", 3, "{2,4}", 3), ("nest", 2, "{1,2,3,4,5,6}", 3)] if th else [])
    ns, depth = (60, 150) if not th else (800, 400)
    res = ctx.par(lambda: ctx.build("mpool", ["mpool.cpp"]),
                  lambda: ctx.simulate("MpoolDesign", SIM % (10, "{1,2,3,4,5,6}", 20), "sim", ns, depth),
                  *[lambda m=m: ctx.model("MpoolDesign", CFG % m[1:], m[0], edges=True) for m in mods])
    scripts = []
    for j, (m, r) in enumerate(zip([("sim", 0, 0)] + mods, res[1:])):
        if m[0] != "sim":
            r, _n = ctx.covering(r, limit=70000 if not th else 1000000)
        for i, w in enumerate(r):
            for ty in range(5) if th or m[0] == "sim" else ((i + j) % 5,):
                scripts.append(({"ty": ty, "el": 1 if ty == 0 else 0}, w))
    ctx.conform(res[0], "MpoolTrace", TRACE, scripts, "mpool")
    if not ctx.violation:
        concurrent(ctx)
