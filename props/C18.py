"""C18: the log."""
ASSUMPTIONS = ["the log file and standard output are redirected to memory files below the C library"]
CONST = """CONSTANTS
 NT = %d
"""
GEN = CONST + " MaxSubs = %d\n Texts = %s\n Kinds = %s\n MaxOps = %d\n"
MODEL = "SPECIFICATION Spec\n" + GEN + "VIEW View\nINVARIANT Whole\nCHECK_DEADLOCK FALSE\n"
SIM = "INIT Init\nNEXT SimNext\n" + GEN + "ACTION_CONSTRAINT Emit\nINVARIANT Whole\nCHECK_DEADLOCK FALSE\n"
TRACE = "SPECIFICATION Spec\n" + CONST + "CONSTRAINT Track\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
ALL = '{"sub","unsub","in","out","log"}'


def run(ctx):
    th = ctx.thorough
    mods = [("two", 2, 2, "{1}", '{"sub","unsub","log"}', 2)] + ([("three", 3, 2, "{1}", '{"sub","unsub","log"}', 2)] if th else [])
    sims = [("mix", 3, 6, "{0,1,2,3,4,5}", ALL, 8), ("subs", 2, 12, "{1}", '{"sub","unsub","log"}', 9),
            ("log", 3, 1, "{0,1,2,3,4,5}", '{"in","out","log"}', 7), ("one", 1, 30, "{0,1,2,3,4,5}", ALL, 60)]
    ns = 50 if not th else 300
    res = ctx.par(lambda: ctx.build_conc("log", ["log.cpp"]),
                  *[lambda m=m: ctx.model("LogGen", MODEL % m[1:], m[0]) for m in mods],
                  *[lambda m=m: ctx.simulate("LogGen", SIM % m[1:], m[0], ns, 30 * m[5] * m[1] // 2) for m in sims])
    scripts = []
    for m, r in zip(sims, res[1 + len(mods):]):
        for i, w in enumerate(r):
            k = 1 if m[1] == 1 else 80 if not th else 800
            scripts.append(({"dfs": k, "rnd": k, "bound": 2, "seed": ctx.seed * 1000 + i,
                             "faults": 0, "cores": 4, "nt": m[1]}, w))
    ctx.conform(res[0], "LogTrace", TRACE % 3, scripts, "log")
