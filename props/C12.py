"""C12: flags, promises, futures, spawn, Thread objects."""
ASSUMPTIONS = ["threads are serialised by a user-level scheduler at every atomic operation, futex and pthread call; orderings are checked by happens-before tracking of the memory orders actually used",
               "futex and thread creation/join/detach are replaced by the scheduler's implementation of their contract"]
CONST = """CONSTANTS
 NT = %d
 NP = %d
 NJ = %d
 NV = %d
 NF = %d
 Once = {1}
"""
GEN = CONST + " Kinds = %s\n MaxOps = %d\n"
MODEL = "SPECIFICATION Spec\n" + GEN + "VIEW View\nINVARIANT Order\nINVARIANT Once1\nCHECK_DEADLOCK FALSE\n"
SIM = "INIT Init\nNEXT SimNext\n" + GEN + "ACTION_CONSTRAINT Emit\nINVARIANT Order\nINVARIANT Once1\nCHECK_DEADLOCK FALSE\n"
FLAG = """SPECIFICATION Spec
CONSTANTS
 Waiters = %s
 Signallers = %s
INVARIANT OnlyAfter
PROPERTY AllReturn
"""
TRACE = "SPECIFICATION Spec\n" + CONST + "CONSTRAINT Track\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    th = ctx.thorough
    mods = [("prom", 2, 2, 1, 1, 1, '{"fill","pblk","prdy","pdrop"}', 3),
            ("jobs", 2, 1, 2, 2, 1, '{"spawn","jblk","jdrop","tmake","tjoin","tmove"}', 3 if th else 2)]
    sims = [("flags", 4, 1, 1, 1, 2, '{"fsig","fblk","frdy"}', 4),
            ("proms", 4, 4, 1, 1, 1, '{"fill","pblk","prdy","pdrop","pdup"}', 6),
            ("spawns", 2, 1, 4, 2, 1, '{"spawn","spawnv","jblk","jrdy","jdrop","jdup","jmove"}', 7),
            ("threads", 2, 1, 4, 2, 1, '{"tmake","tjoin","tdetach","tdrop","tmove"}', 7),
            ("mixed", 3, 2, 4, 2, 1, '{"tmake","tjoin","tdetach","tdrop","tmove","spawn","spawnv","jblk","jrdy","jdrop","fill","pblk","fsig","fblk"}', 7)]
    ns = 40 if not th else 400
    res = ctx.par(lambda: ctx.build_conc("fut", ["fut.cpp"]),
                  *[lambda s=s: ctx.model("FutDesign", MODEL % s[1:], s[0]) for s in mods],
                  lambda: ctx.model("FlagDesign", FLAG % ("{1,2,3}", "{11,12}"), "flag"),
                  *[lambda s=s: ctx.simulate("FutDesign", SIM % s[1:], s[0], ns, 160) for s in sims])
    scripts = []
    for s, r in zip(sims, res[2 + len(mods):]):
        for i, w in enumerate(r):
            scripts.append(({"dfs": 120 if not th else 1500, "rnd": 90 if not th else 600, "bound": 2, "seed": ctx.seed * 1000 + i,
                             "faults": i % 2}, w))
    ctx.conform(res[0], "FutTrace", TRACE % (4, 4, 4, 2, 2), scripts, "fut")
