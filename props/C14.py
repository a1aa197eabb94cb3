"""C14: asynchronous pool."""
ASSUMPTIONS = ["threads are serialised by a user-level scheduler at every atomic operation, futex, pthread, eventfd and epoll call; time is virtual",
               "descriptors (eventfd, timerfd, epoll) are real, waits on them are decided by the scheduler"]
CONST = """CONSTANTS
 NT = %d
 NJ = %d
 NE = %d
"""
GEN = CONST + " Kinds = %s\n MaxOps = %d\n StepKinds = %s\n"
MODEL = "SPECIFICATION Spec\n" + GEN + "VIEW View\nINVARIANT Shape\nINVARIANT Jam\nCHECK_DEADLOCK FALSE\n"
SIM = "INIT Init\nNEXT SimNext\n" + GEN + "ACTION_CONSTRAINT Emit\nINVARIANT Shape\nCHECK_DEADLOCK FALSE\n"
POOL = """SPECIFICATION Spec
CONSTANTS
 W = %d
 J = %d
 E = %d
 Turns = %d
 Closes = %s
 Spurious = TRUE
INVARIANT OnePlace
INVARIANT Stopped
PROPERTY NoRunDown
PROPERTY Completes
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""
TRACE = "SPECIFICATION Spec\n" + CONST + "CONSTRAINT Track\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
NJ, NE = 8, 9


def run(ctx):
    th = ctx.thorough
    mods = [("small", 1, 2, 1, '{"mk","sig","blk","drop","close"}', 4, "{1,10}"),
            ("fork", 1, 1, 1, '{"mk","sig","blk","drop","close"}', 4, "{1,10,20,30}")]
    if th:
        mods.append(("two", 2, 2, 2, '{"mk","sig","blk","drop"}', 3, "{1,10,40}"))
    pools = [("pool", 2, 2, 1, 1, "TRUE"), ("live", 2, 2, 2, 1, "FALSE")]
    if th:
        pools += [("pool3", 2, 3, 1, 2, "TRUE"), ("live3", 2, 3, 2, 2, "FALSE"), ("wide", 3, 3, 1, 1, "TRUE")]
    sims = [("turns", 3, NJ, NE, '{"mk","blk","done","drop"}', 5, "{1,20}"),
            ("events", 3, NJ, NE, '{"mk","sig","blk"}', 5, "{1,10,20,40}"),
            ("fork", 2, NJ, NE, '{"mk","sig","blk","drop"}', 6, "{1,10,20,30,40}"),
            ("close", 1, NJ, NE, '{"mk","sig","drop","close"}', 14, "{1,10,20,30,40}")]
    ns = 40 if not th else 400
    res = ctx.par(lambda: ctx.build_conc("pool", ["pool.cpp"]),
                  *[lambda s=s: ctx.model("PoolGen", MODEL % s[1:], s[0]) for s in mods],
                  *[lambda s=s: ctx.model("PoolDesign", POOL % s[1:], s[0]) for s in pools],
                  *[lambda s=s: ctx.simulate("PoolGen", SIM % s[1:], s[0], ns, 150) for s in sims])
    scripts = []
    for s, r in zip(sims, res[1 + len(mods) + len(pools):]):
        for i, w in enumerate(r):
            scripts.append(({"dfs": 60 if not th else 800, "rnd": 70 if not th else 500, "bound": 2, "seed": ctx.seed * 1000 + i,
                             "faults": i % 2, "cores": 1 + i % 4, "nj": NJ}, w))
    ctx.conform(res[0], "PoolTrace", TRACE % (3, NJ, NE), scripts, "pool")
