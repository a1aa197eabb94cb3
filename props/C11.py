"""C11: mutex, Lock, condition, atomics."""
ASSUMPTIONS = ["threads are serialised by a user-level scheduler at every atomic operation and pthread call; orderings are checked by happens-before tracking of the memory orders actually used",
               "pthread mutexes and conditions are replaced by the scheduler's implementation of their POSIX contract"]
CONST = """CONSTANTS
 NT = %d
 NM = %d
 NC = %d
 NF = %d
 NA = %d
 NG = %d
"""
GEN = CONST + " Kinds = %s\n MaxOps = %d\n"
MODEL = "SPECIFICATION Spec\n" + GEN + "VIEW View\nINVARIANT Excl\nINVARIANT Wakes\nCHECK_DEADLOCK FALSE\n"
SIM = "INIT Init\nNEXT SimNext\n" + GEN + "ACTION_CONSTRAINT Emit\nINVARIANT Excl\nINVARIANT Wakes\nCHECK_DEADLOCK FALSE\n"
TRACE = "SPECIFICATION Spec\n" + CONST + "CONSTRAINT Track\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    th = ctx.thorough
    mods = [("mutex", 2, 1, 1, 1, 1, 2, '{"lock","unlock","try","glock","gmove","gdrop"}', 4),
            ("cond", 3, 1, 1, 1, 1, 1, '{"lock","unlock","wait","signal","bcast"}', 3)]
    sims = [("locks", 3, 2, 1, 1, 1, 2, '{"lock","unlock","try","glock","gmove","gdrop","rd","put"}', 6),
            ("locks2", 4, 1, 1, 1, 1, 2, '{"lock","unlock","try","rd","put"}', 6),
            ("conds", 4, 2, 2, 1, 1, 1, '{"lock","unlock","wait","signal","bcast","rd","put"}', 6),
            ("conds1", 3, 1, 1, 1, 1, 1, '{"lock","unlock","wait","signal"}', 6),
            ("bcast", 4, 1, 1, 1, 1, 1, '{"lock","unlock","wait","bcast"}', 5),
            ("atoms", 3, 1, 1, 1, 1, 1, '{"incr","decr","xchg","cas","load"}', 4),
            ("mix", 4, 2, 1, 1, 2, 2, '{"lock","unlock","glock","gmove","gdrop","try","wait","signal","bcast","rd","put","incr","cas"}', 6)]
    ns = 40 if not th else 400
    res = ctx.par(lambda: ctx.build_conc("sync", ["sync.cpp"]),
                  *[lambda s=s: ctx.model("SyncDesign", MODEL % s[1:], s[0]) for s in mods],
                  *[lambda s=s: ctx.simulate("SyncDesign", SIM % s[1:], s[0], ns, 140) for s in sims])
    scripts = []
    for s, r in zip(sims, res[1 + len(mods):]):
        for i, w in enumerate(r):
            scripts.append(({"dfs": 150 if not th else 1500, "rnd": 60 if not th else 600, "bound": 2, "seed": ctx.seed * 1000 + i,
                             "faults": i % 2}, w))
    ctx.conform(res[0], "SyncTrace", TRACE % (4, 2, 2, 1, 2, 2), scripts, "sync")
