"""C13: coroutine tasks."""
ASSUMPTIONS = ["threads are serialised by a user-level scheduler at every atomic operation, futex and pthread call; orderings are checked by happens-before tracking of the memory orders actually used",
               "coroutine code generation of clang is trusted"]
CONST = """CONSTANTS
 NT = %d
 NK = %d
 NV = %d
 NGate = %d
"""
GEN = CONST + " Kinds = %s\n MaxOps = %d\n"
MODEL = "SPECIFICATION Spec\n" + GEN + "VIEW View\nINVARIANT Owned\nCHECK_DEADLOCK FALSE\n"
SIM = "INIT Init\nNEXT SimNext\n" + GEN + "ACTION_CONSTRAINT Emit\nINVARIANT Owned\nCHECK_DEADLOCK FALSE\n"
WORD = """SPECIFICATION Spec
CONSTANTS
 Plans = {"await", "block", "poll", "drop"}
INVARIANT Safe
PROPERTY Ends
"""
TRACE = "SPECIFICATION Spec\n" + CONST + "CONSTRAINT Track\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    th = ctx.thorough
    mods = [("small", 2, 2, 1, 1, '{"mk","aw","blk","done","drop","open"}', 3)]
    if th:
        mods.append(("two", 2, 3, 2, 2, '{"mk","aw","aw2","blk","drop","open","mv"}', 3))
    sims = [("basic", 3, 4, 1, 6, '{"mk","mkv","blk","done","drop","open"}', 6),
            ("await", 3, 6, 2, 8, '{"mk","mkv","aw","blk","done","drop","open"}', 7),
            ("chain", 2, 8, 2, 8, '{"mk","aw","then","aw2","blk","done","ok","open"}', 10),
            ("all", 4, 8, 3, 12, '{"mk","mkv","aw","aw2","then","blk","done","drop","open","mv","res","ok"}', 9)]
    ns = 50 if not th else 500
    res = ctx.par(lambda: ctx.build_conc("task", ["task.cpp"]),
                  *[lambda s=s: ctx.model("TaskGen", MODEL % s[1:], s[0]) for s in mods],
                  lambda: ctx.model("TaskDesign", WORD, "word"),
                  *[lambda s=s: ctx.simulate("TaskGen", SIM % s[1:], s[0], ns, 200) for s in sims])
    scripts = []
    for s, r in zip(sims, res[2 + len(mods):]):
        for i, w in enumerate(r):
            scripts.append(({"dfs": 120 if not th else 1500, "rnd": 90 if not th else 600, "bound": 2, "seed": ctx.seed * 1000 + i,
                             "faults": i % 2}, w))
    ctx.conform(res[0], "TaskTrace", TRACE % (4, 8, 3, 12), scripts, "task")
