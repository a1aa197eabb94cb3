"""C15: events and timers."""
ASSUMPTIONS = ["threads are serialised by a user-level scheduler at every atomic operation, futex, pthread, eventfd and epoll call; time is virtual",
               "descriptors (eventfd, timerfd, epoll) are real, waits on them are decided by the scheduler"]
CONST = """CONSTANTS
 NT = %d
 NS = %d
"""
GEN = CONST + " Kinds = %s\n MaxOps = %d\n"
MODEL = "SPECIFICATION Spec\n" + GEN + "VIEW View\nINVARIANT InUse\nINVARIANT WaitOK\nCHECK_DEADLOCK FALSE\n"
SIM = "INIT Init\nNEXT SimNext\n" + GEN + "ACTION_CONSTRAINT Emit\nINVARIANT InUse\nINVARIANT WaitOK\nCHECK_DEADLOCK FALSE\n"
TRACE = "SPECIFICATION Spec\n" + CONST + "CONSTRAINT Track\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
NT, NS = 3, 5


def run(ctx):
    th = ctx.thorough
    mods = [("events", 2, 2, '{"new","sig","rst","try","mv","drop"}', 3),
            ("sources", 2, 1, '{"new","src","pw","pr","wait","try"}', 4),
            ("sinks", 2, 1, '{"new","snk","fill","room","wait","try"}', 4),
            ("waits", 2, 2, '{"new","sig","wait","rst"}', 3)]
    if th:
        mods.append(("three", 3, 2, '{"new","sig","rst","wait","mv"}', 3))
    sims = [("mix", NT, NS, '{"sig","rst","try","new","drop","mv","wait"}', 7),
            ("one", 1, NS, '{"sig","rst","try","new","src","drop","pw","pr","snk","fill","room","mv","wait"}', 30),
            ("source", NT, NS, '{"src","pw","pr","wait","try","mv"}', 7),
            ("sink", NT, NS, '{"src","pw","snk","fill","room","wait","try","mv"}', 7),
            ("wait", NT, 3, '{"new","sig","wait","src","pw"}', 6),
            ("timer", NT, NS, '{"tmr","new","sig","wait"}', 4)]
    ns = 30 if not th else 300
    res = ctx.par(lambda: ctx.build_conc("event", ["event.cpp"]),
                  *[lambda s=s: ctx.model("EventGen", MODEL % s[1:], s[0]) for s in mods],
                  *[lambda s=s: ctx.simulate("EventGen", SIM % s[1:], s[0], ns, 120) for s in sims])
    scripts = []
    for s, r in zip(sims, res[1 + len(mods):]):
        for i, w in enumerate(r):
            many = s[1] > 1
            scripts.append(({"dfs": (50 if not th else 600) if many else 4, "rnd": (50 if not th else 400) if many else 4,
                             "bound": 2, "seed": ctx.seed * 1000 + i, "faults": i % 2, "cores": 1 + i % 4, "ns": NS,
                             "pool": 1 if s[0] == "timer" else 0}, w))
    ctx.conform(res[0], "EventTrace", TRACE % (NT, NS), scripts, "event")
