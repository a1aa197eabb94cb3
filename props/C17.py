"""C17: frame profiles."""
ASSUMPTIONS = ["the clock is virtual: it moves only while every thread waits, so that times are exact"]
CONST = """CONSTANTS
 NT = %d
 NN = %d
"""
GEN = CONST + " Kinds = %s\n Sleeps = %s\n MaxOps = %d\n MaxDepth = %d\n"
MODEL = "SPECIFICATION Spec\n" + GEN + "VIEW View\nINVARIANTS Refines Sums\nCHECK_DEADLOCK FALSE\n"
SIM = "INIT Init\nNEXT SimNext\n" + GEN + "ACTION_CONSTRAINT Emit\nINVARIANTS Refines Sums\nCHECK_DEADLOCK FALSE\n"
EDGES = MODEL.replace("VIEW", "ACTION_CONSTRAINT EmitState\nVIEW")
TRACE = "SPECIFICATION Spec\n" + CONST + "CONSTRAINT Track\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
ALL = '{"fb","fe","en","ex","sl","al","it"}'


def run(ctx):
    th = ctx.thorough
    # every nesting of a few scopes, by one thread
    mods = [("nest", 1, 2, '{"fb","fe","en","ex"}', "{1}", 8 if not th else 11, 3),
            ("frames", 1, 1, '{"fb","fe","en","ex","sl"}', "{1,2}", 7 if not th else 10, 2)]
    sims = [("mix", 3, 3, ALL, "{1,5}", 12, 3), ("two", 2, 2, '{"fb","fe","en","ex","it","sl"}', "{1}", 10, 2),
            ("short", 3, 1, '{"fb","fe","it"}', "{1}", 6, 1), ("calls", 2, 2, '{"fb","en","ex","it","al"}', "{1}", 10, 3)]
    long = [("long", 1, 6, '{"fb","fe","en","ex","sl","it"}', "{1,2,30}", 700, 6),
            ("queue", 1, 2, '{"fb","fe","sl","it"}', "{1,2,3}", 500, 1)]
    ns = 40 if not th else 400
    nl = 6 if not th else 60
    res = ctx.par(lambda: ctx.build_conc("prof", ["prof.cpp"]),
                  *[lambda m=m: ctx.model("ProfDesign", EDGES % m[1:], m[0], edges=True) for m in mods],
                  *[lambda m=m: ctx.simulate("ProfDesign", SIM % m[1:], m[0], ns, 60) for m in sims],
                  *[lambda m=m: ctx.simulate("ProfDesign", SIM % m[1:], m[0], nl, m[5]) for m in long])
    scripts = []
    for m, r in zip(mods, res[1:]):
        walks, _n = ctx.covering(r, limit=60000 if not th else 1000000)
        # report, complete the frame (what is not legal then is skipped) and report again
        end = [{"op": "it", "t": 1, "k": 0, "n": 1}] + [{"op": "ex", "t": 1}] * 3 + [{"op": "fe", "t": 1}, {"op": "it", "t": 1, "k": 0, "n": 1}]
        scripts += [({"dfs": 1, "rnd": 0, "still": 1, "nt": 1}, w + end) for w in walks]
    for m, r in zip(sims, res[1 + len(mods):]):
        for i, w in enumerate(r):
            scripts.append(({"dfs": 60 if not th else 600, "rnd": 80 if not th else 600, "bound": 2, "seed": ctx.seed * 1000 + i,
                             "faults": 0, "cores": 4, "still": 1, "nt": m[1]}, w))
    for m, r in zip(long, res[1 + len(mods) + len(sims):]):
        scripts += [({"dfs": 1, "rnd": 0, "still": 1, "nt": 1}, w) for w in r]
    ctx.conform(res[0], "ProfTrace", TRACE % (3, 6), scripts, "prof")
