"""C22: random streams."""
ASSUMPTIONS = ["evenness is judged on 1200 draws from 12 fixed seeds, within six standard deviations"]
DESIGN = """SPECIFICATION Spec
CONSTANTS
 W = %d
 MaxN = %d
 Wrap = TRUE
INVARIANT Sound
INVARIANT Invertible
CHECK_DEADLOCK FALSE
"""
GEN = """INIT Init
NEXT SimNext
ACTION_CONSTRAINT SimEmit
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    th = ctx.thorough
    num, depth = (80, 150) if not th else (1500, 300)
    res = ctx.par(lambda: ctx.build("rng", ["rng.cpp"]),
                  lambda: ctx.model("RngDesign", DESIGN % ((5, 4) if not th else (7, 6)), "design"),
                  lambda: ctx.simulate("RngGen", GEN, "sim", num, depth))
    scripts = [({"x": 0}, w) for w in res[2]]
    # every evenness test once
    stats = [{"op": "hist", "t": t, "s": s, "n": n} for t in range(1, 9) for s in range(1, 13) for n in (1, 2, 3, 7)]
    stats += [{"op": "uhist", "t": t, "s": s, "n": n} for t in (1, 2) for s in range(1, 13) for n in (2, 16)]
    stats += [{"op": "chist", "t": t, "s": s, "n": n} for t in (1, 2) for s in range(1, 13) for n in (0, 1, 8, 15, 16)]
    stats += [{"op": "phist", "s": s, "n": n} for s in range(1, 13) for n in (2, 3, 4)]
    stats += [{"op": o, "s": s} for o in ("neigh", "distinct", "digest", "digest") for s in range(1, 13)]
    scripts += [({"x": 0}, stats[i:i + 60]) for i in range(0, len(stats), 60)]
    scripts += [({"x": 0}, [{"op": "extreme", "s": s, "n": n}]) for n in (0, 1, 2) for s in ((5,) if not th else (5, 7, 8, 9))]
    ctx.conform(res[0], "RngTrace", TRACE, scripts, "rng")
