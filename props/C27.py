"""C27: time, sleeping, thread identity and placement."""
ASSUMPTIONS = ["real time is the monotonic clock of the operating system; a sleeper is expected back within eight seconds after its time",
               "scheduling priorities are observed for ordinary threads only (raising them needs privileges)"]
DESIGN = """SPECIFICATION Spec
CONSTANTS
 NT = %d
 Dur = {0, 2, 3}
 MaxT = %d
 F = 3
 Wrap = 0
 Repeat = TRUE
INVARIANT NeverEarly Forward
PROPERTY Returns
CHECK_DEADLOCK FALSE
"""
GEN = """INIT Init
NEXT SimNext
CONSTANTS
 NT = %d
 MaxSleep = %d
ACTION_CONSTRAINT SimEmit
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTANT NT = 4
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    th = ctx.thorough
    num, depth = (60, 80) if not th else (600, 150)
    res = ctx.par(lambda: ctx.build("clock", ["clock.cpp"]),
                  lambda: ctx.model("ClockDesign", DESIGN % ((2, 5) if not th else (2, 7)), "design"),
                  lambda: ctx.simulate("ClockGen", GEN % (4, 12), "mix", num, depth),
                  lambda: ctx.simulate("ClockGen", GEN % (1, 4), "one", num // 2, 40))
    scripts = [({"settle": 5 if i % 4 else 30}, w) for i, w in enumerate(res[2] + res[3])]
    for i in range(12):
        # every long request, undisturbed and interrupted
        w = [{"op": "start", "t": 1}, {"op": "start", "t": 2}, {"op": "long", "t": 1, "i": i}, {"op": "long", "t": 2, "i": i},
             {"op": "signal", "t": 2}, {"op": "signal", "t": 2}, {"op": "read", "t": 0}]
        scripts.append(({"settle": 120}, w))
    for ms in (0, 1, 3, 50, 200, 700, 999, 1000, 1001, 1500):
        w = [{"op": "start", "t": t} for t in (1, 2)]
        w += [{"op": "sleep", "t": 1, "ms": ms}, {"op": "sleep", "t": 2, "ms": ms}]
        if ms > 20:
            w += [{"op": "signal", "t": 2}] * 3
        scripts.append(({"settle": 1}, w + [{"op": "join", "t": 2}, {"op": "join", "t": 1}]))
    for n in (0, 1):
        scripts.append(({"settle": 1}, [{"op": "badpin", "n": n}]))
    ctx.conform(res[0], "ClockTrace", TRACE, scripts, "clock")
