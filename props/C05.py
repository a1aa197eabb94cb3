"""C05: String and String_View."""
ASSUMPTIONS = ["memory errors are observed by AddressSanitizer (views are given exactly sized buffers)"]
CFG = """SPECIFICATION Spec
CONSTANTS
 NC = %d
 MaxLen = %d
 Codes = %s
 Lens = %s
 Full = %s
 Fresh = %s
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Algorithms
CHECK_DEADLOCK FALSE
"""
SIM = CFG.replace("SPECIFICATION Spec", "INIT Init\nNEXT SimNext").replace("INVARIANT Algorithms\n", "")
TRACE = """SPECIFICATION Spec
CONSTANT NS = 3
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""


def codes(syms, n):
    r = {0}
    out = set()
    for _ in range(n):
        r = {c * 16 + s for c in r for s in syms}
        out |= r
    return out


def cset(xs):
    return "{" + ",".join(str(x) for x in sorted(xs)) + "}"


def run(ctx):
    # byte symbols: 0 NUL, 2 'a', 4 '/', 5 '.', 6 '\\', 12 128, 13 255
    th = ctx.thorough
    sets = [("pair", 2, 2, cset(codes([0, 2, 13], 2)), "{0,1,2}", "FALSE", "FALSE"),
            ("path", 1, 4, cset(codes([2, 4, 5, 6], 4)), "{0,1,2,3,4}", "FALSE", "TRUE")]
    if th:
        sets += [("pair3", 2, 3, cset(codes([0, 12], 3)), "{0,1,2,3}", "FALSE", "TRUE"),
                 ("path6", 1, 5, cset(codes([2, 4, 5, 6], 5)), "{0,1,2,3,4,5}", "FALSE", "TRUE"),
                 ("three", 3, 1, cset(codes([0, 2, 13], 1)), "{0,1}", "FALSE", "TRUE")]
    rng = ctx.rng
    big = set()
    for _ in range(60):
        c = 0
        for _ in range(6):
            c = c * 16 + rng.randrange(16)
        big.add(c)
        big.add(c % (16 ** rng.randrange(1, 7)))
    near = set()
    base = [rng.randrange(16) for _ in range(6)]
    for i in range(6):
        for v in range(16):
            b = list(base)
            b[i] = v
            near.add(sum(x * 16 ** j for j, x in enumerate(b)))
    ns, depth = (40, 150) if not th else (800, 250)
    res = ctx.par(lambda: ctx.build("str", ["str.cpp"]),
                  lambda: ctx.simulate("StrDesign", SIM % (3, 400, cset(big), "{0,1,3,5,6}", "TRUE", "FALSE"), "sim", ns, depth),
                  lambda: ctx.simulate("StrDesign", SIM % (3, 12, cset(near), "{4,5,6}", "FALSE", "FALSE"), "simn", ns, depth),
                  *[lambda s=s: ctx.model("StrDesign", CFG % s[1:], s[0], edges=True) for s in sets])
    scripts = [({"x": 0}, w) for w in res[1] + res[2]]
    for s, edges in zip(sets, res[3:]):
        w, total = ctx.covering(edges)
        scripts += [({"x": 0}, x) for x in w]
    ctx.conform(res[0], "StrTrace", TRACE, scripts, "str")
