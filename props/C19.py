"""C19: formatting and parsing."""
import subprocess
ASSUMPTIONS = ["memory errors are observed by AddressSanitizer (format strings, inputs and results are exactly sized buffers)",
               "what a value holds is read through its public interface; enumerators have distinct values",
               "texts of floating-point numbers are decided for multiples of 1/64, powers of two, infinities and NaN"]
DESIGN = """SPECIFICATION Spec
CONSTANTS
 VT = "v"
 MaxFmt = %d
 Chars = {"%%","a"}
 Texts = {"", "x", "%%%%"}
 MaxArgs = %d
 PChars = {" ","\\t","-","+","0","7","a"}
 MaxIn = %d
INVARIANT Bounded
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""
GEN = """%s
CONSTANTS
 VT = "v"
 FSyms = {0,1}
 FLen = %d
 ASyms = {0,1}
 ALen = 2
 PSyms = %s
 PLen = %d
 WSyms = %s
 WLen = %d
 Types = %s
 Seeds = %s
 Mode = 0
 Names = %d
%s
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTANT VT <- Vt
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""


def cset(xs):
    return "{" + ",".join(str(x) for x in sorted(xs)) + "}"


def run(ctx):
    th = ctx.thorough
    exe = ctx.build("format", ["format.cpp"])
    nt, nn = map(int, subprocess.check_output([exe, "--sizes"]).split())
    base = ctx.rng.randrange(100000)
    seeds = list(range(24 if th else 8)) + [base + i for i in range(200 if th else 12)]
    # symbols: 0 ' ' 1 tab 2 nl 3 cr 4 vt 5 ff 6 + 7 - 8 '0' 9 '7' 10 a 11 . 12 b 13 NUL 14 255 15 '5'
    psyms, plen, wsyms, wlen = (cset([0, 5, 6, 7, 8, 9, 10, 11]), 4, cset([0, 4, 5, 10, 12, 13]), 5) if th else (cset([0, 5, 6, 7, 8, 9, 11]), 3, cset([0, 4, 5, 10, 12]), 4)
    args = (5 if not th else 7, psyms, plen, wsyms, wlen, cset(range(nt)), cset(seeds), nn)
    gen = GEN % (("SPECIFICATION Spec",) + args + ("VIEW View\nACTION_CONSTRAINT Emit",))
    sim = GEN % (("INIT Init\nNEXT SimNext",) + args + ("ACTION_CONSTRAINT SimEmit",))
    num, depth = (30, 200) if not th else (400, 400)
    res = ctx.par(lambda: ctx.model("FormatDesign", DESIGN % ((4, 3, 4) if not th else (6, 3, 6)), "design", edges=False),
                  lambda: ctx.model("FormatGen", gen, "gen", edges=True),
                  lambda: ctx.simulate("FormatGen", sim, "sim", num, depth))
    edges = res[1]
    walks, total = ctx.covering([e for e in edges if "bad" not in e[1]])
    bad = ctx.misuse(edges, 2000 if th else 220)
    ctx.conform(exe, "FormatTrace", TRACE, [({"x": 0}, w) for w in walks + bad + res[2]], "format")
