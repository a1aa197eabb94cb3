"""C06: Box, Opt, Variant, Function, Pair, Tuple."""
ASSUMPTIONS = ["element types are represented by four categories: trivial, clone-only, copy-only, trivially movable clone-only",
               "memory errors are observed by AddressSanitizer; object lifetime by token-carrying element types"]
CFG = """SPECIFICATION Spec
CONSTANTS
 TY = %d
 NC = %d
 MaxLen = %d
 Ks = %s
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Refines ExactlyOnce
PROPERTY RefinesAlways
CHECK_DEADLOCK FALSE
"""
SIM = CFG.replace("SPECIFICATION Spec", "INIT Init\nNEXT SimNext").replace("PROPERTY RefinesAlways\n", "")
TRACE = """SPECIFICATION Spec
CONSTANT NS = 3
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""
NAMES = {1: "box", 2: "opt", 3: "var", 4: "var10", 5: "vart", 6: "fn", 7: "pair", 8: "tuple", 9: "var8", 10: "var9", 11: "varn"}
KS = {1: "{0,1}", 2: "{0}", 3: "{0,1,2,3}", 4: "{0,1,2,3,4,5,6,7,8,9}", 5: "{0,1,2}", 6: "{0,1,2,3}", 7: "{0}", 8: "{0}", 9: "{0,1,6,7}", 10: "{0,1,2,3,4,5,6,7,8}", 11: "{0,1,2,3}"}
KINDS = {1: range(4), 2: range(4), 7: range(4), 8: range(3)}


def resets(ty, i, full):
    ks = KINDS.get(ty)
    if ks is None:
        return [{"ty": ty, "kind": 0, "how": i % 7, "counted": 0 if ty == 5 else 1}]
    sel = list(ks) if full else [i % 4]
    return [{"ty": ty, "kind": k, "how": (i + k) % 7, "counted": 1 if (k in (1, 2) and ty != 8) or (k == 1 and ty == 8) or (k == 3 and ty == 7) or (k == 0 and ty == 8) else 0}
            for k in sel]


def run(ctx):
    jobs = []
    for ty in NAMES:
        nc, ml = (2, 3) if ty not in (3, 4, 6, 9, 10, 11) else (2, 2)
        if ctx.thorough:
            nc, ml = {1: (3, 3), 2: (3, 3), 3: (2, 3), 4: (2, 1), 9: (2, 1), 10: (2, 1), 11: (2, 1), 6: (2, 3)}.get(ty, (3, 3))
        jobs.append((ty, "ex", lambda ty=ty, nc=nc, ml=ml: ctx.model("OwnDesign", CFG % (ty, nc, ml, KS[ty]), "ex_" + NAMES[ty],
                                                                  edges=True, workers=2)))
    ns, depth = (12, 80) if not ctx.thorough else (200, 200)
    for ty in NAMES:
        jobs.append((ty, "sim", lambda ty=ty: ctx.simulate("OwnDesign", SIM % (ty, 3, 4, KS[ty]), "sim_" + NAMES[ty], ns, depth)))
    res = ctx.par(lambda: ctx.build("own", ["own.cpp"]), *[j[2] for j in jobs])
    scripts = []
    for (ty, what, _), r in zip(jobs, res[1:]):
        if what == "ex":
            r, _t = ctx.covering(r)
        for i, w in enumerate(r):
            for rs in resets(ty, i, what == "ex"):
                scripts.append((rs, w))
    ctx.conform(res[0], "OwnTrace", TRACE, scripts, "own")
