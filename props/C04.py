"""C04: Map."""
ASSUMPTIONS = ["key/value types are represented by combinations of trivial, clone-only, copy-only, trivially movable types, strings, and integer, character, pointer, floating point, vector and source-location keys with the library's own hashes",
               "memory errors are observed by AddressSanitizer; element lifetime by token-carrying element types"]
CFG = """SPECIFICATION Spec
CONSTANTS
 NC = %d
 NK = %d
 H <- %s
 MaxCap = %d
 Sizes = %s
 Light = %s
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY RefinesAlways
INVARIANTS Refines Answers Room
CHECK_DEADLOCK FALSE
"""
SIM = CFG.replace("SPECIFICATION Spec", "INIT Init\nNEXT SimNext").replace("PROPERTY RefinesAlways\n", "")
TRACE = """SPECIFICATION Spec
CONSTANT NS = 3
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""
# hash assignments (top five bits): full collision at both ends, wrap-around clusters, spread
HASH = {"HEnd": [31] * 40, "HZero": [0] * 40,
        "HWrap": [31, 31, 30, 0, 0, 1, 28, 29] * 5,
        "HMix": [28, 31, 24, 31, 4, 0, 27, 28] * 5,
        "HSpread": [(i * 7 + 3) % 32 for i in range(40)],
        "HTwo": [15, 16, 15, 31, 16, 0, 15, 31] * 5}


def run(ctx):
    #        tag    NC NK table   cap sizes light
    sets = [("end", 1, 4, "HEnd", 8, "{1,2,4,8}", "FALSE"),
            ("wrap", 1, 4, "HWrap", 8, "{3,4,5,8}", "FALSE"),
            ("wrap6", 1, 6, "HWrap", 8, "{8}", "TRUE"),
            ("mix6", 1, 6, "HMix", 8, "{8}", "TRUE"),
            ("two", 2, 2, "HTwo", 4, "{2,4}", "FALSE")]
    if ctx.thorough:
        sets += [("end6", 1, 6, "HEnd", 8, "{8}", "TRUE"), ("two6", 1, 6, "HTwo", 16, "{4,8,16}", "TRUE"),
                 ("wrap5", 1, 5, "HWrap", 16, "{1,2,3,4,8,16}", "FALSE")]
    sims = [("sim%s" % t, t, 12) for t in ("HEnd", "HZero", "HWrap", "HMix", "HTwo")] + [("simHSpread", "HSpread", 40)]
    nsim, depth = (30, 150) if not ctx.thorough else (400, 300)
    res = ctx.par(lambda: ctx.build("map", ["map.cpp"]),
                  *[lambda s=s: ctx.simulate("MapHashes", SIM % (2, s[2], s[1], 64, "{1,2,3,4,5,8,13,16,31,40}", "FALSE"), s[0], nsim, depth)
                    for s in sims],
                  *[lambda s=s: ctx.model("MapHashes", CFG % s[1:], s[0], edges=True) for s in sets])
    exe, scripts = res[0], []

    def reset(kind, table, lo):
        r = {"kind": kind, "lo": lo}
        r.update({"h%d" % (i + 1): h for i, h in enumerate(HASH[table])})
        return r

    for s, edges in zip(sets, res[1 + len(sims):]):
        walks, total = ctx.covering(edges)
        for i, w in enumerate(walks):
            for k in (range(6) if ctx.thorough else [i % 6, (i * 5 + 2) % 6]):
                scripts.append((reset(k, s[3], (i + k) % 2), w))
    for s, walks in zip(sims, res[1:1 + len(sims)]):
        for i, w in enumerate(walks):
            scripts.append((reset(i % 8, s[1], i % 3), w))
            scripts.append((reset((i + 3) % 8, s[1], (i + 1) % 3), w))
            # keys with the library's own hashes
            scripts.append((reset(8 + i % 8, s[1], 0), w))
    ctx.conform(exe, "MapTrace", TRACE, scripts, "map")
