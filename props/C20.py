"""C20: files."""
ASSUMPTIONS = ["faults are injected by intercepting the library's calls of open, read, write, lseek, close, stat and their variants",
               "a failing close of a written file loses what was not yet stored; transfers of zero bytes before the end do not occur"]
DESIGN = """SPECIFICATION Spec
CONSTANTS
 MaxLen = %d
 MaxFaults = %d
 Strict = TRUE
INVARIANT Reported
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""
GEN = """%s
CONSTANTS
 Mode = "%s"
 Sizes = %s
 Calls = %s
 Kinds = %s
%s
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""
WRAP = ["open", "open64", "openat", "read", "pread", "write", "pwrite", "lseek", "close", "stat", "fstat", "lstat"]


def run(ctx):
    th = ctx.thorough
    view = "VIEW View\nACTION_CONSTRAINT Emit"
    sizes, calls, kinds = ("{0,3}", "{1,2,3,4,5}", "{1,2,3,11,12}") if not th else ("{0,1,3,5000}", "{1,2,3,4,5,6,7}", "{1,2,3,4,5,8,9,10,11,12}")
    num, depth = (60, 120) if not th else (1500, 200)
    res = ctx.par(lambda: ctx.build("file", ["file.cpp"], ldflags=["-Wl,--wrap=" + w for w in WRAP]),
                  lambda: ctx.model("FileDesign", DESIGN % ((3, 2) if not th else (5, 3)), "design"),
                  lambda: ctx.model("FileGen", GEN % ("SPECIFICATION Spec", "io", sizes, calls, kinds, view), "io", edges=True),
                  lambda: ctx.model("FileGen", GEN % ("SPECIFICATION Spec", "watch", sizes, calls, kinds, view), "watch", edges=True),
                  lambda: ctx.simulate("FileGen", GEN % ("INIT Init\nNEXT SimNext", "io", sizes, calls, kinds, "ACTION_CONSTRAINT SimEmit"), "sim", num, depth))
    scripts = [({"x": 0}, w) for w in res[4]]
    for edges in res[2:4]:
        w, total = ctx.covering(edges)
        scripts += [({"x": 0}, x) for x in w]
    ctx.conform(res[0], "FileTrace", TRACE, scripts, "file")
