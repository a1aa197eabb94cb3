"""Shared machinery: building drivers from /repo's working tree, running TLC, turning TLC's
transitions into scripts, running the scripts on the real code and validating the traces."""
import collections, hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RPP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BUDGET = {False: 420, True: 700}  # seconds after which no further part is started
NPROC = max(2, min(8, os.cpu_count() or 2))
CXX = "clang++-18"
BASE = ["-std=c++20", "-I" + REPO, "-DRPP_RELWITHDEBINFO_BUILD", "-fno-exceptions", "-w", "-g1",
        "-fno-omit-frame-pointer"]


class CheckError(Exception):
    """The check itself failed (build, TLC, harness): exit 2, never a violation."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work")), prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.evid = os.path.join(VERIF, "evidence")
        os.makedirs(self.evid, exist_ok=True)
        self.states = self.transitions = 0
        self.traces = 0
        self.events = 0
        self.models = []
        self.samples = []
        self.extra = collections.OrderedDict()
        self.rng = random.Random(seed * 7919 + 13)
        self.objs = {}
        self.violation = None
        self.thorough = tier == "thorough"

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def sh(self, cmd, what, timeout=600, **kw):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        if r.returncode != 0:
            raise CheckError("%s failed (%d):\n%s" % (what, r.returncode, r.stdout.decode(errors="replace")[-4000:]))
        return r.stdout.decode(errors="replace")

    def build(self, name, srcs, san="address", lib=True, libflags=(), flags=(), ldflags=(), opt="-O0",
              libopt="-O1", tag=None, libsrcs=("rpp/impl/unify.cpp", "rpp/pos/unify.cpp")):
        """Compile driver sources from /verif/drivers and the library from /repo; link."""
        tag = tag or san or "plain"
        sanf = ["-fsanitize=" + san] if san else []
        out = os.path.join(self.work, name)
        jobs = []
        objs = []
        if lib:
            for i, s in enumerate(libsrcs):
                o = os.path.join(self.work, "lib%d.%s.o" % (i, tag))
                if (tag, s) not in self.objs:
                    jobs.append([CXX, *BASE, libopt, *sanf, *libflags, "-c", os.path.join(REPO, s), "-o", o])
                    self.objs[(tag, s)] = o
                objs.append(o)
        for s in srcs:
            o = os.path.join(self.work, name + "." + os.path.basename(s) + ".o")
            jobs.append([CXX, *BASE, opt, *sanf, *flags, "-I" + DRV, "-c", os.path.join(DRV, s), "-o", o])
            objs.append(o)
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda j: self.sh(j, "compiling " + j[-3]), jobs))
        self.sh([CXX, *sanf, *objs, *ldflags, "-lpthread", "-o", out], "linking " + name)
        return out

    WRAP = ("pthread_create pthread_join pthread_detach pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock "
            "pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait "
            "pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast pthread_setaffinity_np sysconf syscall "
            "malloc free calloc realloc aligned_alloc eventfd epoll_create1 epoll_ctl epoll_wait poll read write close "
            "timerfd_create timerfd_settime usleep nanosleep sched_yield clock_gettime").split()

    def build_conc(self, name, srcs, opt="-O1", flags=()):
        """Library and driver instrumented by -fsanitize=thread, linked against the deterministic
        runtime drivers/rt.cpp instead of TSan's."""
        out = os.path.join(self.work, name)
        jobs, objs = [], []
        inst = ["-fsanitize=thread"]
        for i, s in enumerate(("rpp/impl/unify.cpp", "rpp/pos/unify.cpp")):
            o = os.path.join(self.work, "clib%d.o" % i)
            if ("conc", s) not in self.objs:
                jobs.append([CXX, *BASE, "-O1", *inst, "-c", os.path.join(REPO, s), "-o", o])
                self.objs[("conc", s)] = o
            objs.append(o)
        for s in ("rt.cpp", "cc.cpp"):
            o = os.path.join(self.work, s + ".o")
            if ("conc", s) not in self.objs:
                jobs.append([CXX, *BASE, "-O2", "-c", os.path.join(DRV, s), "-o", o])
                self.objs[("conc", s)] = o
            objs.append(o)
        for s in srcs:
            o = os.path.join(self.work, name + "." + os.path.basename(s) + ".o")
            jobs.append([CXX, *BASE, opt, *inst, *flags, "-I" + DRV, "-c", os.path.join(DRV, s), "-o", o])
            objs.append(o)
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda j: self.sh(j, "compiling " + j[-3]), jobs))
        self.sh([CXX, *objs, *["-Wl,--wrap=" + w for w in self.WRAP], "-lpthread", "-o", out], "linking " + name)
        return out

    # ---------------------------------------------------------------- TLC
    def cfg(self, name, text):
        p = os.path.join(self.work, name + ".cfg")
        open(p, "w").write(text)
        return p

    def tlc(self, module, cfg, workers=4, extra=(), env=None, timeout=800, heap="3g", par=True, tag="m", props=()):
        md = os.path.join(self.work, "md_" + tag)
        cmd = ["java", "-Xmx" + heap, "-Xss32m"] + (["-XX:+UseParallelGC"] if par else
               ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"]) + list(props) + \
              ["-cp", JARS, "tlc2.TLC", "-config", cfg, "-workers", str(workers), "-metadir", md,
               "-noGenerateSpecTE", "-nowarning", *extra, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e,
                               cwd=self.work)
        except subprocess.TimeoutExpired as x:
            raise CheckError("TLC timeout on %s" % module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r.returncode, r.stdout.decode(errors="replace")

    def model(self, module, cfg_text, tag, workers=4, timeout=800, heap="6g", edges=False, extra=()):
        """Exhaustive check of a design model. Any error is an error of the check (the model does
        not depend on /repo). Returns the printed transitions when edges is set."""
        t = time.time()
        rc, out = self.tlc(module, self.cfg(tag, cfg_text), workers=workers, timeout=timeout, heap=heap, tag=tag,
                           extra=extra)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if rc != 0 or not m:
            open(os.path.join(self.work, tag + ".out"), "w").write(out)
            tail = "\n".join(l for l in out.splitlines() if "EDGE" not in l)[-4000:]
            raise CheckError("TLC on %s/%s failed (%d):\n%s" % (module, tag, rc, tail))
        gen, dist = int(m.group(1)), int(m.group(2))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "config": tag, "states": dist, "transitions": gen,
                            "wall_s": round(time.time() - t, 1)})
        self.log("model %s/%s: %d states, %d transitions" % (module, tag, dist, gen))
        return parse_edges(out) if edges else out

    def simulate(self, module, cfg_text, tag, num, depth, seed=None, timeout=800):
        """Random behaviours of a design model, as lists of operations."""
        rc, out = self.tlc(module, self.cfg("sim_" + tag, cfg_text), workers=1, timeout=timeout, tag="sim_" + tag, heap="2g",
                           extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed",
                                  str(seed if seed is not None else self.seed * 1000003 + 17)])
        if rc not in (0,):
            tail = "\n".join(l for l in out.splitlines() if "EDGE" not in l)[-4000:]
            raise CheckError("TLC simulation of %s/%s failed (%d):\n%s" % (module, tag, rc, tail))
        walks, init, prev = [], None, None
        n = 0
        for src, op, dst in parse_edges(out):
            if init is None:
                init = src
            if prev is None or (src == init and prev != src):
                walks.append([])
            if op["op"] != "nop":
                walks[-1].append(op)
            prev = dst
            n += 1
        self.states += n
        self.transitions += n
        self.models.append({"module": module, "config": tag, "simulated_behaviours": len(walks),
                            "simulated_steps": n})
        self.log("simulate %s/%s: %d behaviours, %d steps" % (module, tag, len(walks), n))
        return walks

    def par(self, *jobs):
        """Run independent generation jobs concurrently; results in order."""
        with ThreadPoolExecutor(NPROC) as ex:
            return [f.result() for f in [ex.submit(j) for j in jobs]]

    # ---------------------------------------------------------------- scripts
    def covering(self, edges, maxlen=60, limit=None):
        """Walks from the initial state that together take every transition."""
        out = collections.OrderedDict()
        init = edges[0][0]
        seen = set()
        for s, op, d in edges:
            k = (s, json.dumps(op, sort_keys=True), d)
            if k in seen:
                continue
            seen.add(k)
            out.setdefault(s, []).append([op, d])
        rng = self.rng
        todo = {s: list(range(len(v))) for s, v in out.items()}
        succ = {}
        for x, v in out.items():
            m = {}
            for j, (op, d) in enumerate(v):
                if d != x:
                    m.setdefault(d, j)
            succ[x] = list(m.items())
        for v in todo.values():
            rng.shuffle(v)
        left = sum(len(v) for v in todo.values())
        total = left
        walks = []
        cur, walk = init, []
        # shortest paths from the initial state, for restarts
        while left:
            if limit and sum(len(w) for w in walks) > limit:
                break
            if todo.get(cur):
                i = todo[cur].pop()
                left -= 1
                op, d = out[cur][i]
                walk.append(op)
                cur = d
            else:
                # BFS to the nearest state with an uncovered transition
                path = None
                q = collections.deque([cur])
                par = {cur: None}
                found = None
                while q:
                    x = q.popleft()
                    if todo.get(x):
                        found = x
                        break
                    for d, j in succ.get(x, ()):
                        if d not in par:
                            par[d] = (x, j)
                            q.append(d)
                if found is None:
                    if not walk:
                        raise CheckError("uncovered transitions unreachable")
                    walks.append(walk)
                    cur, walk = init, []
                    continue
                path = []
                x = found
                while par[x] is not None:
                    px, j = par[x]
                    path.append((out[px][j][0], x))
                    x = px
                for op, d in reversed(path):
                    walk.append(op)
                    cur = d
                continue
            if len(walk) >= maxlen:
                walks.append(walk)
                cur, walk = init, []
        if walk:
            walks.append(walk)
        return walks, total

    def misuse(self, edges, limit):
        """Scripts that end with an operation that must be refused (edges marked bad), each reached
        by a shortest path; every operation kind is represented before the rest is sampled."""
        good = [e for e in edges if "bad" not in e[1]]
        bad, seen = [], set()
        for s, op, d in edges:
            if "bad" in op:
                k = (s, json.dumps(op, sort_keys=True))
                if k not in seen:
                    seen.add(k)
                    bad.append((s, {a: b for a, b in op.items() if a != "bad"}))
        succ = {}
        for s, op, d in good:
            succ.setdefault(s, []).append((op, d))
        init = edges[0][0]
        par, q = {init: None}, collections.deque([init])
        while q:
            x = q.popleft()
            for op, d in succ.get(x, ()):
                if d not in par:
                    par[d] = (x, op)
                    q.append(d)
        self.rng.shuffle(bad)
        count = collections.Counter()
        bad.sort(key=lambda b: (count.update([b[1]["op"]]), count[b[1]["op"]])[1])
        out = []
        for s, op in bad[:limit]:
            w = [op]
            while par.get(s) is not None:
                s, o = par[s]
                w.append(o)
            if s == init:
                out.append(w[::-1])
        self.extra["misuse_transitions_in_models"] = self.extra.get("misuse_transitions_in_models", 0) + len(bad)
        self.extra["misuse_transitions_executed"] = self.extra.get("misuse_transitions_executed", 0) + len(out)
        return out

    # ---------------------------------------------------------------- execution
    def script_text(self, scripts):
        """scripts: list of (reset_args, ops)"""
        b = []
        for reset, ops in scripts:
            b.append("reset " + " ".join("%s=%d" % kv for kv in reset.items()))
            for o in ops:
                b.append(op_line(o))
            b.append("end")
        return "\n".join(b) + "\n"

    def run_driver(self, exe, script_path, trace_path, timeout=600, env=None):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_segv=0:handle_sigtrap=0:allocator_may_return_null=1:detect_stack_use_after_return=1"
        e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
        e.update(env or {})
        d = trace_path + ".d"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        log = open(trace_path + ".log", "wb")
        try:
            r = subprocess.run([exe, script_path, trace_path], stdout=log, stderr=subprocess.STDOUT, timeout=timeout,
                               env=e, cwd=d)
        except subprocess.TimeoutExpired:
            raise CheckError("driver timeout: %s %s" % (exe, script_path))
        finally:
            log.close()
        if r.returncode != 0:
            raise CheckError("driver failed (%d): %s %s\n%s" % (r.returncode, exe, script_path,
                             open(trace_path + ".log", errors="replace").read()[-2000:]))
        shutil.rmtree(d, ignore_errors=True)

    def validate(self, module, cfg, trace, tag, timeout=800):
        """Returns (furthest accepted line, number of lines)."""
        rc, out = self.tlc(module, cfg, workers=1, par=False, env={"TRACE": trace}, timeout=timeout, tag=tag, heap="3g")
        m = re.search(r'<<"FURTHEST", (\d+), (\d+)>>', out)
        if not m:
            open(os.path.join(self.work, tag + ".out"), "w").write(out)
            return None, None, out
        a, b = int(m.group(1)), int(m.group(2))
        if a == b and rc != 0:
            return None, None, out
        g = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if g:
            self.states += int(g.group(2))
            self.transitions += int(g.group(1))
        return a, b, out

    def conform(self, exe, module, cfg_text, scripts, tag, chunks=NPROC, env=None, describe=None, timeout=600):
        """Run the scripts on the real code and validate every recorded trace against the
        specification. On rejection the script is re-run alone; only a repeated rejection counts."""
        if not scripts:
            return
        cfg = self.cfg("trace_" + tag, cfg_text)
        order = list(scripts)
        self.rng.shuffle(order)
        chunks = min(chunks, len(order))
        # a recorded trace is held in memory while it is validated: bound the size of a part
        weight = sum(sum(int(r.get(k, 0)) for k in ("dfs", "rnd")) * 12 + len(o) for r, o in order)
        chunks = min(len(order), chunks * max(1, -(-weight // (chunks * 150000))))
        parts = [order[i::chunks] for i in range(chunks)]
        files = []
        for i, p in enumerate(parts):
            f = os.path.join(self.work, "%s_%d.txt" % (tag, i))
            open(f, "w").write(self.script_text(p))
            files.append(f)
        t = time.time()

        def one(i):
            if rejected:
                return
            if i >= NPROC and time.time() - self.t0 > BUDGET[self.thorough]:
                skipped.append(len(parts[i]))
                return
            tr = files[i][:-4] + ".ndjson"
            self.run_driver(exe, files[i], tr, timeout=timeout, env={**(env or {}), "VERIF_CPU": str(i % NPROC)})
            m = re.search(r"EXECUTIONS (\d+) HISTORIES (\d+)", open(tr + ".log", errors="replace").read()[-200:])
            if m:
                counts.append((int(m.group(1)), int(m.group(2))))
            a, b, out = self.validate(module, cfg, tr, "%s_%d" % (tag, i))
            bad = None
            lines = open(tr).read().split("\n")
            starts = [k for k, x in enumerate(lines) if x.startswith('{"op":"reset"')]
            self.traces += len(starts)
            nev.append(len(lines) - 1)
            if i == 0 and len(self.samples) < 6 and starts:
                e = starts[1] if len(starts) > 1 else len(lines)
                self.samples.append({"spec": module, "trace": [json.loads(x) for x in lines[:min(e, 6)] if x]})
            if a is None:
                bad = (i, None, out, False)  # the specification could not evaluate an event
            elif a < b:
                k = max(j for j, x in enumerate(starts) if x <= a)
                conc = re.search(r'"si":(\d+)', lines[starts[k]])
                bad = (i, int(conc.group(1)) if conc else k, "line %d: %s" % (a + 1, lines[a]), bool(conc))
            if bad:
                rejected.append(bad)
            os.unlink(tr)

        counts, rejected, nev, skipped = [], [], [], []
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, range(chunks)))
        if counts:
            a, b = sum(x[0] for x in counts), sum(x[1] for x in counts)
            self.extra["schedules_executed"] = self.extra.get("schedules_executed", 0) + a
            self.extra["distinct_histories"] = self.extra.get("distinct_histories", 0) + b
            self.log("schedules executed: %d, distinct histories: %d" % (a, b))
        if skipped:
            self.log("time budget used: %d scripts of %d not run" % (sum(skipped), len(order)))
            self.extra["scripts_not_run_for_time"] = self.extra.get("scripts_not_run_for_time", 0) + sum(skipped)
        self.events += sum(nev)
        self.log("conform %s/%s: %d scripts, %d events%s (%.1fs)" % (module, tag, len(order), sum(nev),
                 ", %d parts rejected" % len(rejected) if rejected else "", time.time() - t))
        for i, k, why, conc in rejected:
            if k is None:
                raise CheckError("TLC could not evaluate %s on %s\n%s" % (module, files[i], why[-3000:]))
            self.confirm(exe, module, cfg, parts[i][k], tag, env, why, [] if conc else parts[i][:k + 1])
            if self.violation:
                return

    def confirm(self, exe, module, cfg, script, tag, env, why, prefix):
        f = os.path.join(self.work, "confirm.txt")
        for attempt, sc in enumerate(([script], prefix) if prefix else ([script],)):
            open(f, "w").write(self.script_text(sc))
            tr = os.path.join(self.work, "confirm.ndjson")
            self.run_driver(exe, f, tr, env=env)
            a, b, out = self.validate(module, cfg, tr, "confirm")
            if a is None:
                raise CheckError("TLC could not evaluate %s on %s\n%s" % (module, f, out[-3000:]))
            if a < b:
                lines = open(tr).read().split("\n")
                rp = os.path.join(self.evid, "replay-%s.json" % self.prop)
                json.dump({"property": self.prop, "spec": module, "script": self.script_text(sc),
                           "cfg": open(cfg).read(), "first_rejected_event": json.loads(lines[a]),
                           "accepted_events": [json.loads(x) for x in lines[max(0, a - 40):a]],
                           "env": env or {}, "seed": self.seed,
                           "log": open(tr + ".log", errors="replace").read()[-3000:]},
                          open(rp, "w"), indent=1)
                self.violation = (rp, lines[a])
                self.log("REJECTED by %s: after %s" % (module, lines[a - 1][:600] if a else "-"))
                self.log("   event: %s" % lines[a][:1500])
                return
        self.log("warning: rejection did not repeat: %s" % why[:500])

    # ---------------------------------------------------------------- result
    def finish(self, level="model_checking", level_note=None, assumptions=()):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "models": self.models, "samples": self.samples or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1),
              "violations": 1 if self.violation else 0}
        json.dump(ev, open(os.path.join(self.evid, self.prop + ".json"), "w"), indent=1)
        for line in known_findings(self.prop):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, line))
        if self.violation:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violation[0]), flush=True)
            return 1
        self.log("property %s held on everything explored" % self.prop)
        return 0


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                r.append(m.group(2).strip())
    return r


def op_line(o):
    return o["op"] + "".join(" %s=%d" % (k, v) for k, v in o.items() if k != "op" and not k.startswith("_"))


EDGE = re.compile(r'^"EDGE (.*?) # (\{.*?\}) # (.*)"$')


def parse_edges(out):
    r = []
    for l in out.splitlines():
        if l.startswith('"EDGE '):
            m = EDGE.match(l)
            if not m:
                raise CheckError("cannot parse " + l[:300])
            op = json.loads(m.group(2).replace('\\"', '"'))
            op = {"op": op["op"], **{k: (int(v) if not isinstance(v, (list, str)) else v) for k, v in sorted(op.items()) if k != "op"}}
            r.append((m.group(1), op, m.group(3)))
    return r
