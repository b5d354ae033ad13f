"""Shared machinery: build drivers against /repo's working tree, run TLC, validate traces, write evidence.

Verdict protocol (see DESIGN.md):
  * a driver executes histories (scripts) against the real code and writes one JSON event per step;
  * TLC decides whether each recorded history is a behaviour of the property's TLA+ specification;
  * a rejected history is run and judged a second time; only a repeated rejection is a violation.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, hashlib, atexit, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MM2_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CXX = "/usr/bin/clang++-18"
NCPU = 8
DEFS = ("-DBOOST_ALLOW_DEPRECATED_HEADERS -DBOOST_CHRONO_NO_LIB -DBOOST_GEOMETRY_INDEX_DETAIL_EXPERIMENTAL "
        "-DBOOST_THREAD_VERSION=5 -DHAS_STRING_VIEW=1 -DONLY_C_LOCALE=1 -D_USE_MATH_DEFINES").split()


def _find_tlc_cp():
    """TLC's class path including CommunityModules, as the tlc wrapper uses it."""
    try:
        t = open(shutil.which("tlc")).read()
        m = re.search(r"-cp\s+\"?([^\s\"]+)", t) or re.search(r"-classpath\s+\"?([^\s\"]+)", t)
        if m:
            return m.group(1)
    except Exception:
        pass
    d = os.path.dirname(JAR)
    return ":".join([JAR] + [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar") and f != "tla2tools.jar"])


class CheckError(Exception):
    pass


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        for a in sys.argv[1:]:
            if a in ("quick", "thorough"):
                self.tier = a
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.level = level
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.tmp = tempfile.mkdtemp(prefix=f"mm2v-{pid}-")
        atexit.register(self.cleanup)
        self.cp = _find_tlc_cp()
        self.log_t = time.time()

    def cleanup(self):
        if os.environ.get("MM2_KEEP"):
            return
        if self.tmp and self.tmp.startswith(tempfile.gettempdir() + "/mm2v-"):
            shutil.rmtree(self.tmp, ignore_errors=True)

    def say(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ---------------------------------------------------------------- build
    def _generated(self):
        """configure_file outputs of the build (version.cpp) that library sources need."""
        return None

    def cxx_flags(self, opt="-O0", extra=()):
        return [CXX, "-std=c++20", opt, "-w", *DEFS, *extra,
                f"-I{VERIF}/drivers", f"-I{VERIF}/stubs", f"-I{REPO}/src/library/include"]

    def build(self, name, sources, repo_sources=(), opt="-O0", extra=(), libs=("-lboost_serialization", "-lpthread"),
              variants=()):
        """compile /verif/drivers/<sources> and /repo/src/library/src/<repo_sources>; returns binary path."""
        objs, jobs = [], []
        for s in sources:
            src = s if os.path.isabs(s) else os.path.join(VERIF, "drivers", s)
            jobs.append(src)
        for s in repo_sources:
            src = os.path.join(REPO, "src/library/src", s)
            if s == "util/version.cpp":          # configured by cmake in the real build
                t = re.sub(r"@[A-Za-z_]+@", "1", open(src + ".in").read())
                src = os.path.join(self.tmp, "version.cpp")
                open(src, "w").write(t)
            jobs.append(src)
        od = os.path.join(self.tmp, "obj-" + name)
        os.makedirs(od, exist_ok=True)

        def comp(i_src):
            i, src = i_src
            o = os.path.join(od, f"{i}.o")
            r = subprocess.run(self.cxx_flags(opt, extra) + ["-c", src, "-o", o], capture_output=True, text=True)
            if r.returncode != 0:
                raise CheckError(f"cannot compile {src}:\n{r.stderr[:4000]}")
            return o
        with ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(comp, enumerate(jobs)))
        out = os.path.join(self.tmp, name)
        link = [CXX, *[e for e in extra if e.startswith("-fsanitize")], *objs, "-o", out, *libs]
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError(f"cannot link {name}:\n{r.stderr[:4000]}")
        for v in variants:      # the same program as another build would have made it: <name>-version, <name>-compiler
            k = next(i for i, s in enumerate(jobs) if os.path.basename(s) == v + ".cpp")
            src, o = jobs[k], os.path.join(od, v + ".o")
            more = ["-U__clang_minor__", "-D__clang_minor__=97"] if v == "compiler" else []
            if v == "version":
                t = re.sub(r"@[A-Za-z_]+@", "12", open(os.path.join(REPO, "src/library/src/util/version.cpp.in")).read())
                src = os.path.join(self.tmp, "version12.cpp")
                open(src, "w").write(t)
            for cmd in (self.cxx_flags(opt, list(extra) + more) + ["-c", src, "-o", o],
                        [CXX, *[e for e in extra if e.startswith("-fsanitize")], *objs[:k], o, *objs[k + 1:], "-o", out + "-" + v, *libs]):
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode != 0:
                    raise CheckError(f"cannot build variant {v}:\n{r.stderr[:4000]}")
        return out

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, args=(), heap="2g"):
        """run TLC on /verif/spec/<module>.tla with <cfg>; returns (rc, output)."""
        md = tempfile.mkdtemp(dir=self.tmp, prefix="tlc-")
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        spec = os.path.join(VERIF, "spec")
        cmd = ["java", "-Dfile.encoding=UTF-8", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Xmx{heap}", "-Xss64m", "-cp", self.cp,
               f"-DTLA-Library={spec}", "tlc2.TLC", "-metadir", md, "-workers", str(workers), "-noGenerateSpecTE",
               "-config", cfg if os.path.isabs(cfg) else os.path.join(spec, cfg), *args,
               module if os.path.isabs(module) else os.path.join(spec, module)]
        if workers == 1 and "-simulate" not in args:
            cmd[1:1] = ["-XX:TieredStopAtLevel=4"]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=spec)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timeout on {module}/{cfg}")
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    @staticmethod
    def tlc_counts(out):
        """-> (states generated, distinct, depth)"""
        m = re.findall(r"(\d[\d,]*) states generated(?:[^\n]*?), (\d[\d,]*) distinct", out)
        g, d = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        return g, d, int(m.group(1)) if m else 0

    def model_check(self, module, cfg, workers=NCPU, timeout=600, env=None, args=(), heap="6g", require_actions=()):
        """exhaustive check of the specification itself; any error here is an error of the check."""
        a = list(args)
        if require_actions:
            a += ["-coverage", "1"]
        rc, out = self.tlc(module, cfg, env=env, workers=workers, timeout=timeout, args=a, heap=heap)
        g, d, depth = self.tlc_counts(out)
        if rc != 0:
            raise CheckError(f"model checking {module}/{cfg} failed:\n{out[-3000:]}")
        for act in require_actions:
            m = re.findall(r"<" + act + r" line[^>]*>: (\d+):(\d+)", out)
            if not m or max(int(x[1]) for x in m) == 0:
                raise CheckError(f"action {act} is never taken in {module}/{cfg}: vacuous model")
        self.cov["states"] += d
        self.cov["transitions"] += g
        self.say(f"model {module}/{cfg}: {g} transitions, {d} distinct states, depth {depth}")
        return out

    def model_breaks(self, module, cfg, what, workers=NCPU, timeout=600, args=()):
        """the specification with a known mistake in it: the model checker has to find that it breaks a promise."""
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, args=list(args))
        if rc == 0 or not re.search(r"Invariant \S+ is violated|Temporal properties were violated|property \S+ is violated", out):
            raise CheckError(f"{module}/{cfg}: {what} was not found to break anything:\n{out[-2000:]}")
        self.say(f"model {module}/{cfg}: {what} breaks it, as it must")

    def emitted(self, out, tag="@@"):
        """JSON values printed by PrintT(<<tag, ToJson(x)>>) or PrintT(tag \\o ToJson(x))."""
        res = []
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"' + tag):
                s = json.loads(line) if line.endswith('"') else None
                if s is not None:
                    res.append(json.loads(s[len(tag):]))
        return res

    # --------------------------------------------------------------- driver
    def run_driver(self, binary, scripts, timeout=120, shards=NCPU, args=()):
        """scripts: list of text blocks (each one history, ending in newline). Runs them sharded.
        returns list (per script) of (events, status) where status is 'ok' | 'crash:<why>' | 'timeout'."""
        n = len(scripts)
        res = [None] * n
        idx = [list(range(k, n, shards)) for k in range(shards)]
        died, stuck = [], []                # over all shards

        def one(k):
            todo = idx[k]
            guard = 0
            while todo:
                guard += 1
                f = os.path.join(self.tmp, f"drv-{os.path.basename(binary)}-{k}-{guard}.in")
                with open(f, "w") as h:
                    for i in todo:
                        h.write(f"history {i}\n")
                        h.write(scripts[i])
                    h.write("end\n")
                wd = os.path.join(self.tmp, f"wd-{os.path.basename(binary)}-{k}")
                os.makedirs(wd, exist_ok=True)
                try:
                    of = open(f + ".out", "w")
                    r = subprocess.run([binary, f, *args], stdout=of, stderr=subprocess.PIPE, text=True,
                                       timeout=timeout, cwd=wd)
                    rc, err = r.returncode, r.stderr
                except subprocess.TimeoutExpired:
                    rc, err = "timeout", ""
                finally:
                    of.close()
                cur = None
                for line in open(f + ".out"):
                    line = line.strip()
                    if not line:
                        continue
                    try:
                        ev = json.loads(line)
                    except json.JSONDecodeError:
                        continue   # torn last line of a crashed driver
                    if "history" in ev:
                        cur = ev["history"]
                        res[cur] = ([], "ok")
                    elif cur is not None:
                        res[cur][0].append(ev)
                os.unlink(f + ".out")
                os.unlink(f)
                if rc == 0:
                    break
                if cur is None:
                    raise CheckError(f"driver failed before the first history: rc={rc} {err[-2000:]}")
                why = "timeout" if rc == "timeout" else f"crash:rc={rc} {err.strip()[-300:]}"
                res[cur] = (res[cur][0], why)
                todo = todo[todo.index(cur) + 1:]
                died.append(cur)
                if rc in ("timeout", -14):
                    stuck.append(cur)
                if len(died) > 40 or len(stuck) > 8:
                    break   # enough evidence; remaining histories stay unrun
            return None
        with ThreadPoolExecutor(shards) as ex:
            list(ex.map(one, range(shards)))
        return res

    # ----------------------------------------------------------- validation
    def _validate_once(self, module, cfg, histories, env=None, timeout=800):
        """histories: list of event lists. returns index of the first rejected history and event, or None."""
        f = tempfile.NamedTemporaryFile("w", dir=self.tmp, suffix=".ndjson", delete=False)
        n, starts = 0, []
        for h in histories:
            starts.append(n)
            for ev in h:
                f.write(json.dumps(ev) + "\n")
                n += 1
        f.close()
        if n == 0:
            return None, (0, 0)
        e = {"TRACE": f.name}
        e.update(env or {})
        rc, out = self.tlc(module, cfg, env=e, workers=1, timeout=timeout, args=("-deadlock",), heap="3g")
        g, d, depth = self.tlc_counts(out)
        if not os.environ.get("MM2_KEEP"):
            os.unlink(f.name)
        if rc == 0 and "No error has been found" in out:
            if depth - 1 != n:
                raise CheckError(f"trace accepted at depth {depth} for {n} events")
            return None, (g, d)
        m = re.search(r"MM2REJECT[^0-9]*(\d+)", out)
        if "Invariant" in out and "is violated" in out or (m is None and "TraceAccepted" not in out):
            # an evaluation error inside the spec: the observation does not even have the shape of an answer
            m2 = re.findall(r"^/\\ l = (\d+)|^l = (\d+)", out, re.M)
            pos = None
            if m2:
                pos = int(m2[-1][0] or m2[-1][1]) - 1
            if pos is None:
                raise CheckError(f"TLC failed on trace of {module}:\n{out[-3000:]}")
        else:
            if m is None:
                raise CheckError(f"TLC failed on trace of {module}:\n{out[-3000:]}")
            pos = int(m.group(1)) - 1       # 0-based index of first event not accepted
        hi = max(i for i, s in enumerate(starts) if s <= pos)
        return (hi, pos - starts[hi], out), (g, d)

    def validate(self, module, histories, cfg=None, env=None, shards=NCPU, what="", count=True, timeout=800):
        """TLC-validate recorded histories (list of event lists). Returns list of rejections [(index, event_index)]."""
        cfg = cfg or module + ".cfg"
        idx = [i for i, h in enumerate(histories) if h]
        # balance shards by event count
        order = sorted(idx, key=lambda i: -len(histories[i]))
        loads = [0] * shards
        groups = [[] for _ in range(shards)]
        for i in order:
            k = loads.index(min(loads))
            groups[k].append(i)
            loads[k] += len(histories[i])
        rej = []

        def one(g):
            if not g:
                return
            g = list(g)
            first = True
            while g:
                r, (gen, dis) = self._validate_once(module, cfg, [histories[i] for i in g], env, timeout)
                if count and first:
                    self.cov["states"] += dis
                    self.cov["transitions"] += gen
                first = False
                if r is None:
                    if count:
                        self.cov["traces_validated_against_impl"] += len(g)
                    return
                hi, ei, out = r
                rej.append((g[hi], ei, out))
                if count:
                    self.cov["traces_validated_against_impl"] += hi
                g = g[hi + 1:]
                if len(rej) >= 12:
                    return
        with ThreadPoolExecutor(shards) as ex:
            list(ex.map(one, groups))
        return rej

    def known_findings(self):
        p = os.path.join(VERIF, "known-findings.json")
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p))["findings"] if k["property"] == self.pid and k.get("status") == "known"]

    def decide(self, module, binary, scripts, cfg=None, env=None, known=None, name="", timeout=120, sample=3,
               vtimeout=800, pre=None, args=(), once=False):
        """the whole conformance step: run scripts, validate, re-run and re-validate rejections, report.
        known(script, events, event_index) -> text of the known finding it belongs to, or None
        pre(events) -> events as given to TLC.
        once: schedules differ from run to run, so what was recorded once is enough (endless runs still have to repeat)."""
        if not scripts:
            return []
        if self.violations:
            self.say(f"{name or binary}: skipped, there are violations already")
            return []
        res = self.run_driver(binary, scripts, timeout=timeout, args=args)
        self.say(f"{name or binary}: ran {len(scripts)} histories, {sum(len(r[0]) for r in res if r)} events")
        hist = [(pre(r[0]) if pre else r[0]) if r else [] for r in res]
        for i in range(min(sample, len(scripts))):
            if len(self.cov["samples"]) < 12 and res[i]:
                self.cov["samples"].append({"script": scripts[i][:400], "events": res[i][0][:4]})
        bad = []
        for i, r in enumerate(res):
            if r and r[1] != "ok":
                bad.append((i, len(r[0]), r[1]))
                hist[i] = []
        rej = self.validate(module, hist, cfg, env, timeout=vtimeout)
        for i, ei, out in rej:
            bad.append((i, ei, "rejected"))
        for i, ei, why in bad:
            if once and why != "timeout" and "rc=-14" not in why:
                self.violate({"spec": module, "why": why, "history": i, "event": ei, "script": scripts[i],
                              "events": (pre(res[i][0]) if pre else res[i][0])[max(0, ei - 3):ei + 1]})
                if len(self.violations) >= 3:
                    break
                continue
            # second opinion: run this history alone again, judge it alone again
            r2 = self.run_driver(binary, [scripts[i]], shards=1, timeout=timeout, args=args)[0]
            ev2 = (pre(r2[0]) if pre else r2[0]) if r2 else []
            if why == "rejected":
                rej2 = self.validate(module, [ev2], cfg, env, shards=1, count=False, timeout=vtimeout)
                if r2 and r2[1] == "ok" and not rej2:
                    self.say(f"history {i}: rejection not repeated, ignored")
                    continue
                if rej2:
                    ei = rej2[0][1]
            else:
                if r2 and r2[1] == "ok" and not self.validate(module, [ev2], cfg, env, shards=1, count=False, timeout=vtimeout):
                    self.say(f"history {i}: {why} not repeated, ignored")
                    continue
            k = known(scripts[i], ev2, ei) if known else None
            if k:
                if k not in self.known:
                    self.known.append(k)
                continue
            self.violate({"spec": module, "why": why, "history": i, "event": ei, "script": scripts[i],
                          "events": ev2[max(0, ei - 3):ei + 1]})
            if len(self.violations) >= 3:
                break
        return res

    def violate(self, info):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.pid}-{len(self.violations)}.json")
        json.dump(info, open(p, "w"), indent=1)
        self.violations.append(p)
        print(f"VIOLATION property={self.pid} replay={p}", flush=True)
        print(json.dumps(info)[:1500], flush=True)

    def binding_demo(self, module, events_list, corrupt, cfg=None, env=None):
        """corrupt one recorded field of an accepted history and require that TLC rejects it."""
        rej = self.validate(module, [corrupt(json.loads(json.dumps(events_list)))], cfg, env, shards=1, count=False)
        if not rej:
            raise CheckError("binding demonstration failed: a corrupted trace was accepted")
        self.cov["corrupted_traces_rejected"] = self.cov.get("corrupted_traces_rejected", 0) + 1

    def finish(self):
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}", flush=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.say(f"{'VIOLATED' if self.violations else 'held'}; states={self.cov['states']} "
                 f"transitions={self.cov['transitions']} traces={self.cov['traces_validated_against_impl']}")
        return 1 if self.violations else 0


def main(pid, run, **kw):
    try:
        c = Check(pid, **kw)
        run(c)
        rc = c.finish()
    except CheckError as e:
        print("CHECK-ERROR", e, file=sys.stderr, flush=True)
        rc = 2
    sys.exit(rc)
