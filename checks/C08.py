#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, netgen as ng

BALL = [0, 0, 8, 16, 24, 32, 48, 64, 80, 96, 128, 160, 200, 256, 320, 400, 512, 700, 1000, 1500, 3000]


def ball(rng):
    return rng.choice(BALL) if rng.random() < .9 else 8 * rng.randint(0, 400)


def tags(ts):
    return f"{len(ts)}" + "".join(f" {t}" for t in ts)


def pts(ps):
    return f"{len(ps)}" + "".join(f" {x} {y}" for x, y in ps)


class G:
    """builds one script, keeping just enough state to stay inside the drivers' call protocol"""
    def __init__(self, rng, kind, close=None):
        self.rng, self.n, self.kind, self.used = rng, [], kind, {}
        self.close = close or rng.choice(["keep", "keep", "shrink", "destroy"])
        self.L = [f"new {kind} {rng.choice([16384, 32768])} {rng.choice([16384, 32768])} {self.close}"]

    def fill(self, which, p=.5):
        for w in which:
            if self.rng.random() < p and self.used.get(w, 0) < 5:      # every time the file doubles
                self.used[w] = self.used.get(w, 0) + 1
                self.L.append(f"ballast {w} {ball(self.rng)}")

    def node(self, id, ts, mode=None):
        x, y = self.rng.randint(0, 9), self.rng.randint(0, 9)
        self.n.append((x, y))
        self.L.append(f"node {id} {x} {y} {mode or self.rng.choice(['none', 'list', 'clone'])} {tags(ts)}")

    def edge(self, id, a, b, ts, mode=None, mid=None):
        r = self.rng
        mid = mid if mid is not None else [(r.randint(0, 9), r.randint(0, 9)) for _ in range(r.choice([0, 0, 1, 3, 9]))]
        self.L.append(f"edge {id} {a} {b} {mode or r.choice(['none', 'list', 'clone'])} {tags(ts)} {pts([self.n[a - 1]] + mid + [self.n[b - 1]])}")

    def static(self, p=.6, how=None, sizes=None, after=True):
        r = self.rng
        big = r.random() < .5        # large enough to be built in place unless the memory is taken
        s = sizes or [r.choice([131072, 262144]) if big else r.choice([4096, 16384]) for _ in range(4)]
        self.fill("SUI", p)
        if r.random() < p / 2 and big:
            self.L.append(f"ballast B {r.choice([0, 64, 512, 2048])}")
        self.how = how or r.choice(["keep", "shrink"])
        self.L.append("static " + " ".join(map(str, s)) + f" {self.how}")
        if after:
            self.after()

    def after(self, child=.12):
        r = self.rng
        self.L.append("closeS end")
        self.L.append("readS")
        if r.random() < child:
            self.L.append("childS")
            if r.random() < .5:
                self.L.append(f"otherS {r.choice(['version', 'compiler'])}")

    def finish(self):
        r = self.rng
        if self.kind == "mem":
            return self.L
        z = r.random()
        if z < .15:
            self.L += ["close crash", "openI"]
        elif z < .7:
            self.L += ["close end", "openI"]
            if self.close != "destroy" and r.random() < .1:
                self.L.append("childI")
        return self.L


def from_model(h, rng):
    g = G(rng, rng.choice(["mmap", "mmap", "mmap", "mem"]))
    for c in h:
        if c[0] == "static":
            g.static()
            continue
        if g.kind == "mmap":
            g.fill("GT")
        mode = lambda ts: rng.choice(["list", "clone"]) if ts else rng.choice(["none", "list", "clone"])
        if c[0] == "node":
            g.node(c[1], c[2], mode(c[2]))
        else:
            g.edge(c[1], c[2], c[3], c[4], mode(c[4]))
    return g.finish()


def walk(rng, n):
    g = G(rng, rng.choice(["mmap", "mmap", "mmap", "mem"]))
    made = False
    rt = lambda: [rng.randint(0, 12) for _ in range(rng.choice([0, 1, 2, 5]))]
    for i in range(n):
        if g.kind == "mmap":
            g.fill("GT", .3)
        z = rng.random()
        if not g.n or z < .35:
            g.node(len(g.n) + 1, sorted(set(rt())))
        elif z < .9:
            g.edge(rng.randint(1, max(2, n // 3)), rng.randint(1, len(g.n)), rng.randint(1, len(g.n)), sorted(set(rt())))
        elif z < .95 and g.kind == "mmap" and g.used.setdefault("grow", 0) < 4:
            g.used["grow"] += 1
            g.L.append(f"grow {rng.choice('GT')}")
        elif z < .97 and not made:
            made = True
            g.static()
    if not made and g.n:
        g.static()
    return g.finish()


def clean(L):
    """ballast left over in front of anything that does not use it would change later steps"""
    out = []
    for i, x in enumerate(L):
        if x.startswith("ballast"):
            nxt = next((y for y in L[i + 1:] if not y.startswith("ballast")), "close")
            k, ok = x.split()[1], nxt.split()[0]
            if not ((k in "GT" and ok in ("node", "edge")) or (k in "SUIB" and ok == "static")):
                continue
        out.append(x)
    return out


def file_model(h, rng):
    L = []
    for c in h:
        if c[0] == "open":
            L.append(c[1] + (f" {rng.choice([4096, 16384, 65536])}" if c[1] in ("create", "openc", "fresh") else ""))
            mode = c[1]
        elif c[0] == "put":
            k = -1 if mode == "cow" or rng.random() < .5 else rng.choice([0, 8, 16, 32, 64])
            L.append(f"put {c[1]} {k}")
        elif c[0] == "grow":
            L.append(rng.choice(["grow", f"grow {rng.choice([0, 1, 8, 15, 16, 24, 31, 32, 33, 47, 48, 64, 100, 1000, 5000])}"]))
        elif c[0] == "plain":
            L.append("plain 16384")
        elif c[0] == "other":
            L.append(f"other {c[1]} {c[2]} 16384")
        else:
            L.append(" ".join(map(str, c)))
    return L


def file_walk(rng, n):
    """one file over a longer life"""
    L, kind, h, own = [], "absent", None, True
    for i in range(n):
        if h is None:
            m = rng.choice(["create", "openc", "ro", "rw", "rw", "rw", "cow", "fresh"] if kind == "absent" or rng.random() < .3 else ["ro", "rw", "rw", "rw", "cow"])
            if kind == "plain" and m == "openc":
                continue
            L.append(m + (f" {rng.choice([4096, 16384])}" if m in ("create", "openc", "fresh") else ""))
            if m == "fresh" or (kind == "absent" and m in ("create", "openc")):
                kind, h = "store", "rw"
            elif kind == "store" and m != "create":
                h = {"openc": "rw"}.get(m, m)
            continue
        z = rng.random()
        if z < .5 and h == "rw":
            L.append(f"put {rng.randint(1, 60)} {rng.choice([-1, 0, 8, 16, 32, 64, 128])}")
        elif z < .5 and h == "cow":
            L.append(f"put {rng.randint(1, 60)} -1")
        elif z < .58:
            L.append("get")
        elif z < .7 and h == "rw":
            L.append(rng.choice(["grow", f"grow {8 * rng.randint(0, 20)}", "shrink 1", "dropgrow"]))
        elif z < .78 and h == "rw":
            L.append("shrink 0"); h = None
        elif z < .95:
            L.append(rng.choice(["close", "crash"])); h = None
        if h is None and rng.random() < .08:
            L.append(rng.choice(["destroy", "plain 8192"])); kind = "absent" if L[-1] == "destroy" else "plain"
    return L


def run(c):
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0"        # a crash leaves its handles behind on purpose
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(c.build, "files", ["files.cpp"], ng.SRC, "-O0", ["-fsanitize=address"], variants=("version", "compiler"))
        sb = ex.submit(c.build, "store", ["store.cpp"], ng.SRC, "-O0", ["-fsanitize=address"], variants=("version", "compiler"))
        fb, sb = fb.result(), sb.result()
    c.say("drivers built")
    T = c.thorough
    out = c.model_check("FilesMC", "FilesMC_thorough.cfg" if T else "FilesMC.cfg", timeout=700,
                        require_actions=("OpenStep", "PutStep", "GrowStep", "DropStep", "ShrinkStep", "CloseStep", "DestroyStep", "PlainStep", "OtherStep"))
    hs = c.emitted(out)
    c.rng.shuffle(hs)
    hs.sort(key=len, reverse=True)
    scripts = [file_model(h, c.rng) for h in hs[:1500 if not T else 20000]] + [file_walk(c.rng, c.rng.choice([10, 25, 50])) for _ in range(500 if not T else 10000)]
    res = c.decide("FilesTrace", fb, ["\n".join(s) + "\n" for s in scripts], name="file histories", timeout=400)
    if not c.violations:
        k = next(i for i, r in enumerate(res) if r and any(e["op"] == "put" for e in r[0]))

        def corrupt(evs):
            e = next(e for e in evs if e["op"] == "put")
            e["vals"] = e["vals"][:-1]
            return evs
        c.binding_demo("FilesTrace", res[k][0], corrupt)
    out = c.model_check("StoreMC", "StoreMC.cfg" if not T else "StoreMC_thorough.cfg", timeout=700,
                        require_actions=("Begin", "Edge", "Static", "FailTags", "FailGraph", "Tags", "Vertex", "MapIt", "Link", "StaticNodes", "StaticEdges", "FailStatic"))
    hs = [h for h in c.emitted(out) if len(h) >= 2]
    c.rng.shuffle(hs)
    scripts = [from_model(h, c.rng) for h in hs[:1200 if not T else 20000]] + [walk(c.rng, c.rng.choice([6, 15, 40])) for _ in range(600 if not T else 12000)]
    # the same write with every amount of free memory: storage runs out at each of its allocations in turn
    for k in range(0, 1400 if not T else 6000, 8 if T else 40):
        for op in ("node", "edge", "static"):
            for which in ("GT" if op != "static" else "SUI"):
                g = G(c.rng, "mmap", "keep")
                for i in range(4):
                    g.node(i + 1, [i, 3][:i % 3], "list")
                for i in range(5):
                    g.edge(i + 1, i % 4 + 1, (i * 2) % 4 + 1, [i, 7], "list", [(i, i)] * (i % 3))
                g.L.append(f"ballast {which} {k}")
                if op == "node":
                    g.node(5, [8, 9, 10, 11], "clone" if k % 16 else "list")
                elif op == "edge":
                    g.edge(7, 2, 3, [8, 9, 1], "clone" if k % 16 else "list", [(1, 2), (3, 4), (5, 6), (7, 8)])
                else:
                    g.static(0, "keep", [131072] * 4)
                scripts.append(g.finish())
    scripts = ["\n".join(clean(s)) + "\n" for s in scripts]
    res = c.decide("StoreTrace", sb, scripts, name="store histories", timeout=600)
    if not c.violations:
        k = next(i for i, r in enumerate(res) if r and r[1] == "ok" and any(e["op"] == "edge" for e in r[0]))

        def corrupt(evs):
            e = [e for e in evs if e["op"] == "edge"][-1]
            e["obs"]["edges"][0][1] += 1
            return evs
        c.binding_demo("StoreTrace", res[k][0], corrupt)
    c.assumptions += ["a crash is modelled as losing the handles without closing; what the operating system keeps of a mapped file is not modelled",
                      "one operation needs less than the doubled storage", "files of 4 KB to 1 MB; POSIX code paths only (no Windows sparse files, no shared memory segments)"]


mbv.main("C08", run)
