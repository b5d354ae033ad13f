#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, netgen as ng

KINDS = ["p", "l", "e"]


def ptxt(ps):
    return f"{len(ps)} " + " ".join(f"{x} {y}" for x, y in ps)


def from_model(h, rng):
    _, s, t = h[0]
    lines = []
    for p, o in s + t:
        if p not in lines:
            lines.append(p)
    L = ["kind " + rng.choice("pleml")]
    dx, dy = rng.randint(0, 2), rng.randint(0, 3)
    flip = rng.random() < .5
    f = lambda q: (q[0] + dx, q[1] + dy) if not flip else (q[1] + dy, q[0] + dx)
    for i, p in enumerate(lines):
        L.append(f"pool {i} {rng.choice(KINDS)} {ptxt([f(q) for q in p])}")

    def make(d, s):
        return f"make {d} {len(s)} " + " ".join(("o" if o else "x") + str(lines.index(p)) for p, o in s)
    # an empty route of the model: possible for x, impossible for y
    L.append(make(0, s) if s else "inv 0 0")
    L.append(make(1, t) if t else "inv 1 1")
    for c in h[1:]:
        if c[0] == "q":
            L += [f"q 0 {w}" for w in rng.sample(["len", "azi", "dir", "conn"], rng.randint(1, 4))]
        elif c[0] == "swap":
            L += [f"{rng.choice(['copy', 'mcopy'])} 2 0", f"{rng.choice(['copy', 'asg', 'mcopy', 'masg'])} 0 1", "mcopy 1 2"]
        elif c[0] == "copy":
            L.append(f"{rng.choice(['copy', 'asg'])} 1 0")
        elif c[0] == "sub":
            L.append(f"sub 0 0 {c[1]} {c[2]}")
        elif c[0] == "subp":
            L.append(f"subp 0 0 {c[1]} {c[2]} {c[3]} {c[4]}")
        elif c[0] == "merge":
            L.append(f"merge 0 {rng.choice([0, 0, 1, 2])} 2 0 1")
        elif c[0] == "trim":
            L += ["ret 0 1", "ask 0 1", "trim 0 0 1"]
        elif c[0] == "join":
            L.append(f"join 0 1 {c[1]}")
    return L + ["all 0", "all 1"]


def walk(rng, n):
    L = ["kind " + rng.choice("pleml")]
    # lines along a small street grid, so that routes meet and retrace each other
    size = rng.choice([2, 3, 4])
    if rng.random() < .4:
        grid = [(x, 0) for x in range(size + 1)]
    else:
        grid = [(x, y) for x in range(size) for y in range(2)]
    pool = []

    def line(start=None):
        ps = [start or rng.choice(grid)]
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            z = rng.random()
            x, y = ps[-1]
            if z < .1:
                ps.append(ps[-1])
            elif z < .25 and len(ps) > 1:
                ps.append(ps[-2])
            elif z < .8:
                ps.append(rng.choice([q for q in grid if abs(q[0] - x) + abs(q[1] - y) <= 2 and q != (x, y)]))
            else:
                ps.append(rng.choice(grid))
        return ps
    for i in range(8):
        p = line(rng.choice(pool)[-1] if pool and rng.random() < .6 else None)
        if pool and rng.random() < .35:
            p = list(reversed(rng.choice(pool)))
        if rng.random() < .05:
            p = p[:1]
        if i == 7:
            p = []
        pool.append(p)
        L.append(f"pool {i} {rng.choice(KINDS)} {ptxt(p)}")
    S = {i: None for i in range(4)}      # the lines of the routes, None: unknown

    def make(d):
        k = rng.choice([1, 1, 2, 2, 3, 4])
        ids = [rng.randint(0, 6)]
        while len(ids) < k:
            nx = [i for i in range(7) if pool[i][0] == pool[ids[-1]][-1]]
            ids.append(rng.choice(nx) if nx and rng.random() < .9 else rng.randint(0, 6))
        if rng.random() < .03:
            ids = [7]
        how = rng.random()
        own = [("o" if how < .3 else "x" if how < .6 else rng.choice("ox")) for _ in ids]
        L.append(f"make {d} {len(ids)} " + " ".join(o + str(i) for o, i in zip(own, ids)))
        S[d] = [len(pool[i]) for i in ids]
        return ids

    def successor(s, d):
        """a route that starts where a line ends, often going back"""
        make(d)
    for i in range(4):
        make(i)
    for _ in range(n):
        z = rng.random()
        d, s, b = rng.randint(0, 3), rng.randint(0, 3), rng.randint(0, 3)
        if z < .14:
            make(d)
        elif z < .17:
            L.append(f"inv {d} {rng.randint(0, 1)}")
            S[d] = []
        elif z < .24:
            if d != s:
                L.append(f"{rng.choice(['copy', 'asg'])} {d} {s}")
                S[d] = S[s]
        elif z < .27:
            if d != s:
                L.append(f"{rng.choice(['mcopy', 'masg'])} {d} {s}")
                S[d] = S[s]
                make(s)
        elif z < .42:
            q = [rng.randint(0, 3) for _ in range(rng.choice([1, 2, 2, 2, 3, 4]))]
            L.append(f"merge {d} {rng.choice([0, 0, 0, 1, 2])} {len(q)} " + " ".join(map(str, q)))
            S[d] = None
        elif z < .52:
            m = len(S[s]) if S[s] is not None else 3
            f, t = rng.randint(0, m), rng.randint(0, m + 1)
            if rng.random() < .8:
                f, t = min(f, t), max(f, t)
            L.append(f"sub {d} {s} {f} {t}")
            S[d] = None
        elif z < .62:
            m = len(S[s]) if S[s] is not None else 3
            f, t = rng.randint(0, max(0, m - 1)), rng.randint(1, max(1, m))
            if f < t:
                fp, tp = rng.choice([0, 0, 1, 1, 2, 3]), rng.choice([1, 1, 2, 2, 3, 4])
                if S[s] and rng.random() < .8:
                    fp, tp = rng.randint(0, max(0, S[s][f] - 1)), rng.randint(0, S[s][t - 1])
                L.append(f"subp {d} {s} {f} {fp} {t} {tp}")
                S[d] = None
        elif z < .80:
            L += [f"ret {s} {b}", f"trim {d} {s} {b}"]
            S[d] = None
        elif z < .86:
            if s != b:
                L.append(f"ifjoin {s} {b} {rng.randint(0, 1)}")
                S[s] = S[b] = None
        elif z < .9:
            L.append(f"ask {s} {b}")
        elif z < .97:
            L.append(f"q {d} {rng.choice(['len', 'azi', 'dir', 'conn'])}")
        else:
            L.append(f"all {d}")
    return L + [f"all {i}" for i in range(4)]


def run(c):
    b = c.build("route", ["route.cpp"], repo_sources=ng.SRC, extra=["-fsanitize=address"])
    c.say("driver built")
    out = c.model_check("RouteMC", "RouteMC.cfg" if not c.thorough else "RouteMC_thorough.cfg", timeout=800,
                        args=("-seed", str(c.seed)),
                        require_actions=("Query", "Swap", "CopyXY", "CutX", "CutAtX", "MergeXY", "TrimXY", "JoinXY"))
    hs = c.emitted(out)
    c.rng.shuffle(hs)
    k = 1 if not c.thorough else 15
    scripts = [from_model(h, c.rng) for h in hs[:8000 * k]]
    scripts += [walk(c.rng, c.rng.choice([6, 12, 25])) for _ in range(6000 * k)]
    scripts = ["\n".join(s) + "\n" for s in scripts]
    res = c.decide("RouteTrace", b, scripts, name="route histories", timeout=300)
    if not c.violations:
        i = next(i for i, r in enumerate(res) if r and r[1] == "ok" and r[0][-1].get("op") == "all" and r[0][-1]["r"]["ls"]
                 and r[0][-1]["r"]["tot"][4])

        def corrupt(evs):
            evs[-1]["r"]["tot"][0] += 200
            return evs
        c.binding_demo("RouteTrace", res[i][0], corrupt)
    c.assumptions += ["points on a 5x5 lattice, planar; measures compared up to rounding",
                      "routes of non-empty lines, or of one empty line; trimming and joining is judged for connected routes that meet",
                      "lines that a route only refers to outlive the route"]


mbv.main("C10", run)
