#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, netgen as ng
from comparegen import *
from concurrent.futures import ThreadPoolExecutor


def walk(rng):
    L = cfg(rng)
    w, h = rng.choice([(4, 4), (2, 2), (2, 1), (4, 0), (3, 1), (1, 1)])
    grid = [(x, y) for x in range(w + 1) for y in range(h + 1)]
    diag = rng.random() < .5
    a = path(rng, grid, rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10]) or 1, None, diag)
    b = mutate(rng, grid, a, diag) if rng.random() < .8 else path(rng, grid, rng.choice([1, 2, 4, 7]), None, diag)
    if rng.random() < .04:
        b = []
    if rng.random() < .04:
        a = []
    if rng.random() < .5:
        a, b = b, a
    # the match sees the points a little beside; reversals then only as going back to the point before
    if rng.random() < .25 and not any("unit" in x for x in L):
        def zig(p):
            q = [x for i, x in enumerate(p) if i == 0 or p[i - 1] != x]
            for x, y, z in zip(q, q[1:], q[2:]):
                d1, d2 = (y[0] - x[0], y[1] - x[1]), (z[0] - y[0], z[1] - y[1])
                if d1[0] * d2[1] == d1[1] * d2[0] and d1[0] * d2[0] + d1[1] * d2[1] < 0 and x != z:
                    return True
            return False
        if not zig(b) and not zig(a):
            L.append(f"jit {len(grid)} " + " ".join(f"{x} {y} {rng.randint(-30, 30)} {rng.randint(-30, 30)}" for x, y in grid))
    if rng.random() < .6:
        L.append(f"cmp s {txt([a])} {txt([b])}")
    else:
        L.append(f"cmp m {txt(split(rng, a))} {txt(split(rng, b))}")
    return L


def from_model(h, rng):
    L = cfg(rng)
    a, b = h
    f = rng.choice([lambda p: p, lambda p: (p[1], p[0]), lambda p: (4 - p[0], p[1])])
    a, b = [f(p) for p in a], [f(p) for p in b]
    if rng.random() < .7:
        return L + [f"cmp s {txt([a])} {txt([b])}"]
    return L + [f"cmp m {txt(split(rng, a))} {txt(split(rng, b))}"]


def run(c):
    with ThreadPoolExecutor(2) as ex:
        p = ex.submit(c.build, "compareall", ["compareall.cpp"], ng.SRC + PROGRAM, extra=["-fsanitize=address"],
                      libs=("-lboost_serialization", "-lboost_thread", "-lpthread"))
        q = ex.submit(both, c)
        q.result()
        b = p.result()
    if c.violations:
        return
    scripts = ["\n".join(program(c.rng)) + "\n" for _ in range(1500 if not c.thorough else 15000)]
    c.decide("CompareTrace", b, scripts, name="programs", timeout=300)


def both(c):
    b = c.build("compare", ["compare.cpp"], repo_sources=ng.SRC, extra=["-fsanitize=address"])
    c.say("driver built")
    k = 1 if not c.thorough else 10
    hs = []
    if os.path.exists(os.path.join(mbv.VERIF, "spec", "CompareMC.tla")):
        out = c.model_check("CompareMC", "CompareMC.cfg" if not c.thorough else "CompareMC_thorough.cfg", timeout=800,
                            args=("-seed", str(c.seed)), require_actions=("Same", "AndBack", "Meet", "Settle"))
        hs = c.emitted(out)
        c.rng.shuffle(hs)
    scripts = [from_model(h, c.rng) for h in hs[:8000 * k]]
    scripts += [walk(c.rng) for _ in range(15000 * k)]
    scripts = ["\n".join(s) + "\n" for s in scripts]
    res = c.decide("CompareTrace", b, scripts, name="comparisons", timeout=300)
    if not c.violations:
        i = next(i for i, r in enumerate(res) if r and r[1] == "ok" and r[0][-1].get("op") == "cmp" and r[0][-1]["misses"] and r[0][-1]["corrects"])

        def corrupt(evs):
            evs[-1]["miss"] += 500
            return evs
        c.binding_demo("CompareTrace", res[i][0], corrupt)
    c.assumptions += ["lattice lines (5x5), lattice unit well above the tolerances; in part of the comparisons the match sees every point up to 0.03 m beside",
                      "a line without extent compared to a missing line is not judged"]


mbv.main("C12", run)
