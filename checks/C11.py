#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, netgen as ng
from math import gcd


def leg(p, q):
    x, y = abs(p[0] - q[0]), abs(p[1] - q[1])
    return x + y if not x or not y else round((x * x + y * y) ** .5)


def total(ps):
    return sum(leg(a, b) for a, b in zip(ps, ps[1:]))


def between(ps):
    """integer points on the line"""
    r = list(ps)
    for a, b in zip(ps, ps[1:]):
        x, y = b[0] - a[0], b[1] - a[1]
        g = gcd(abs(x), abs(y))
        r += [(a[0] + x // g * k, a[1] + y // g * k) for k in range(1, g)]
    return r


def ltxt(ps):
    return f"line {len(ps)} " + " ".join(f"{x} {y}" for x, y in ps)


def cuts(rng, ps, n, ab=None):
    L, t = [], total(ps)
    for _ in range(n):
        z = rng.random()
        a, b = ab or (rng.randint(-1, t + 2), rng.randint(-1, t + 2))
        if ab is None and rng.random() < .5:
            vs = [total(ps[:k + 1]) for k in range(len(ps))] or [0]
            a = rng.choice(vs) + rng.choice([-1, 0, 0, 1])
            if rng.random() < .5:
                b = rng.choice(vs) + rng.choice([-1, 0, 0, 1])
        if ab is None and a > b and rng.random() < .8:
            a, b = b, a
        g = int(0 <= a <= t and rng.random() < .4 and len(ps) > 1)
        h = int(0 <= b <= t and rng.random() < .4 and len(ps) > 1)
        if ab or z < .55:
            L.append(f"cut {a} {b} {g} {h}")
        elif z < .65:
            L.append(f"cutf {a} {g}")
        elif z < .75:
            L.append(f"cutt {b} {h}")
        elif len(ps) > 1:
            q, r = rng.choice(between(ps)), rng.choice(between(ps))
            w = rng.choice(["cutp", "cutpf", "cutpt", "dist"])
            L.append(f"pts {w} {q[0]} {q[1]} {r[0]} {r[1]} {rng.randint(0, 1)} {rng.randint(0, 1)}")
    return L


def simp(rng, n, t=None, retain=None, rev=None, cs='c'):
    t = rng.choice([0, 0, 3, 7, 13, 17, 23] if cs == 'c' else [0, 3, 5, 13, 15, 23] if cs == 's' else [3, 5, 13, 15, 23]) if t is None else t
    retain = rng.randint(0, 1) if retain is None else retain
    rev = rng.choice([0, 0, 20, 50]) if rev is None else rev
    z = rng.random()
    if z < .2 and not retain:
        f, to = (0, n) if rng.random() < .5 else (rng.randint(0, n), rng.randint(0, n + 1))
        return f"simp raw {f} {to} {t}"
    if z < .6 or n < 2:
        return f"simp rich {retain} {t} {rev}"
    return f"simp segs {retain} {t} {rev}"


def from_model(h, rng):
    ps = [tuple(q) for q in h[0]]
    L = ["kind " + rng.choice("ple")]
    if h[1] == "simp":
        dx, dy = rng.randint(0, 2), rng.randint(0, 2)
        ps = [(x + dx, y + dy) if rng.random() < 2 else 0 for x, y in ps]
        if rng.random() < .5:
            ps = [(y, x) for x, y in ps]
        return L + [ltxt(ps), simp(rng, len(ps), h[2], h[3], h[4])]
    k = rng.choice([1, 2, 3])
    one = all(y == 0 for _, y in ps)
    plus = all(a[1] == b[1] == 0 or a[0] == b[0] for a, b in zip(ps, ps[1:]))
    if one and rng.random() < .5:
        L.append("cs g")
    elif plus and rng.random() < .5:
        L.append("cs s")
    ps = [(x * k, y * k) for x, y in ps]
    if "cs s" in L or "cs g" in L:
        return L + [ltxt(ps)] + cuts(rng, ps, 1, (h[2] * k, h[3] * k))
    m = rng.choice([0, 0, 1, 2, 3, 4])           # any position of the axes
    if m & 1:
        ps = [(y, x) for x, y in ps]
    if m & 2:
        ps = [(4 - x, y - 3) for x, y in ps]
    return L + [ltxt(ps)] + cuts(rng, ps, 1, (h[2] * k, h[3] * k)) + cuts(rng, ps, 2)


def walk(rng):
    L = ["kind " + rng.choice("ple")]
    if rng.random() < .5:
        w, h = rng.choice([(4, 4), (4, 4), (4, 1), (4, 0), (2, 2), (1, 1)])
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
        ps = []
        for _ in range(n):
            z = rng.random()
            if ps and z < .12:
                ps.append(ps[-1])
            elif len(ps) > 1 and z < .25:
                ps.append(ps[-2])
            elif len(ps) > 1 and z < .45:
                q = (2 * ps[-1][0] - ps[-2][0], 2 * ps[-1][1] - ps[-2][1])
                ps.append(q if 0 <= q[0] <= 4 and 0 <= q[1] <= 4 else ps[0])
            else:
                ps.append((rng.randint(0, w), rng.randint(0, h)))
        cs = rng.choice("cccsg")
        return L + ["cs " + cs, ltxt(ps)] + [simp(rng, n, cs=cs) for _ in range(3)]
    cs = rng.choice("cccccssg")
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8])
    ps = [(rng.randint(-3, 6), 0 if cs != "c" else rng.randint(-3, 6))][:n]
    while len(ps) < n:
        x, y = ps[-1]
        z = rng.random()
        if z < .1:
            ps.append(ps[-1])
        elif z < .2:
            ps.append(ps[0] if cs == "g" or (cs == "c" and (ps[0][0] == x or ps[0][1] == y)) else ps[-1])
        elif cs == "g":
            ps.append((rng.randint(-6, 8), 0))
        elif cs == "s":
            ps.append((x, rng.randint(-5, 5)) if y or rng.random() < .5 else (rng.randint(-6, 8), y))
        elif z < .4:
            d = rng.choice([(3, 4), (4, 3), (-3, 4), (6, -8), (-4, -3), (4, -3)])
            ps.append((x + d[0], y + d[1]))
        else:
            ps.append((x, rng.randint(-5, 9)) if rng.random() < .5 else (rng.randint(-5, 9), y))
    L = [L[0], "cs " + cs, ltxt(ps)] + cuts(rng, ps, 8)
    if cs != "c":       # points by their position only
        L = [x for x in L if not x.startswith("pts")] + [x for x in L if x.startswith("pts") and cs == "g" and 0]
    return L


def run(c):
    b = c.build("cut", ["cut.cpp"], repo_sources=ng.SRC, extra=["-fsanitize=address"])
    c.say("driver built")
    out = c.model_check("CutMC", "CutMC.cfg" if not c.thorough else "CutMC_thorough.cfg", timeout=800,
                        args=("-seed", str(c.seed)), require_actions=("StartSimp", "Split", "StartCut", "Walk"))
    hs = c.emitted(out)
    c.rng.shuffle(hs)
    k = 1 if not c.thorough else 10
    scripts = [from_model(h, c.rng) for h in hs[:15000 * k]]
    scripts += [walk(c.rng) for _ in range(8000 * k)]
    scripts = ["\n".join(s) + "\n" for s in scripts]
    res = c.decide("CutTrace", b, scripts, name="lines simplified and cut", timeout=300)
    if not c.violations:
        i = next(i for i, r in enumerate(res) if r and r[1] == "ok" and r[0][-1].get("op") == "cut" and len(r[0][-1]["out"]) > 2)

        def corrupt(evs):
            evs[-1]["out"][1][0] += 100
            evs[-1]["out"][1][1] += 100
            return evs
        c.binding_demo("CutTrace", res[i][0], corrupt)
    c.assumptions += ["simplification: planar lines on a 5x5 lattice with tolerances that no distance of the lattice equals",
                      "cutting: segments of whole length, distances in half units, planar, along meridians and the equator on the sphere, along the equator on the ellipsoid",
                      "given cut points lie on the line at the given distance"]


mbv.main("C11", run)
