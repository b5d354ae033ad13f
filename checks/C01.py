#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, graphgen as gg


def run(c):
    b = c.build("graph", ["graph.cpp"], extra=["-fsanitize=address"])
    c.say("driver built")
    m = gg.model(c, 3, 3 if not c.thorough else 4, 9 if not c.thorough else 10, gg.LISTK)
    scripts = []
    for k, hs in m.items():
        c.rng.shuffle(hs)
        n = 5000 if not c.thorough else 60000
        scripts += [gg.script(h) for h in hs[:n] if h[-1][0] != "bake"]
    for k in gg.LISTK:
        scripts += [gg.walk(c.rng, k, 40) for _ in range(60 if not c.thorough else 1500)]
    for k in gg.VECK:
        scripts += [gg.walk(c.rng, k, 30) for _ in range(30 if not c.thorough else 600)]
    res = c.decide("GraphTrace", b, scripts, name="graph histories", timeout=300)

    def corrupt(evs):
        evs[-1]["obs"]["ne"] += 1
        return evs
    k = next(i for i, r in enumerate(res) if r and r[1] == "ok" and "obs" in r[0][-1])
    if not c.violations:
        c.binding_demo("GraphTrace", res[k][0], corrupt)
    c.assumptions += ["histories bounded by 3 vertices and 3-4 edges are enumerated by TLC, longer ones are sampled",
                      "removing a vertex with incoming edges from a one-way graph is a caller error (not checked by the code by design)"]


mbv.main("C01", run)
