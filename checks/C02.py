#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, graphgen as gg


def run(c):
    b = c.build("graph", ["graph.cpp"], extra=["-fsanitize=address"])
    m = gg.model(c, 3, 3 if not c.thorough else 4, 9 if not c.thorough else 10, gg.LISTK)
    scripts = []
    for k, hs in m.items():
        hs = [h for h in hs if h[-1][0] in ("bake", "re", "rb", "cv", "rv", "ri", "ae", "av")]
        c.rng.shuffle(hs)
        for h in hs[:3500 if not c.thorough else 50000]:
            # rebuild the compressed form after every kind of last call
            scripts.append(gg.script(h) if h[-1][0] == "bake" else gg.script(h + [["ri"], ["bake"]]))
    for k in gg.LISTK:
        scripts += [gg.walk(c.rng, k, 50, maxv=9, bake=True) for _ in range(60 if not c.thorough else 1500)]
    for k in gg.VECK:
        scripts += [gg.walk(c.rng, k, 40, maxv=9, bake=True) for _ in range(60 if not c.thorough else 900)]
    res = c.decide("GraphTrace", b, scripts, name="compression histories", timeout=300)

    def corrupt(evs):
        evs[-1]["csr"]["vs"][0]["od"] += 1
        return evs
    if not c.violations:
        k = next(i for i, r in enumerate(res) if r and r[1] == "ok" and r[0][-1].get("csr", {}).get("nv", 0) > 0)
        c.binding_demo("GraphTrace", res[k][0], corrupt)
    c.assumptions += ["source graphs have current indices (the code asserts this); building from them is what the preparation pipeline does",
                      "vertex and edge payloads are integers here; conversion of real road geometry is decided by C04/C17"]


mbv.main("C02", run)
