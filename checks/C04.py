#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, netgen as ng


def run(c):
    b = c.build("network", ["network.cpp"], repo_sources=ng.SRC, extra=["-fsanitize=address", "-DMM2V_MMAP"])
    c.say("driver built")
    scripts = []
    nets = ng.model(c, 25 if not c.thorough else 600)
    for x in nets:
        nodes, edges = ng.from_model(x["roads"], c.rng)
        scripts.append(ng.fmt_net(nodes, edges) + ["obs", f"simplify {int(x['complete'])}"])
    n = 1200 if not c.thorough else 30000
    for k in range(n):
        nodes, edges = ng.random_net(c.rng)
        new = "new mem 0 0"
        if k % 6 == 0:
            # small files: simplification has to let them grow (the graph file is doubled once before it starts)
            new = f"new mmap {c.rng.choice([4096, 6000, 8192, 65536])} {c.rng.choice([12000, 13000, 65536])}"
        L = ng.fmt_net(nodes, edges, new) + ["obs"]
        if c.rng.random() < .3:
            L.append("simplify 0")
        L.append(f"simplify {c.rng.randint(0, 1)}")
        scripts.append(L)
    scripts = ["\n".join(s) + "\n" for s in scripts]
    res = c.decide("NetworkTrace", b, scripts, name="simplify histories", timeout=300)
    if not c.violations:
        k = next(i for i, r in enumerate(res) if r and r[1] == "ok" and r[0][-1]["net"]["edges"])

        def corrupt(evs):
            evs[-1]["net"]["edges"] = evs[-1]["net"]["edges"][1:]
            evs[-1]["net"]["ne"] -= 1
            return evs
        c.binding_demo("NetworkTrace", res[k][0], corrupt)
    c.assumptions += ["roads have axis-parallel integer geometry, so that lengths are exact in the specification",
                      "all networks with 4 nodes and 3 roads are inputs of the model (a random share in quick), larger ones are sampled"]


mbv.main("C04", run)
