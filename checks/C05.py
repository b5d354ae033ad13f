#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, netgen as ng


def run(c):
    b = c.build("network", ["network.cpp"], repo_sources=ng.SRC, extra=["-fsanitize=address"])
    c.say("driver built")
    scripts = []
    nets = ng.model(c, 20 if not c.thorough else 500)
    for x in nets:
        nodes, edges = ng.from_model(x["roads"], c.rng)
        base = ng.fmt_net(nodes, edges) + ["obs"]
        scripts.append(base + ["comp"])
        # fold nodes onto each other: the model's nodes 3 and 4 (and 2) move to the place of node 1
        fold = c.rng.choice([{4: 1}, {4: 1, 3: 1}, {3: 2, 4: 1}, {2: 1, 3: 1, 4: 1}])
        nodes2 = [(i, *(nodes[fold[v + 1] - 1][1:3] if v + 1 in fold else (x_, y_)), t) for v, (i, x_, y_, t) in enumerate(nodes)]
        edges2 = [(i, s, t, tg, [nodes2[s][1:3]] + list(p[1:-1]) + [nodes2[t][1:3]]) for i, s, t, tg, p in edges]
        # keep the geometry axis parallel after moving end points
        edges2 = [(i, s, t, tg, ng.geo(nodes2[s][1:3], nodes2[t][1:3], k + 1, "over")) for k, (i, s, t, tg, p) in enumerate(edges2)]
        scripts.append(ng.fmt_net(nodes2, edges2) + ["obs", "dupn %d %d" % (int(c.rng.random() < .6), int(x["complete"])), "dupe"])
    n = 1200 if not c.thorough else 30000
    for k in range(n):
        nodes, edges = ng.random_net(c.rng, coincident=c.rng.random() < .7, dup=True, subdivide=c.rng.random() < .5,
                                     nn=c.rng.randint(0, 7) or None if k % 40 else 1)
        if k % 97 == 0:
            nodes, edges = [], []
        L = ng.fmt_net(nodes, edges) + ["obs"]
        pipe = c.rng.choice([["comp"], ["dupn"], ["dupe"], ["comp", "dupn", "dupe"], ["simplify", "comp", "dupn", "dupe"],
                             ["dupn", "dupe", "comp"], ["comp", "comp"], ["dupn", "dupn"], ["dupe", "dupe"]])
        for p in pipe:
            s, co = c.rng.randint(0, 1), c.rng.randint(0, 1)
            L.append({"comp": "comp", "dupe": "dupe", "dupn": f"dupn {s} {co}", "simplify": f"simplify {co}"}[p])
        scripts.append(L)
    scripts = ["\n".join(s) + "\n" for s in scripts]
    res = c.decide("NetworkTrace", b, scripts, name="clean-up histories", timeout=300)
    if not c.violations:
        k = next(i for i, r in enumerate(res) if r and r[1] == "ok" and r[0][-1]["net"]["edges"])

        def corrupt(evs):
            evs[-1]["net"]["edges"] = evs[-1]["net"]["edges"][1:]
            evs[-1]["net"]["ne"] -= 1
            return evs
        c.binding_demo("NetworkTrace", res[k][0], corrupt)
    c.assumptions += ["largest means most nodes; any of several equally large components may be kept"]


mbv.main("C05", run)
