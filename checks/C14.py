#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, netgen as ng, matchgen as mg
KINDS = ["circle", "nearest", "combined", "next"]


def from_model(e):
    s = dict(e["s"], kind=KINDS.index(e["s"]["kind"]))
    s = {k: int(v) for k, v in s.items()}
    return mg.net_line((e["ns"], [(x["s"], x["t"], x["p"]) for x in e["es"]])) + "\n" + mg.search_line(s, e["ps"]) + "\n"


def run(c):
    b = c.build("match", ["match.cpp"], repo_sources=ng.SRC + ["util/time_helper.cpp"], extra=["-fsanitize=address"])
    c.say("driver built")
    k = 1 if not c.thorough else 10
    out = c.model_check("CandidatesMC", "CandidatesMC.cfg" if not c.thorough else "CandidatesMC_thorough.cfg", timeout=850,
                        args=("-seed", str(c.seed)), require_actions=("Look", "Double", "Fit", "Join", "Take", "Near", "Sibl"))
    scripts = list(dict.fromkeys(from_model(e) for e in c.emitted(out)))
    c.say(f"{len(scripts)} searches of the model")
    for _ in range(3000 * k):
        L = [mg.net_line(mg.network(c.rng))]
        for _ in range(2):
            s = mg.settings(c.rng)
            L.append(mg.search_line(s, mg.track(c.rng, straight=bool(s["ad"]) or c.rng.random() < .3)))
        scripts.append("\n".join(L) + "\n")
    for _ in range(150 * k):                         # larger networks
        L = [mg.net_line(mg.network(c.rng, w=20, nn=c.rng.randint(8, 14), nr=c.rng.randint(8, 16)))]
        s = mg.settings(c.rng)
        L.append(mg.search_line(s, mg.track(c.rng, w=20, n=c.rng.randint(4, 8), straight=bool(s["ad"]))))
        scripts.append("\n".join(L) + "\n")
    res = c.decide("MatchTrace", b, scripts, name="candidate searches", timeout=600)
    if not c.violations:
        ev = [x for r in res if r and r[1] == "ok" and any(x.get("op") == "search" and any(len(y["es"]) > 1 for y in x["cs"]) for x in r[0]) for x in r[0]]
        n = next(i for i, x in enumerate(ev) if x["op"] == "search" and any(len(y["es"]) > 1 for y in x["cs"]))

        def corrupt(evs):
            next(y for y in evs[-1]["cs"] if len(y["es"]) > 1)["es"].pop()
            return evs
        c.binding_demo("MatchTrace", ev[:n + 1], corrupt)
    c.assumptions += ["roads run parallel to the axes on whole coordinates; the Cartesian network in memory",
                      "where a road passes the closest point several times, or several segments are equally near, any of them may be taken"]


mbv.main("C14", run)
