#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, netgen as ng, matchgen as mg


def from_model(e, rng):
    turns = int(rng.random() < .5)
    L = [mg.net_line((e["ns"], [(x["s"], x["t"], x["p"]) for x in e["es"]])),
         mg.search_line(dict(kind=0, k=1, r=40, lo=1, hi=40, ad=0, si=0, ne=0, re=0), e["ps"])]
    L += [f"roads {q['f']} {q['x']} {1 - q['f']} {q['y']} {turns} {int(q['astar'])} {q['f2']}" for q in e["qs"]]
    return "\n".join(L) + "\n"


def run(c):
    b = c.build("match", ["match.cpp"], repo_sources=ng.SRC + ["util/time_helper.cpp"], extra=["-fsanitize=address"])
    c.say("driver built")
    k = 1 if not c.thorough else 10
    out = c.model_check("RoutesMC", "RoutesMC.cfg" if not c.thorough else "RoutesMC_thorough.cfg", timeout=800,
                        args=("-seed", str(c.seed)), require_actions=("Remembered", "GivenUp", "Anew"))
    scripts = list(dict.fromkeys(from_model(e, c.rng) for e in c.emitted(out)))
    c.say(f"{len(scripts)} query histories of the model")
    scripts += [mg.route_history(c.rng, c.rng.random() < .15) for _ in range(2000 * k)]
    scripts += [mg.join_history(c.rng, c.rng.random() < .15) for _ in range(1000 * k)]
    res = c.decide("MatchTrace", b, scripts, name="routes", timeout=800)
    res2 = c.decide("MatchTrace", b, [mg.match_history(c.rng, c.rng.random() < .1) for _ in range(800 * k)], name="matches", timeout=800)
    n = sum(x.get("op") == "route" and not x["r"]["inv"] and len(x["r"]["ls"]) > 0 for r in res for x in (r[0] if r else []))
    c.say(f"{n} routes that lead somewhere")
    if not c.violations:
        r = next(r for r in res if r and r[1] == "ok" and any(x.get("op") == "route" and x["r"]["len"] > 0 for x in r[0]))
        n = next(i for i, x in enumerate(r[0]) if x.get("op") == "route" and x["r"]["len"] > 0)

        def corrupt(evs):
            evs[-1]["r"]["len"] += 1
            return evs
        c.binding_demo("MatchTrace", r[0][:n + 1], corrupt)
    c.assumptions += ["roads run parallel to the axes on whole coordinates; the Cartesian network in memory; roads of positive length",
                      "where a choice is repeated more than once for positions given up, the gap may or may not be closed by a route"]


mbv.main("C18", run)
