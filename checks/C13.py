#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, netgen as ng, matchgen as mg
from collections import deque
from concurrent.futures import ThreadPoolExecutor
NO = -1000000


def hmm_line(h):
    z = lambda v: "x" if v == NO else str(v)
    out = [f"hmm {len(h['obs'])}"]
    for o, t in zip(h["obs"], h["tr"]):
        out.append(f"{len(o)} " + " ".join(z(v) for v in o) + " " + " ".join(z(v) for row in t for v in row))
    return " ".join(out)


def mdp_line(m, d):
    out = [f"mdp {d} {len(m)}"]
    for s in m:
        out.append(f"{s['pos']} {len(s['acts'])} " + " ".join(f"{a['n'] if not a['d'] else len(m) + 1} {a['r']} {int(a['d'])} {a['e']}" for a in s["acts"]))
    return " ".join(out)


def rnd_hmm(rng):
    T = rng.randint(1, 8)
    c = [rng.choice([0, 1, 1, 2, 2, 3, 4]) if rng.random() < .3 else rng.randint(1, 4) for _ in range(T)]
    spread = rng.choice([1, 3, 50, 1000])
    pno = rng.choice([0, .1, .3, .6])
    obs = [[-rng.randint(0, spread) for _ in range(n)] for n in c]
    tr = [[[-1 if t == 0 else NO if rng.random() < pno else -rng.randint(0, spread) for _ in range(1 if t == 0 else c[t - 1])] for _ in range(c[t])]
          for t in range(T)]
    return {"obs": obs, "tr": tr}


def rnd_mdp(rng):
    """layers of candidates; an impossible way gives up the choices before or just costs; history of one or two choices"""
    n = rng.randint(1, 6 if rng.random() < .7 else 9)
    c = [rng.choice([0, 1, 2, 3]) if rng.random() < .2 else rng.randint(1, 3) for _ in range(n)]
    width = rng.choice([3, 3, 3, 5])
    pbad, spread = rng.choice([0, .2, .5]), rng.choice([2, 10, 100])
    start = (0,)
    no, order, m = {start: 1}, deque([start]), []
    while order:
        s = order.popleft()
        p, acts = s[-1], []
        for a in (range(c[p]) if c[p] else [-1]):
            if a >= 0 and len(s) >= 3 and s[-2] >= 0 and rng.random() < pbad:
                nxt, r, e = (s[2:], -rng.randint(spread // 2, 3 * spread), -2) if rng.random() < .8 else (s + (a, p + 1), -2 * spread, a)
            else:
                nxt, r, e = s + (a, p + 1), -rng.randint(0, spread), a
            nxt = nxt[-width:]
            done = nxt[-1] >= n
            if not done and nxt not in no:
                no[nxt] = len(no) + 1
                order.append(nxt)
            acts.append({"n": 0 if done else no[nxt], "r": 0 if a < 0 else r, "d": done, "e": e})
        rng.shuffle(acts)
        m.append({"pos": p, "acts": acts})
    return m


def renumber(m):
    """TLC's states, the reachable ones, successors after their state"""
    no, order = {1: 1}, deque([1])
    while order:
        for a in m[order.popleft() - 1]["acts"]:
            if not a["d"] and a["n"] not in no:
                no[a["n"]] = len(no) + 1
                order.append(a["n"])
    return [{"pos": m[s - 1]["pos"], "acts": [dict(a, n=0 if a["d"] else no[a["n"]]) for a in m[s - 1]["acts"]]} for s in no]


def from_model(e):
    if e["mode"] == "hmm":
        return [hmm_line(e["h"]), "run viterbi"]
    return [mdp_line(renumber(e["m"]), e["d"]), "run " + e["mode"]] + (["run learn"] if len(e["m"]) <= 4 else [])


def run(c):
    with ThreadPoolExecutor(2) as ex:
        b2 = ex.submit(c.build, "match", ["match.cpp"], repo_sources=ng.SRC + ["util/time_helper.cpp"], extra=["-fsanitize=address"])
        b = c.build("policy", ["policy.cpp"], repo_sources=ng.SRC, extra=["-fsanitize=address"])
        b2 = b2.result()
    c.say("driver built")
    k = 1 if not c.thorough else 10
    out = c.model_check("PolicyMC", "PolicyMC.cfg" if not c.thorough else "PolicyMC_thorough.cfg", timeout=800,
                        args=("-seed", str(c.seed)), require_actions=("Pass", "Update", "Evaluate", "Improve"))
    es = c.emitted(out)
    seen, scripts = set(), []
    for e in es:
        s = "\n".join(from_model(e)) + "\n"
        if s not in seen:
            seen.add(s)
            scripts.append(s)
    for _ in range(5000 * k):
        L = []
        for _ in range(2):
            L += [hmm_line(rnd_hmm(c.rng)), "run viterbi"]
        d = c.rng.choice([0, 20, 50, 90, 99, 99, 100])
        L += [mdp_line(rnd_mdp(c.rng), d), "run value", "run policy"]
        if c.rng.random() < .1:
            L.append("run learn")
        scripts.append("\n".join(L) + "\n")
    res = c.decide("PolicyTrace", b, scripts, name="decision problems", timeout=300)
    c.decide("MatchTrace", b2, [mg.match_history(c.rng, c.rng.random() < .1) for _ in range(800 * k)], name="tracks", timeout=800)
    if not c.violations:
        ev = [{"op": "begin"}] + [next(x for r in res if r and r[1] == "ok" for x in r[0] if x.get("op") == "viterbi" and len(x["policy"]) > 1)]

        def corrupt(evs):
            evs[-1]["policy"].pop()
            return evs
        c.binding_demo("PolicyTrace", ev, corrupt)
    c.assumptions += ["invented decision problems: rewards are whole numbers of at most 0 and no way leads back to a state; the real environments pose theirs for tracks on networks of axis-parallel roads",
                      "where no complete sequence is possible the hidden Markov search may choose nothing"]


mbv.main("C13", run)
