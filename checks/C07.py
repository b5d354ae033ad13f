#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, netgen as ng

KINDS = ["mem", "impmem", "mmap", "imp"]


def ppairs(ps):
    return f"{len(ps)} " + " ".join(f"{k} {v}" for k, v in ps)


def ball(rng):
    return rng.choice([0, 0, 8, 16, 24, 32, 40, 48, 64, 80, 96, 128, 160, 200, 256, 320, 400, 512, 700, 1000, 1500]) if rng.random() < .9 else 8 * rng.randint(0, 300)


def from_model(h, rng):
    ka = rng.choice(["mmap", "mmap", "imp", "imp", "mem", "impmem"])
    L = [f"new {ka} {rng.choice(KINDS)} 16384"]
    fin = False
    for c in h:
        fin = fin or c[0] == "fin"
        if not fin and rng.random() < .6:
            L.append(f"ballast {ball(rng)}")
        if c[0] == "id":
            L.append(f"id A {c[1]} {c[2]}")
        elif c[0] == "set":
            L.append(f"{rng.choice(['set', 'copy'])} A {c[1]} {c[2]} {ppairs(c[3])}")
        elif c[0] == "merge":
            L.append(f"merge A {c[1]} {c[2]}")
        else:
            L.append("fin A")
    L += [f"reopen A {rng.randint(0, 1)}"] if rng.random() < .5 else []
    if rng.random() < .1:
        L.append("child A")
    return L


def walk(rng, n, sweep=None):
    """random history; sweep: ballast of the k-th operation"""
    L = [f"new {rng.choice(KINDS)} {rng.choice(KINDS)} {rng.choice([16384, 32768])}"]
    known = {"A": [], "B": []}
    fin = set()
    kmax = rng.choice([2, 4, 12])
    for i in range(n):
        S = rng.choice("AAB")
        m = rng.choice(["nodes", "edges"])
        if rng.random() < .45 and (L[-1].split()[0] != "ballast"):
            L.append(f"ballast {ball(rng)}")
        z = rng.random()
        rp = lambda: (rng.randint(1, kmax), rng.randint(1, kmax))
        if S in fin and z < .55:
            z = rng.choice([.1, .6, .8])
        if z < .25:
            k, v = rp()
            if S not in fin:
                known[S].append((k, v))
            L.append(f"id {S} {k} {v}")
        elif z < .4:
            ps = [rp() for _ in range(rng.choice([0, 1, 2, 5, 20]))]
            known[S] += ps
            L.append(f"list {S} {m} {rng.randint(1, 5)} {ppairs(ps)}")
        elif z < .55:
            L.append(f"clone {S} {m} {rng.randint(1, 5)}")
        elif z < .7:
            ps = [rng.choice(known[S]) for _ in range(rng.choice([1, 2, 3, 9]))] if known[S] else []
            L.append(f"{rng.choice(['set', 'copy'])} {S} {m} {rng.randint(1, 5)} {ppairs(ps)}")
        elif z < .9:
            L.append(f"merge {S} {rng.randint(1, 5)} {rng.randint(1, 5)}")
        elif z < .94:
            L.append(f"grow {S}" if S not in fin else f"child {S}")
        elif z < .96 and S not in fin:
            fin.add(S)
            L.append(f"fin {S}")
        elif z < .975:
            L.append(f"child {S}")
    if rng.random() < .5:
        L.append(f"reopen A {rng.randint(0, 1)}")
    # a finalized store cannot grow any more: keep its memory
    out, f = [], set()
    for x in L:
        p = x.split()
        if p[0] == "fin":
            f.add(p[1])
        if p[0] not in ("ballast", "new") and p[1] in f and out[-1].startswith("ballast"):
            out.pop()
        out.append(x)
    return out


def run(c):
    b = c.build("tags", ["tags.cpp"], repo_sources=ng.SRC, extra=["-fsanitize=address"])
    c.say("driver built")
    out = c.model_check("TagsMC", "TagsMC.cfg" if not c.thorough else "TagsMC_thorough.cfg", timeout=700,
                        require_actions=("Fail", "KeyStep", "TagStep", "Set", "Merge", "Finalize"))
    hs = [h for h in c.emitted(out) if len(h) >= 2]
    c.rng.shuffle(hs)
    scripts = [from_model(h, c.rng) for h in hs[:2500 if not c.thorough else 40000]]
    scripts += [walk(c.rng, c.rng.choice([8, 15, 30])) for _ in range(1500 if not c.thorough else 40000)]
    # the same operation with every amount of free memory: storage runs out at each of its allocations in turn
    pre = ["id A 2 2", "list A edges 1 2 2 2 3 3", "list A edges 2 3 2 2 5 5 7 7", "list B edges 3 3 9 9 8 8 2 2", "list B nodes 3 1 9 8"]
    for kind in ("mmap", "imp"):
        for op in ("id A 11 11", "list A edges 4 3 11 11 2 2 13 14", "set A nodes 4 3 2 2 5 5 7 7", "copy A edges 4 3 2 2 5 5 7 7",
                   "clone A edges 3", "clone A nodes 3", "merge A 1 2", "merge A 5 2"):
            for k in range(0, 1200 if not c.thorough else 6000, 8 if c.thorough else 24):
                scripts.append([f"new {kind} {c.rng.choice(KINDS)} 16384"] + pre + [f"ballast {k}", op] + (["child A"] if k % 240 == 0 else []))
    scripts = ["\n".join(s) + "\n" for s in scripts]
    res = c.decide("TagsTrace", b, scripts, name="tag histories", timeout=300)
    if not c.violations:
        k = next(i for i, r in enumerate(res) if r and r[1] == "ok" and r[0][-1].get("op") == "merge" and any(r[0][-1]["obs"]["edges"]))

        def corrupt(evs):
            e = next(x for x in evs[-1]["obs"]["edges"] if x)
            e.append(e[0])
            return evs
        c.binding_demo("TagsTrace", res[k][0], corrupt)
    c.assumptions += ["stores of up to 2x2 tags and 2 elements are enumerated by TLC with memory running out at every step, larger histories are sampled",
                      "one operation needs less than the doubled storage (the store grows once per operation)",
                      "a finalized store does not grow (its lookup tables are destroyed on purpose)"]


mbv.main("C07", run)
