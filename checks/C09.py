#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, netgen as ng

KINDS = ["p", "l", "e", "pb", "lb", "eb"]
W = ["len", "azi", "dir", "abs", "hlen", "hazi", "hdir", "lenp", "azip", "dirp", "absp", "hlenp", "hazip", "hdirp"]


def ptxt(ps):
    return f"{len(ps)} " + " ".join(f"{x} {y}" for x, y in ps)


def pt(rng):
    return rng.randint(0, 4), rng.randint(0, 4)


def from_model(h, rng):
    m = {}
    while len(set(m.values())) < 3:
        m = {i: pt(rng) for i in (1, 2, 3)}
    z = lambda: rng.choice(["l", "l", "l", "lb", "lb", "e", "eb", "p"])
    k, k1 = z(), z()
    L = [f"new 0 {k} {ptxt([m[i] for i in h[0][1]])}", f"new 1 {k1} {ptxt([m[i] for i in h[0][2]])}"]
    for c in h[1:]:
        if c[0] == "q":
            L.append(f"q 0 {c[1]} {c[2] if len(c) > 2 else 0}")
        elif c[0] == "sub":
            L.append(f"sub 0 0 {c[1]} {c[2]}")
        elif c[0] == "erase":
            L.append(f"erase 0 {c[1]}")
        elif c[0] == "erases":
            L.append(f"erases 0 2 {c[1]} {c[2]}")
        elif c[0] == "merge" and c[1] == "xy":
            L.append(f"merge 0 {rng.choice('vs')} 1 1")
        elif c[0] == "merge":
            L += [f"copy 2 1 {k}", f"merge 2 {rng.choice('vs')} 1 0", "mcopy 0 2"]
        elif c[0] == "swap":
            L += ["mcopy 2 0", "mcopy 0 1", "mcopy 1 2"]
        elif c[0] == "eager":
            L += ["copy 0 0 " + rng.choice(["e", "eb"]), f"copy 0 0 {k}"]
        elif c[0] == "fromeager":
            L += ["copy 2 1 " + rng.choice(["e", "eb"]), "asg 0 2"]
        elif c[0] == "assign":
            L += ["copy 2 1 " + rng.choice(["p", "pb"]), "asg 0 2"]
    if rng.random() < .3:
        L += ["copy 3 0 e", "all 3"]
    return L + ["all 0", "all 1"]


def walk(rng, n):
    """random history; the generator follows the points so that operations are mostly possible"""
    L, S, M = [], {}, {}

    def line(first=None):
        ps = [first or pt(rng)]
        for _ in range(rng.choice([0, 0, 1, 2, 3, 4])):
            ps.append(ps[-1] if rng.random() < .15 else rng.choice(ps) if rng.random() < .15 else pt(rng))
        return [] if rng.random() < .08 and not first else ps
    for i in range(4):
        S[i] = line()
        L.append(f"new {i} {rng.choice(KINDS)} {ptxt(S[i])}")
    for _ in range(n):
        z, d, s = rng.random(), rng.randint(0, 3), rng.randint(0, 3)
        if z < .08:
            S[d] = line()
            L.append(f"new {d} {rng.choice(KINDS)} {ptxt(S[d])}")
        elif z < .16:
            S[d] = S[s]
            L.append(f"copy {d} {s} {rng.choice(KINDS)}")
        elif z < .25:
            S[d] = S[s]
            L.append(f"asg {d} {s}")
        elif z < .29:
            S[d] = line()
            L.append(f"set {d} {ptxt(S[d])}")
        elif z < .32 and d != s:
            S[d] = S[s]
            # what a line holds after its content was moved away is not specified
            S[s] = line()
            L += [f"{rng.choice(['mcopy', 'masg'])} {d} {s}", f"new {s} {rng.choice(KINDS)} {ptxt(S[s])}"]
        elif z < .44:
            # lines that attach, mostly
            q, p = [], S[d]
            for j in range(rng.choice([1, 1, 2, 3])):
                s = rng.choice([x for x in range(4) if x != d])
                if rng.random() < .75:
                    cur = p
                    S[s] = line(cur[-1] if cur else None) if rng.random() < .9 else []
                    if s not in q:
                        L.append(f"new {s} {rng.choice(KINDS)} {ptxt(S[s])}")
                    else:
                        continue
                q.append(s)
                p = S[s] or p
            now, ok = list(S[d]), True
            for s in q:
                if now and S[s] and now[-1] != S[s][0]:
                    ok = False
                    break
                now = now + S[s][1:] if now and S[s] else now or S[s]
            if len(now) > 12:
                continue
            L.append(f"merge {d} {rng.choice('vs')} {len(q)} " + " ".join(map(str, q)))
            S[d] = now if ok else []
            if not ok:          # what a line holds after it refused to be extended is not specified
                S[d] = line()
                L.append(f"new {d} {rng.choice(KINDS)} {ptxt(S[d])}")
        elif z < .52:
            i = rng.randint(0, len(S[d])) if rng.random() < .9 else 7
            if i < len(S[d]):
                S[d] = S[d][:i] + S[d][i + 1:]
            L.append(f"erase {d} {i}")
        elif z < .58:
            ix = sorted(rng.sample(range(len(S[d])), rng.randint(1, len(S[d])))) if S[d] else []
            if ix:
                S[d] = [p for i, p in enumerate(S[d]) if i not in ix]
                L.append(f"erases {d} {len(ix)} " + " ".join(map(str, ix)))
        elif z < .68:
            f, t = rng.randint(0, len(S[s])), rng.randint(0, len(S[s]) + (rng.random() < .1))
            if rng.random() < .8:
                f, t = min(f, t), max(f, t)
            L.append(f"sub {d} {s} {f} {t}")
            if f <= t and f < len(S[s]) and t <= len(S[s]):
                S[d] = S[s][f:t]
        elif z < .72:
            L.append(f"ser {d}")
        elif z < .85:
            L.append(f"q {d} {rng.choice(W)} {rng.randint(0, max(1, len(S[d]) - 2))}")
        elif z < .88:
            if len(S[d]) >= 2:
                L.append(f"seg {d} {rng.randint(0, len(S[d]) - 2)}")
        elif z < .91:
            L.append(f"all {d}")
        else:
            m = rng.randint(0, 1)
            q = [s for s in [rng.randint(0, 3) for _ in range(rng.randint(1, 4))] if S[s]]
            y = rng.random()
            if q and (m not in M or y < .4):
                how = rng.choice(["vec", "vec", "lines"]) if len(q) > 1 else rng.choice(["one", "vec", "lines"])
                M[m] = True
                L.append(f"mnew {m} {rng.choice('ple')} {how} {len(q)} " + " ".join(map(str, q)))
            elif M and y < .7:
                s = rng.choice(list(M))
                if m in M and y < .55:
                    L.append(f"masn {m} {s}")
                else:
                    M[m] = True
                    L.append(f"mcp {m} {s} {rng.choice('ple')}")
            elif q and m in M:
                L.append(f"mmerge {m} {len(q)} " + " ".join(map(str, q)))
            for s in M:
                if rng.random() < .5:
                    L.append(f"mall {s}")
    return L + [f"all {i}" for i in range(4)] + [f"mall {s}" for s in M]


def run(c):
    bs = [("0", c.build("richline", ["richline.cpp"], repo_sources=ng.SRC, extra=["-fsanitize=address"])),
          ("1", c.build("richgeo", ["richline.cpp"], repo_sources=ng.SRC, extra=["-DMM2V_GEO"]))]
    c.say("drivers built")
    out = c.model_check("RichLineMC", "RichLineMC.cfg" if not c.thorough else "RichLineMC_thorough.cfg", timeout=800,
                        args=("-seed", str(c.seed)),
                        require_actions=("Query", "QueryP", "Sub", "Erase", "Erase2", "Merge", "Swap", "ToEager", "FromEager", "Assign"))
    hs = c.emitted(out)
    c.rng.shuffle(hs)
    for geo, b in bs:
        k = (1 if geo == "0" else .3) * (1 if not c.thorough else 12)
        scripts = [from_model(h, c.rng) for h in hs[:int(4000 * k)]]
        scripts += [walk(c.rng, c.rng.choice([6, 12, 25])) for _ in range(int(2500 * k))]
        scripts = ["\n".join(s) + "\n" for s in scripts]
        res = c.decide("RichLineTrace", b, scripts, name="line histories" + (" (geographic)" if geo == "1" else ""),
                       env={"GEO": geo}, timeout=300)
        if not c.violations:
            i = next(i for i, r in enumerate(res) if r and r[1] == "ok" and r[0][-1].get("op") == "all" and r[0][-1]["obs"]["per"])

            def corrupt(evs):
                evs[-1]["obs"]["per"][0][0] += 50
                return evs
            c.binding_demo("RichLineTrace", res[i][0], corrupt, env={"GEO": geo})
    c.assumptions += ["points on a 5x5 lattice; the exact measures are compared up to rounding on the plane, on geographic points only "
                      "their agreement with a line computed from scratch",
                      "a line whose points were changed through a mutable reference, that was moved from, or that refused a merge is not judged",
                      "multi lines consist of non-empty lines"]


mbv.main("C09", run)
