#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, netgen as ng

KINDS = ["list", "bi", "vec", "csr"]


def rand_graph(rng, nmax, wmax):
    n = rng.randint(1, nmax)
    m = rng.randint(0, 2 * n + 2)
    return n, [(rng.randint(1, n), rng.randint(1, n), rng.randint(0, wmax)) for _ in range(m)]


def gfmt(n, es):
    return f"G {n} {len(es)} " + " ".join(f"{s} {t} {w}" for s, t, w in es)


def net_lines(rng, nodes, es):
    """axis-parallel detours of the wanted cost between lattice nodes: cost >= Manhattan distance, same parity"""
    out = []
    for s, t, w in es:
        (x0, y0), (x1, y1) = nodes[s - 1], nodes[t - 1]
        man = abs(x0 - x1) + abs(y0 - y1)
        extra = (max(0, w - man) + 1) // 2
        pts = [(x0, y0)]
        if extra:
            pts += [(x0, y0 - extra * (1 if rng.random() < .5 else -1))]
            yy = pts[-1][1]
            pts += [(x1, yy)] if x1 != x0 else [(x0, yy)]
        elif x1 != x0 and y1 != y0:
            pts += [(x1, y0)]
        pts += [(x1, y1)]
        q = [pts[0]]
        for p in pts[1:]:
            if p != q[-1] or len(pts) == 2:
                q.append(p)
        if len(q) == 1:
            q.append(q[0])
        out.append(f"{s} {t} {len(q)} " + " ".join(f"{x} {y}" for x, y in q))
    return out


def net(rng, n, es, spread):
    nodes = [(rng.randint(0, spread), rng.randint(0, spread)) for _ in range(n)]
    L = net_lines(rng, nodes, es)
    return f"net {n} " + " ".join(f"{x} {y}" for x, y in nodes) + f" {len(L)} " + " ".join(L)


def run(c):
    rng = c.rng
    b = c.build("search", ["search.cpp"], repo_sources=ng.SRC, extra=["-fsanitize=address"])
    c.say("driver built")
    out = c.model_check("SearchMC", "SearchMC.cfg" if not c.thorough else "SearchMC_thorough.cfg",
                        workers=6, timeout=700, args=("-seed", str(c.seed)), require_actions=("Pop", "Exhaust"))
    insts = c.emitted(out)
    rng.shuffle(insts)
    scripts = []
    for x in insts[:1500 if not c.thorough else 20000]:
        es = [(e["s"], e["t"], e["w"]) for e in x["es"]]
        k = rng.choice(KINDS)
        L = [gfmt(x["n"], es), f"dij {k} 1", f"bfs {k} 1 0", f"dfs {k} 1 0"]
        gs = x["goals"]
        # at one position (zero heuristic) every cost is representable; limit in half units
        L.append(net(rng, x["n"], [(s, t, 2 * w) for s, t, w in es], 0))
        lim = x["lim"]
        f = f"{2 * lim} 2" if lim >= 0 else "5 -2"
        L.append(f"nd 1 {len(gs)} {' '.join(map(str, gs))} {f}")
        L.append(f"na 1 {gs[0]} {f}")
        scripts.append(L)
    for _ in range(1500 if not c.thorough else 30000):
        n, es = rand_graph(rng, 9, rng.choice([0, 3, 9]))
        L = [gfmt(n, es)]
        for k in rng.sample(KINDS, 2):
            s = rng.randint(1, n)
            L += [f"bfs {k} {s} {rng.choice([0, 0, 1, 2, 3])}", f"dfs {k} {s} {rng.choice([0, 0, 1, 2, 3])}", f"dij {k} {s}"]
        scripts.append(L)
    for _ in range(1500 if not c.thorough else 30000):
        n, es = rand_graph(rng, 8, rng.choice([3, 8, 14]))
        L = [net(rng, n, es, rng.choice([0, 2, 5]))]
        for _ in range(3):
            s = rng.randint(1, n)
            gs = rng.sample(range(1, n + 1), rng.randint(1, min(n, 4)))
            f2 = rng.choice([-2, 1, 2, 2, 4])
            mx = 2 * rng.randint(0, 9)
            L.append(f"nd {s} {len(gs)} {' '.join(map(str, gs))} {mx} {f2}")
            L.append(f"na {s} {rng.randint(1, n)} {mx} {f2}")
        scripts.append(L)
    for _ in range(900 if not c.thorough else 8000):
        # geographic networks: ordinary places, near a pole, across the 180th meridian
        n = rng.randint(3, 7)
        es = [(rng.randint(1, n), rng.randint(1, n), 0) for _ in range(rng.randint(n, 2 * n))]
        if rng.random() < .6:       # several two-hop connections from 1 to n compete
            es = [(1, k, 0) for k in range(2, n)] + [(k, n, 0) for k in range(2, n)] + es[:2]
        where = rng.choice(["mid", "pole", "am"])
        P = []
        for _ in range(n):
            if where == "mid":
                P.append((110000 + rng.randint(-300, 300), 500000 + rng.randint(-300, 300)))
            elif where == "pole":
                P.append((rng.randint(-1799999, 1799999), 899990 + rng.randint(-900, 9)))
            else:
                P.append((rng.choice([-1, 1]) * (1800000 - rng.randint(1, 15)), rng.randint(-15, 15)))
        L = [f"geo {n} " + " ".join(f"{x} {y}" for x, y in P) + f" {len(es)} " + " ".join(
            f"{s} {t} 2 {P[s-1][0]} {P[s-1][1]} {P[t-1][0]} {P[t-1][1]}" for s, t, _ in es)]
        for _ in range(6):
            s, g = rng.choice([(1, n), (rng.randint(1, n), rng.randint(1, n))])
            L += [f"nd {s} 1 {g} 5 -2", f"na {s} {g} 5 -2"]
        scripts.append(L)
    res = c.decide("SearchTrace", b, ["\n".join(s) + "\n" for s in scripts], name="search histories", timeout=300)
    if not c.violations:
        k = next(i for i, r in enumerate(res) if r and r[1] == "ok" and any(e["op"] == "dij" for e in r[0]))

        def corrupt(evs):
            e = next(e for e in evs if e["op"] == "dij")
            e["dist"][0] += 1
            return evs
        c.binding_demo("SearchTrace", res[k][0], corrupt)
    c.assumptions += ["graphs with 3 vertices are enumerated by TLC (a random share in quick), larger ones are sampled",
                      "costs are integers; road geometry is axis-parallel on an integer lattice",
                      "searches follow edges from source to target; undirected graphs (unused by the program) are not searched"]


mbv.main("C03", run)
