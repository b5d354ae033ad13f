"""Input networks for C04/C05 (and others): lattice geometry, so every length is an integer."""


def dedup(p):
    """drop repeated points and interior points that do not turn"""
    out = []
    for q in p:
        if not out or out[-1] != q:
            out.append(q)
    return out


def geo(pa, pb, k, style):
    """axis parallel geometry from pa to pb; k makes it unique"""
    (xa, ya), (xb, yb) = pa, pb
    if style == "direct" and pa != pb:
        return dedup([pa, (xb, ya), pb])
    if pa == pb:
        return [pa, (xa, ya + k), (xa + 1, ya + k), (xa + 1, ya), pa]
    return dedup([pa, (xa, 1000 + k), (xb, 1000 + k), pb])


def fmt_net(nodes, edges, new="new mem 0 0"):
    """nodes: [(id,x,y,tags)], edges: [(id,s,t,tags,pts)] -> script lines"""
    L = [new]
    for i, x, y, tg in nodes:
        L.append(f"N {i} {x} {y} {len(tg)} " + " ".join(map(str, tg)))
    for i, s, t, tg, p in edges:
        L.append(f"E {i} {s} {t} {len(tg)} " + " ".join(map(str, tg)) + f" {len(p)} " + " ".join(f"{x} {y}" for x, y in p))
    return L


TAGS = {1: [1], 2: [2, 3], 3: [1, 3], 4: []}


def from_model(roads, rng):
    """roads of NetworkMC: [[[a,b,m],id],...] with 4 nodes"""
    n = 4
    nodes = [(100 + v, 10 * v, 0, [9] if v % 2 else []) for v in range(1, n + 1)]
    edges = []
    for k, (kd, i) in enumerate(roads, 1):
        a, b, m = kd
        tg = TAGS[i]
        if a == b:
            p = [(10 * a, 0), (10 * a, k), (10 * a + 1, k), (10 * a + 1, 0), (10 * a, 0)]
        else:
            p = [(10 * a, 0), (10 * a, k), (10 * b, k), (10 * b, 0)]
        if m in (1, 3):
            edges.append((i, a - 1, b - 1, tg, p))
        if m in (2, 3):
            edges.append((i, b - 1, a - 1, tg, p[::-1]))
    return nodes, edges


def random_net(rng, nn=None, nr=None, coincident=False, dup=False, subdivide=True):
    """roads with pass-through nodes along them, ways sharing identifiers, loops, parallels"""
    nn = nn or rng.randint(1, 6)
    nr = rng.randint(0, 6) if nr is None else nr
    pos = []
    for v in range(nn):
        if coincident and pos and rng.random() < .45:
            pos.append(rng.choice(pos))
        else:
            while True:
                p = (rng.randint(-5, 5) * 10, rng.randint(-5, 5) * 10)
                if p not in pos:
                    break
            pos.append(p)
    nodes = [(100 + v, *pos[v], rng.choice([[], [], [9], [8, 9]])) for v in range(nn)]
    edges = []
    nid = [100 + nn]
    k = 0
    for r in range(nr):
        a, b = rng.randrange(nn), rng.randrange(nn)
        m = rng.choice([1, 2, 3, 3, 3])
        i = rng.choice([1, 1, 2, 2, 3, 4])
        k += 1
        pieces = rng.choice([1, 1, 2, 2, 3]) if subdivide else 1
        chain = [a]
        for _ in range(pieces - 1):
            while True:
                p = (rng.randint(-40, 40) * 10 + 3, rng.randint(-40, 40) * 10 + 7)
                if p not in pos:
                    break
            pos.append(p)
            nodes.append((nid[0], *p, rng.choice([[], [], [7]])))
            nid[0] += 1
            chain.append(len(pos) - 1)
        chain.append(b)
        ids = [i] * pieces
        if rng.random() < .3:
            ids = [rng.choice([1, 2, 3, 4]) for _ in range(pieces)]
        if m == 3 and rng.random() < .12:
            ms = [rng.choice([1, 2, 3]) for _ in range(pieces)]
        else:
            ms = [m] * pieces
        back = [j if rng.random() > .06 else rng.choice([1, 2, 3, 4]) for j in ids]
        for q in range(pieces):
            u, w = chain[q], chain[q + 1]
            g = geo(pos[u], pos[w], k, rng.choice(["direct", "over", "over"]))
            k += 1
            if ms[q] in (1, 3):
                edges.append((ids[q], u, w, TAGS[ids[q]], g))
            if ms[q] in (2, 3):
                edges.append((back[q], w, u, TAGS[back[q]], g[::-1]))
    if dup and edges:
        for _ in range(rng.randint(0, 3)):
            e = rng.choice(edges)
            z = rng.random()
            if z < .5:
                edges.append(e)
            elif z < .65:
                j = rng.choice([1, 2, 3, 4])
                edges.append((j, e[1], e[2], TAGS[j], e[4]))
            elif z < .8:
                edges.append((e[0], e[2], e[1], e[3], e[4][::-1]))
            else:   # same length and end points, other way
                g = e[4]
                if len(g) == 4 and g[0][0] == g[1][0] and g[0][1] == g[3][1]:
                    d = g[1][1] - g[0][1]
                    g = [g[0], (g[0][0], g[0][1] - d), (g[3][0], g[0][1] - d), g[3]]
                    edges.append((e[0], e[1], e[2], e[3], g))
    if rng.random() < .7:
        perm = list(range(len(nodes)))
        rng.shuffle(perm)
        inv = {o: n for n, o in enumerate(perm)}
        nodes = [nodes[o] for o in perm]
        edges = [(i, inv[s], inv[t], tg, p) for i, s, t, tg, p in edges]
        rng.shuffle(edges)
    return nodes, edges

SRC = ["geometry/cache.cpp", "io/memory_mapped/utils.cpp", "util/compiler.cpp", "util/version.cpp"]


def model(c, share):
    import os
    cfg = os.path.join(c.tmp, "NetworkMC.cfg")
    with open(cfg, "w") as f:
        f.write(f"""SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxR = 3 Share = {share}
INVARIANT Correct
INVARIANT CleanupSound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
""")
    out = c.model_check("NetworkMC", cfg, args=("-seed", str(c.seed)), require_actions=("Merge",), timeout=800)
    return c.emitted(out)
