"""Networks written to disk and read back, and queries (C17)."""
KV = [["a", "1"], ["a", "2"], ["b", "1"], ["name", "A ü"], ["x=y", ""], ["highway", "primary"]]


def text(net, queries, kinds, geo, size):
    t = lambda ts: f"{len(ts)} " + "".join(f"{k}\t{v}\t" for k, v in ts)
    L = [f"N{'X' if n.get('x') else ''} {n['id']} {n['p'][0]} {n['p'][1]} {t(n['tags'])}" for n in net["ns"]]
    L += [f"E{'X' if e.get('x') else ''} {e['id']} {e['s']} {e['t']} {len(e['ls'])} {' '.join(f'{x} {y}' for x, y in e['ls'])} {t(e['tags'])}" for e in net["es"]]
    L += [f"Q {q} {len(a)} {' '.join(map(str, a))}" for q, a in queries]
    g, tg, i, b = map(int, kinds)
    return "\n".join(L + [f"store {int(geo)} {g} {tg} {i} {b} {size}"]) + "\n"


def network(rng, side, nn, ne, off):
    ids = [rng.randint(1, 2 * nn + 1) for _ in range(nn)] if rng.random() < .2 else rng.sample(range(1, 10 * nn + 10), nn)
    P = lambda: [off[0] + rng.randint(0, side), off[1] + rng.randint(0, side)]
    tags = {}

    def tg(kind, i):
        if (kind, i) not in tags:
            s = rng.sample(KV, rng.choice([0, 0, 1, 2, 3]))
            tags[kind, i] = [x for j, x in enumerate(s) if all(x[0] != y[0] for y in s[:j])]
        return tags[kind, i]
    ns = [{"id": i, "p": P(), "tags": tg("n", i)} for i in ids]
    es = []
    for _ in range(ne if nn else 0):
        s, t = rng.randrange(nn), rng.randrange(nn)
        mid = [P() for _ in range(rng.choice([0, 0, 0, 1, 2, 4]))]
        i = rng.randint(1, ne + 1)
        ls = [ns[s]["p"], *mid, ns[t]["p"]]
        if rng.random() < .1:
            ls.insert(1, ls[0])
        e = {"id": i, "s": s, "t": t, "ls": ls, "tags": tg("e", i)}
        es.append(e)
        if rng.random() < .4:
            es.append({**e, "s": t, "t": s, "ls": ls[::-1]})
    return {"ns": ns, "es": es}


def removed(rng, net, side, off):
    """adds nodes and edges that are removed again"""
    ns, es = [], []
    at = []
    for n in net["ns"]:
        while rng.random() < .2:
            ns.append({"id": rng.randint(1, 99), "p": [off[0] + rng.randint(0, side), off[1]], "tags": [], "x": True})
        at.append(len(ns))
        ns.append(n)
    if rng.random() < .3:
        ns.append({"id": 5, "p": list(off), "tags": [], "x": True})
    gone = [i for i, n in enumerate(ns) if n.get("x")]

    def extra():
        while ns and rng.random() < .2:
            s, t = rng.randrange(len(ns)), rng.randrange(len(ns))
            es.append({"id": rng.randint(1, 99), "s": s, "t": t, "ls": [ns[s]["p"], ns[t]["p"]], "tags": [], "x": True})
    for e in net["es"]:
        extra()
        es.append({**e, "s": at[e["s"]], "t": at[e["t"]]})
    extra()
    es = [e for e in es if not e.get("x") or not (e["s"] in gone or e["t"] in gone)]
    return {"ns": ns, "es": es}


def queries(rng, net, side, n, off):
    P = lambda: [off[0] + rng.randint(-1, side + 1), off[1] + rng.randint(-1, side + 1)]
    K = lambda: rng.choice([p for e in net["es"] for p in e["ls"]] or [P()]) if rng.random() < .6 else P()

    def box():
        (a, b), (c, d) = K(), rng.choice([K, P])()
        return [min(a, c), min(b, d), max(a, c), max(b, d)]
    Q = [("bounds", [])]
    for _ in range(n):
        q = rng.choice(["pbox", "pnear", "sbox", "sbox", "snear", "snear", "ubox", "qbox", "node", "edge", "pin", "ein", "fit"])
        if q in ("pbox", "sbox", "ubox", "qbox"):
            a = box()
        elif q in ("pnear", "snear"):
            a = P() + [rng.choice([1, 1, 2, 3, 5, 100])]
        elif q in ("node", "edge"):
            l = net["ns"] if q == "node" else net["es"]
            a = [rng.choice(l)["id"] if l and rng.random() < .8 else rng.randint(1, 50)]
        elif q == "fit":
            a = K() + K()
            if net["es"] and rng.random() < .5:
                e = rng.choice(net["es"])["ls"]
                i = rng.randrange(len(e) - 1)
                a = list(e[i]) + list(e[i + 1])
            if a[:2] == a[2:]:
                a[2] += 1
        else:
            a = K()
        Q.append((q, a))
    return Q


def history(rng):
    side = rng.choice([2, 5, 12])
    off = rng.choice([(0, 0), (-6, -6), (100, 40)])
    nn = rng.choice([0, 1, 2, 4, 8, 20])
    net = network(rng, side, nn, rng.choice([0, 1, 3, 8, 20, 40]) if nn < 20 or rng.random() < .5 else 100, off)
    geo = rng.random() < .25
    kinds = rng.choice([(0, 0, 0, 0), (1, 1, 1, 1), [rng.randint(0, 1) for _ in range(4)]])
    Q = queries(rng, net, side, 25, off)
    if rng.random() < .4:
        net = removed(rng, net, side, off)
    return text(net, Q, kinds, geo, rng.choice([4096, 6000, 10000, 65536]))


def everywhere(rng, net, kinds, side=3):
    """all questions of a kind about a small network"""
    R = range(side + 1)
    boxes = [[a, b, c, d] for a in R for b in R for c in R if a <= c for d in R if b <= d]
    q = rng.choice(["pbox", "sbox", "ubox", "qbox", "pnear", "snear", "pin", "ein", "fit", "ids"])
    if q.endswith("box"):
        Q = [(q, b) for b in boxes]
    elif q.endswith("near"):
        Q = [(q, [x, y, k]) for x in R for y in R for k in (1, 2, 9)]
    elif q in ("pin", "ein"):
        Q = [(q, [x, y]) for x in R for y in R]
    elif q == "fit":
        Q = [(q, [a, b, c, d]) for a in R for b in R for c in R for d in R if (a, b) != (c, d)]
        Q = rng.sample(Q, 80)
    else:
        Q = [(k, [i]) for k in ("node", "edge") for i in range(5)] + [("bounds", [])]
    k = kinds
    return text(net, Q, [k["graph"], k["tags"], k["index"], rng.random() < .5], False, rng.choice([4096, 8192, 65536]))
