"""Lattice networks, tracks and search settings for C13/C14/C18."""


def dedup(p):
    out = []
    for q in p:
        if not out or out[-1] != q:
            out.append(q)
    return out


def geometry(rng, a, b, w):
    """axis parallel from a to b"""
    r = rng.random()
    if a == b:
        if r < .2:
            return [a, b]                             # no extent
        k, m = rng.choice([-2, -1, 1, 2]), rng.choice([-2, -1, 1, 2])
        return [a, (a[0] + k, a[1]), (a[0] + k, a[1] + m), (a[0], a[1] + m), a]
    if r < .45:
        p = dedup([a, (b[0], a[1]), b])
    elif r < .9:
        p = dedup([a, (a[0], b[1]), b])
    else:
        x, y = rng.randint(0, w), rng.randint(0, w)
        p = dedup([a, (x, a[1]), (x, y), (b[0], y), b])
    if rng.random() < .08:                            # a long, winding road
        z = []
        for u, v in zip(p, p[1:]):
            z.append(u)
            if abs(u[0] - v[0]) + abs(u[1] - v[1]) > 1 and rng.random() < .8:
                du = ((v[0] > u[0]) - (v[0] < u[0]), (v[1] > u[1]) - (v[1] < u[1]))
                no, q = (du[1], du[0]), (u[0] + du[0], u[1] + du[1])
                z.append(q)
                for _ in range(rng.choice([1, 2, 4, 5, 6])):
                    h = rng.choice([-2, -1, 1, 2])
                    z += [(q[0] + h * no[0], q[1] + h * no[1]), q]
        p = z + [p[-1]]
    if rng.random() < .25:                            # further points along the road
        q = []
        for u, v in zip(p, p[1:]):
            q.append(u)
            n = abs(u[0] - v[0]) + abs(u[1] - v[1])
            if n > 1 and rng.random() < .6:
                k = rng.randint(1, n - 1)
                q.append((u[0] + (v[0] - u[0]) * k // n, u[1] + (v[1] - u[1]) * k // n))
        p = q + [p[-1]]
    return p


def network(rng, w=8, nn=None, nr=None, flat=True, oneway=.35):
    nn = nn or rng.randint(2, 6)
    nr = nr if nr is not None else rng.randint(1, 6)
    ns = []
    while len(ns) < nn:
        p = (rng.randint(0, w), rng.randint(0, w))
        if p not in ns or (flat and rng.random() < .05):
            ns.append(p)
    es = []
    for k in range(nr):
        a = rng.randrange(nn)
        b = rng.randrange(nn) if rng.random() < .1 or not es else rng.randrange(nn)
        if a == b and rng.random() < .6:
            b = (a + 1) % nn
        p = geometry(rng, ns[a], ns[b], w)
        if not flat and p[0] == p[-1] and len(p) == 2:
            continue
        es.append((a + 1, b + 1, p))
        if rng.random() >= oneway:
            es.append((b + 1, a + 1, p[::-1]))
    rng.shuffle(es)
    return ns, es


def net_line(net):
    ns, es = net
    pt = lambda q: f"{q[0]} {q[1]}"
    return (f"net {len(ns)} " + " ".join(map(pt, ns)) + f" {len(es)} " +
            " ".join(f"{s} {t} {len(p)} " + " ".join(map(pt, p)) for s, t, p in es))


def track(rng, w=8, n=None, straight=True, net=None, repeat=.1):
    n = n or rng.choice([1, 2, 2, 3, 3, 4, 5])
    lo, hi = -1, w + 1
    out = [(rng.randint(lo, hi), rng.randint(lo, hi))]
    for _ in range(n - 1):
        x, y = out[-1]
        r = rng.random()
        if r < repeat:
            out.append((x, y))
        elif straight:
            out.append((rng.randint(lo, hi), y) if rng.random() < .5 else (x, rng.randint(lo, hi)))
        else:
            out.append((rng.randint(lo, hi), rng.randint(lo, hi)))
    return out


def settings(rng, kind=None, adopt=True):
    kind = rng.randrange(4) if kind is None else kind
    k = rng.choice([1, 1, 1, 2, 3]) if kind == 3 else rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 16])
    r = rng.choice([1, 1, 2, 3, 4, 5, 8])
    lo = rng.choice([0, 1, 1, 2, r, r])
    lo = min(lo, r)
    hi = rng.choice([r, r + 1, 2 * r, 2 * r + 1, 4 * r, 20])
    hi = max(hi, r)
    ad = rng.random() < .6
    if adopt is False:
        si = ne = re = 0
    else:
        si, ne, re = int(rng.random() < .5), int(rng.random() < .5), int(rng.random() < .4)
    return dict(kind=kind, k=k, r=r, lo=lo, hi=hi, ad=int(ad), si=si, ne=ne, re=re)


def settings_words(s):
    return f"{s['kind']} {s['k']} {s['r']} {s['lo']} {s['hi']} {s['ad']} {s['si']} {s['ne']} {s['re']}"


def pts(p):
    return f"{len(p)} " + " ".join(f"{x} {y}" for x, y in p)


def search_line(s, t):
    return "search " + settings_words(s) + " " + pts(t)


def match_line(rng, s, t, model=None):
    model = rng.randrange(3) if model is None else model
    f2 = rng.choice([-1, 20, 20, 4, 3, 2])
    return (f"match {model} {int(rng.random() < .5)} {int(rng.random() < .7)} {int(rng.random() < .3)} {f2} {int(rng.random() < .6)} "
            + settings_words(s) + " " + pts(t))


def match_history(rng, big=False):
    net = network(rng, w=12, nn=rng.randint(5, 8), nr=rng.randint(5, 8), flat=False, oneway=.3) if big else \
        network(rng, nn=rng.randint(2, 5), nr=rng.randint(1, 5), flat=False)
    L = [net_line(net)]
    for _ in range(rng.choice([1, 2, 2])):
        s = settings(rng)
        s["k"] = min(s["k"], 3)
        s["r"], s["lo"], s["hi"] = min(s["r"], 3), min(s["lo"], 3), min(s["hi"], 8)
        L.append(match_line(rng, s, track(rng, w=12 if big else 8, n=rng.randint(1, 4), straight=bool(s["ad"]), repeat=.25)))
    return "\n".join(L) + "\n"


def _searched(rng, big):
    net = network(rng, w=12, nn=rng.randint(6, 9), nr=rng.randint(6, 10), flat=False, oneway=.3) if big else \
        network(rng, nn=rng.randint(2, 5), nr=rng.randint(1, 5), flat=False)
    L = [net_line(net)]

    def search():
        s = settings(rng)
        s["k"] = min(s["k"], 5)
        t = track(rng, w=12 if big else 8, n=rng.randint(2, 4), straight=bool(s["ad"]))
        L.append(search_line(s, t))
        return t
    return L, search


def route_history(rng, big=False):
    L, search = _searched(rng, big)
    for _ in range(rng.choice([1, 1, 2])):            # the same router for several tracks
        t = search()
        astar, turns = rng.random() < .3, rng.random() < .5
        lim = rng.choice([[-1], [20], [2, 20], [1, 2, 3, 4], [2, 3, -1], [0, 2]])
        for _ in range(rng.randint(4, 14)):
            if rng.random() < .2:
                astar, turns = rng.random() < .5, rng.random() < .5
            f = rng.randrange(len(t) - 1)
            g = f + 1 if rng.random() < .8 else rng.randrange(len(t))
            L.append(f"route {f} {rng.randrange(30)} {g} {rng.randrange(30)} {int(turns)} {int(astar)} {rng.choice(lim)}")
    return "\n".join(L) + "\n"


def join_history(rng, big=False):
    L, search = _searched(rng, big)
    for _ in range(rng.choice([1, 1, 2])):
        t = search()
        for _ in range(rng.randint(1, 6)):
            ch = []
            for p in range(len(t)):
                if ch and rng.random() < .2:
                    ch.append(ch[-1])                 # given up
                else:
                    ch.append((p, rng.randrange(30)))
            if rng.random() < .1:
                ch = ch[:rng.randrange(len(ch) + 1)]
            L.append(f"join {int(rng.random() < .5)} {int(rng.random() < .7)} {int(rng.random() < .3)} {rng.choice([-1, 20, 4, 2])} {len(ch)} " +
                     " ".join(f"{p} {x}" for p, x in ch))
    return "\n".join(L) + "\n"


def program_history(rng):
    net = network(rng, nn=rng.randint(2, 5), nr=rng.randint(1, 5), flat=False)
    s = settings(rng)
    s["k"], s["r"], s["lo"], s["hi"] = min(s["k"], 3), min(s["r"], 3), min(s["lo"], 3), min(s["hi"], 8)
    L = [net_line(net), f"threads {rng.choice([1, 1, 2, 3, 4, 8])}", match_line(rng, s, []).rsplit(" 0", 1)[0]]
    ids = ["A", "B", "7", "a,b", 'c"d', "A1", "007"]
    for _ in range(rng.choice([0, 1, 2, 4, 6, 12])):
        ls = [track(rng, n=rng.randint(1, 4), straight=bool(s["ad"]), repeat=.25) for _ in range(rng.choice([1, 1, 2, 3]))]
        L.append(f"track {rng.choice(ids)} {len(ls)} " + " ".join(pts(t) for t in ls))
    if rng.random() < .2:                        # tracks without points
        L.insert(rng.randint(3, len(L)), rng.choice(["track E 0 ", "track F 1 0"]))
    return "\n".join(L + [f"go {int(rng.random() < .2)} {rng.choice([0, rng.randint(1, 10 ** 6), rng.randint(1, 10 ** 6)])}"]) + "\n"
