"""Files of OpenStreetMap data and filters, with what they say."""
import json
from xml.sax.saxutils import quoteattr
KEYS = ["highway", "oneway", "junction", "access", "name", "a", "b"]
VALS = {"highway": ["motorway", "primary", "footway", "construction", "path", "residential", "steps", "cycleway"], "oneway": ["yes", "true", "1", "-1", "reverse", "no"],
        "junction": ["roundabout", "circular"], "access": ["no", "private", "yes"], "name": ["A 1", "ü", "x=y", "", "a,b"], "a": ["1", "2", "1=2"], "b": ["1", "2"]}


def tag(rng, keys):
    k = rng.choice(keys)
    return [k, rng.choice(VALS[k])]


def tags(rng, keys, n):
    r = []
    for _ in range(n):
        t = tag(rng, keys)
        if all(t[0] != x[0] for x in r):
            r.append(t)
    return r


def rule(rng, keys):
    k, v = tag(rng, keys)
    hv = rng.random() < .65 and not set(v) & set(",|") and v != ""
    return {"r": rng.random() < .5, "k": k, "hv": hv, "v": v if hv else ""}


def filt(rng, keys, d=None, n=None):
    return {"d": rng.random() < .5 if d is None else d, "rules": [rule(rng, keys) for _ in range(rng.choice([0, 1, 2, 3, 6]) if n is None else n)]}


def text_of(f):
    b = lambda x: "true" if x else "false"
    return "|".join([b(f["d"])] + [f"{b(r['r'])},{r['k']}" + (f"={r['v']}" if r["hv"] else "") for r in f["rules"]])


def opl(s):
    return "".join(c if c.isalnum() and ord(c) < 128 or c in "-_." else f"%{ord(c):x}%" for c in s)


def write(rng, items, f):
    """an .opl or .osm file of items"""
    v = lambda x: "V" if x["vis"] else "D"
    if f == "opl":
        L = []
        for x in items:
            t = ",".join(f"{opl(k)}={opl(w)}" for k, w in x["tags"])
            if x["k"] == "n":
                L.append(f"n{x['id']} v1 d{v(x)} T{t}" + (f" x{x['p'][0]} y{x['p'][1]}" if x["vis"] else ""))
            else:
                L.append(f"w{x['id']} v1 d{v(x)} T{t} N{','.join('n' + str(i) for i in x['refs'])}")
        return L
    L = ['<?xml version="1.0" encoding="UTF-8"?>', '<osm version="0.6">']
    for x in items:
        vis = "" if x["vis"] else ' visible="false"'
        t = "".join(f"<tag k={quoteattr(k)} v={quoteattr(w)}/>" for k, w in x["tags"])
        if x["k"] == "n":
            L.append(f'<node id="{x["id"]}" version="1"{vis} lat="{x["p"][1]}" lon="{x["p"][0]}">{t}</node>')
        else:
            L.append(f'<way id="{x["id"]}" version="1"{vis}>' + "".join(f'<nd ref="{i}"/>' for i in x["refs"]) + t + "</way>")
    return L + ["</osm>"]


def script(rng, items, cfg, car=False):
    L = []
    nf = rng.choice([1, 1, 1, 2, 3])
    cuts = [0] + sorted(rng.randint(0, len(items)) for _ in range(nf - 1)) + [len(items)]
    for a, b in zip(cuts, cuts[1:]):
        f = rng.choice(["opl", "osm"]) if any(True for _ in items[a:b]) else "osm"
        L.append("file " + ("osm.opl" if f == "opl" else "osm"))
        L += ["text " + s for s in write(rng, items[a:b], f)]
    # a visible attribute is heeded in both kinds of files
    L += ["items " + json.dumps(items), "cfg " + json.dumps(cfg or {})]
    if not car:
        L += ["rule " + text_of(cfg[k]) for k in "qfor"]
    kind = rng.choice([0, 0, 0, 1, 1, 2, 3])
    return "\n".join(L + [f"import {int(car)} {kind} {rng.choice([8192, 16384, 65536])}"]) + "\n"


def history(rng):
    car = rng.random() < .4
    keys = KEYS[:5] if car else rng.choice([KEYS, KEYS[5:], KEYS[:2] + KEYS[5:]])
    few = lambda d: filt(rng, keys, d, rng.choice([0, 0, 1, 2]))
    cfg = None if car else {"q": filt(rng, keys), "f": few(rng.random() < .8), "o": filt(rng, keys, False), "r": filt(rng, keys, rng.random() < .1)}
    nn = rng.choice([2, 4, 8, 20])
    ids = rng.sample(range(1, rng.choice([nn, 3 * nn, 10 ** 9]) + 1), nn)
    if rng.random() < .6:
        ids.sort()
    items = [{"k": "n", "id": i, "vis": rng.random() < .95, "p": [rng.randint(-179, 179), rng.randint(-89, 89)],
              "tags": tags(rng, keys, rng.choice([0, 0, 1, 2])), "refs": []} for i in ids]
    if rng.random() < .2:
        items.append(dict(rng.choice(items), p=[0, 0], vis=True))
    wid = rng.sample(range(1, 1000), 12)
    for _ in range(rng.choice([0, 1, 3, 8])):
        refs = [rng.choice(ids + ([10 ** 9 + 1] if rng.random() < .2 else [])) for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4, 6, 10]))]
        t = tags(rng, keys, rng.choice([0, 1, 1, 2, 3, 5]))
        if car and rng.random() < .8 and all(k != "highway" for k, _ in t):
            t.insert(rng.randint(0, len(t)), ["highway", rng.choice(VALS["highway"])])
        w = {"k": "w", "id": rng.choice(wid[:6]) if rng.random() < .2 else wid.pop(), "vis": rng.random() < .95, "p": [0, 0], "tags": t, "refs": refs}
        items.append(w)
    if rng.random() < .15:
        rng.shuffle(items)
    return script(rng, items, cfg, car)


def pattern(rng):
    s = []
    if rng.random() < .6:                                  # nearly right
        b = lambda: rng.choice(["true", "false"])
        s = [b()]
        for _ in range(rng.randint(0, 3)):
            s += ["|", b(), ",", rng.choice(["a", "b c", "true"])] + (["=", rng.choice(["1", "x y"])] if rng.random() < .6 else [])
        for _ in range(rng.choice([0, 0, 1, 2])):
            i = rng.randrange(len(s))
            s[i:i + rng.choice([0, 1])] = rng.choice([[], ["|"], [","], ["="], ["a"], ["true"]])
            s = s or ["true"]
    else:
        s = [rng.choice(["true", "false", "|", ",", "=", "a", "1", "TRUE"]) for _ in range(rng.randint(1, 7))]
    return f"pattern {json.dumps(s)}\t{''.join(s)}\n"
