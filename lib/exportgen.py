"""OpenStreetMap data of a small world and options of the program prepare (C19)."""
import json
import osmgen as og, srstable
KEYS = ["highway", "oneway", "junction", "name", "a"]


def text(rng, items, o, mapped, size):
    lon, lat = srstable.WORLDS[o["w"]]
    placed = [dict(x, p=[lon[x["p"][0]], lat[x["p"][1]]]) if x["k"] == "n" else x for x in items]
    L = []
    cut = rng.randint(0, len(items)) if rng.random() < .2 else len(items)
    for part in [placed[:cut], placed[cut:]] if cut < len(items) else [placed]:
        f = rng.choice(["opl", "osm"]) if part else "osm"
        L.append("file " + ("osm.opl" if f == "opl" else "osm"))
        L += ["text " + s for s in og.write(rng, part, f)]
    A = ["--simplify", o["simplify"], "--initial-file-size", str(size), "--memory-mapping", mapped[0]]
    for name, k in (("--remove-unconnected", "rc"), ("--remove-duplicate-nodes", "rdn"), ("--remove-duplicate-edges", "rde")):
        if o[k] or rng.random() < .3:
            A += [name, "on" if o[k] else "off"]
    if len(mapped) > 1:
        A += ["--memory-mapped-preparation", mapped[1]]
    if o["code"] >= 0:
        A += ["--transform-srs", str(o["code"])]
    if o["type"]:
        A += ["--transform-srs-type", o["type"]]
    if o["srs"]:
        A += ["--srs", "4326"]
    if o["stype"]:
        A += ["--srs-type", o["stype"]]
    metres = o["code"] in (3857, 25832) or (o["code"] < 0 and o["type"] == "cartesian")
    return "\n".join(L + ["items " + json.dumps(items), "world " + json.dumps(o)] + ["arg " + a for a in A] + [f"prepare {'metres' if metres else 'degrees'}"]) + "\n"


def options(rng, **k):
    code, typ = rng.choice([(-1, "")] * 3 + [(3857, ""), (3857, "cartesian"), (3857, ""), (-1, "cartesian"), (25832, ""), (25832, "cartesian"), (4326, ""),
                                             (4326, "spherical-equatorial"), (-1, "geographic"), (-1, "spherical-equatorial")])
    o = {"w": "near" if code == 25832 or rng.random() < .5 else "wide", "code": code, "type": typ, "srs": rng.random() < .3,
         "stype": rng.choice(["", "", "", "geographic", "spherical-equatorial"]) if rng.random() < .5 else "",
         "simplify": "none", "rc": False, "rdn": False, "rde": False}
    u = rng.random()
    if u < .25:
        o["simplify"] = rng.choice(["all", "osm-aware"])
    elif u < .4:
        o["rc"] = True
    elif u < .55:
        o["rde"] = True
    elif u < .8:
        o.update(simplify=rng.choice(["all", "osm-aware", "none"]), rc=rng.random() < .5, rde=rng.random() < .5)
    o["rdn"] = rng.random() < .2
    o.update(k)
    return o


def memory(rng):
    return rng.choice([("on",), ("off",), ("on", "off"), ("off", "on")]), rng.choice([16384, 65536, 1000000])


def placed(rng, items, o):
    return text(rng, items, o, *memory(rng))


def of_model(rng, items):
    return placed(rng, items, options(rng))


def history(rng):
    nn = rng.choice([2, 3, 5, 8])
    spots = rng.sample([(i, j) for i in range(8) for j in range(8)], nn)
    ids = rng.sample(range(0 if rng.random() < .3 else 1, rng.choice([nn + 1, 10 ** 6])), nn)
    if rng.random() < .7:
        ids.sort()
    items = [{"k": "n", "id": i, "vis": True, "p": list(p), "tags": og.tags(rng, ["name", "a", "b"], rng.choice([0, 0, 1, 2])), "refs": []} for i, p in zip(ids, spots)]
    wid, last = rng.sample(range(1, 1000), 12), []
    for _ in range(rng.choice([1, 2, 4, 6])):
        refs = [rng.choice(ids) for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5]))]
        if rng.random() < .7:
            refs = [r for i, r in enumerate(refs) if i == 0 or refs[i - 1] != r]
        if rng.random() < .1:
            refs.insert(rng.randint(0, len(refs)), 10 ** 7)
        t = og.tags(rng, KEYS, rng.choice([0, 1, 2, 3]))
        if last and rng.random() < .3:
            refs, t = list(last[0]), list(last[1]) if rng.random() < .7 else t
            if rng.random() < .7:
                refs.reverse()
        if rng.random() < .9 and all(k != "highway" for k, _ in t):
            t.insert(rng.randint(0, len(t)), ["highway", rng.choice(["motorway", "primary", "residential", "residential"])])
        last = (refs, t)
        items.append({"k": "w", "id": wid.pop(), "vis": True, "p": [0, 0], "tags": t, "refs": refs})
    return placed(rng, items, options(rng))
