"""Writes spec/SrsTable.tla: positions on the globe and where reference systems put them, from the definitions of the projections
(EPSG 3857: spherical Mercator; EPSG 25832: transverse Mercator on GRS80, Krueger's series)."""
import math, os
WORLDS = {"wide": ([-120.25, -70.5, -10, 0.5, 9.25, 11, 11.01, 150], [-33.25, -1, 0.5, 20, 48, 50, 50.01, 70]),
          "near": ([6.5, 8, 9, 9.25, 10, 11, 11.01, 11.75], [47, 48, 48.001, 49.5, 50, 50.01, 52, 54.25])}
A = 6378137.0


def mercator(lon, lat):
    return A * math.radians(lon), A * math.log(math.tan(math.pi / 4 + math.radians(lat) / 2))


def utm(lon, lat, lon0=9.0):
    f = 1 / 298.257222101
    n = f / (2 - f)
    al = [n / 2 - 2 * n**2 / 3 + 5 * n**3 / 16 + 41 * n**4 / 180, 13 * n**2 / 48 - 3 * n**3 / 5 + 557 * n**4 / 1440,
          61 * n**3 / 240 - 103 * n**4 / 140, 49561 * n**4 / 161280]
    a = A / (1 + n) * (1 + n**2 / 4 + n**4 / 64)
    p, l = math.radians(lat), math.radians(lon - lon0)
    e = 2 * math.sqrt(n) / (1 + n)
    t = math.sinh(math.atanh(math.sin(p)) - e * math.atanh(e * math.sin(p)))
    xi, eta = math.atan2(t, math.cos(l)), math.atanh(math.sin(l) / math.sqrt(1 + t * t))
    x = xi + sum(c * math.sin(2 * (j + 1) * xi) * math.cosh(2 * (j + 1) * eta) for j, c in enumerate(al))
    y = eta + sum(c * math.cos(2 * (j + 1) * xi) * math.sinh(2 * (j + 1) * eta) for j, c in enumerate(al))
    return 500000 + 0.9996 * a * y, 0.9996 * a * x


def table(f, world, scale=1):
    lon, lat = WORLDS[world]
    return "<<" + ",\n     ".join("<<" + ", ".join("<<%d, %d>>" % tuple(round(v * scale) for v in f(x, y)) for y in lat) + ">>" for x in lon) + ">>"


def text():
    L = ["----------------------------- MODULE SrsTable -----------------------------",
         "EXTENDS Integers",
         "(* Written by lib/srstable.py: Place[w][system][i + 1][j + 1] is where position (i, j) of world w is: 'deg' in millionths of a degree,",
         "   'merc' (EPSG 3857) and 'utm' (EPSG 25832) in metres. *)", "Place =="]
    rows = []
    for w in WORLDS:
        s = {"deg": table(lambda x, y: (x, y), w, 1e6), "merc": table(mercator, w)}
        if w == "near":
            s["utm"] = table(utm, w)
        rows.append(f"{w} |->\n  [" + ",\n   ".join(f"{k} |->\n    {v}" for k, v in s.items()) + "]")
    return "\n".join(L) + "\n [" + ",\n  ".join(rows) + "]\n" + "=" * 77 + "\n"


if __name__ == "__main__":
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "SrsTable.tla"), "w").write(text())
