"""Ground truths, matches and whole comparison programs (C12, C15)."""


def txt(ls):
    return f"{len(ls)} " + " ".join(f"{len(p)} " + " ".join(f"{x} {y}" for x, y in p) for p in ls)


def cfg(rng):
    L = ["kind " + rng.choice("ple")]
    z = rng.random()
    if z < .3:
        u = rng.choice([10, 50, 100])
        L.append(f"unit {u}")
        L.append("set " + rng.choice(["100 100 100 1000 90000", "1000 100 100 1000 45000", "10 10 10 10 170000", "500 1000 500 500 90000",
                                      "100 100 1000 1500 20000"]))
    return L


def path(rng, grid, n, start=None, diag=True):
    ps = [start or rng.choice(grid)]
    while len(ps) < n:
        x, y = ps[-1]
        z = rng.random()
        if z < .06:
            ps.append(ps[-1])
        elif z < .16 and len(ps) > 1:
            ps.append(ps[-2])
        elif z < .7:
            c = [q for q in grid if abs(q[0] - x) + abs(q[1] - y) == 1]
            ps.append(rng.choice(c or grid))
        elif z < .9 or not diag:
            c = [q for q in grid if (q[0] == x) != (q[1] == y)]
            ps.append(rng.choice(c or grid))
        else:
            ps.append(rng.choice(grid))
    return ps


def mutate(rng, grid, ps, diag):
    ps = list(ps)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        z, n = rng.random(), len(ps)
        i = rng.randint(0, n)
        if z < .2 and n > 2:                                  # skip
            j = rng.randint(i, n)
            ps[i:j] = []
        elif z < .4 and 0 < i < n:                            # detour
            ps[i:i] = path(rng, grid, rng.choice([1, 2, 3]), None, diag)
        elif z < .6 and 1 < i:                                # go back and forth
            k = rng.randint(1, min(3, i - 1)) if i > 1 else 0
            back = list(reversed(ps[i - 1 - k:i]))
            ps[i:i] = back[1:] + (list(reversed(back))[1:] if rng.random() < .7 else [])
        elif z < .7:
            ps.reverse()
        elif z < .8 and n > 1:
            ps = ps[i % n:] + ps[:i % n]
        elif z < .9 and n > 1:
            ps[rng.randint(0, n - 1)] = rng.choice(grid)
        else:
            ps = ps + path(rng, grid, rng.choice([1, 2]), ps[-1] if ps else None, diag)
    return ps[:12]


def split(rng, ps):
    """several parts, with or without gaps"""
    ls = [ps]
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.randint(0, len(ls) - 1)
        p = ls[k]
        if len(p) >= 3:
            i = rng.randint(1, len(p) - 2)
            ls[k:k + 1] = [p[:i + 1], p[i + rng.randint(0, 1):]]
    return [p for p in ls if p]


PROGRAM = ["compare/comparator.cpp", "compare/comparator/compare_task.cpp", "compare/comparator/comparator_forwarder_data.cpp",
           "compare/comparator/comparator_forwarder_matches.cpp", "compare/comparator/comparator_forwarder_compares.cpp",
           "io/file_exporter.cpp"]


def program(rng, how=0):
    """the whole program: several ground truths and matches in any order"""
    L = [f"ign {int(rng.random() < .3)}", f"threads {rng.choice([1, 1, 2, 4])}"]
    grid = [(x, y) for x in range(4) for y in range(3)]
    ids = rng.sample(["A", "B", "7", "a,b", 'c"d', "e;f", "A1", "007", "x'y"], rng.randint(1, 5))
    ins = []
    for i in ids:
        a = path(rng, grid, rng.choice([2, 3, 4, 6]))
        b = mutate(rng, grid, a, True)
        z = rng.random()
        if z > .15:
            ins.append(f"gt {i} {txt(split(rng, a))}")
        if z < .8:
            ins.append(f"match {i} {txt(split(rng, b))}")
    if rng.random() < .7:                      # as the program reads them
        ins.sort(key=lambda x: x[0] == "m")
    else:
        rng.shuffle(ins)
    return L + ins + [f"go {how} {rng.choice([0, rng.randint(1, 10 ** 6)])}"]
