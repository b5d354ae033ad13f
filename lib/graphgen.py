"""Histories for C01/C02: transitions of GraphMC's state graph, and long random walks."""
import os, json
from concurrent.futures import ThreadPoolExecutor

LISTK, VECK = ["dir", "bi", "und"], ["vdir", "vbi", "vund"]


def model(c, maxv, maxe, maxlen, kinds):
    def one(k):
        cfg = os.path.join(c.tmp, f"GraphMC-{k}.cfg")
        with open(cfg, "w") as f:
            f.write(f"""SPECIFICATION Spec
CONSTANTS MaxV = {maxv} MaxE = {maxe} MaxLen = {maxlen} TheKinds = {{"{k}"}}
INVARIANT Inv
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
""")
        out = c.model_check("GraphMC", cfg, workers=1, heap="4g", timeout=700)
        return c.emitted(out)
    with ThreadPoolExecutor(6) as ex:
        return dict(zip(kinds, ex.map(one, kinds)))


def script(h, quiet_prefix=True, tail=()):
    lines = []
    for i, call in enumerate(h):
        call = [str(x) for x in call]
        if quiet_prefix and 0 < i < len(h) - 1:
            call[0] = "~" + call[0]
        lines.append(" ".join(call))
    lines.extend(tail)
    return "\n".join(lines) + "\n"


def walk(rng, kind, n, maxv=6, bake=False, dump=False):
    """long random history (legal by the model's enabling conditions)."""
    out = [f"new {kind}"]
    V, E, nv, ne = [], {}, 0, 0
    idx = True
    rem = kind in LISTK
    for _ in range(n):
        ops = ["av"] * 2 if len(V) < maxv else []
        if V:
            ops += ["ae"] * 5 + ["aef"] * 1 + ["avf"] + ["eq"]
            if rem:
                ops += ["rv", "rb", "cv"]
                if E:
                    ops += ["re"] * 3
        if rem:
            ops += ["ri"]
        if idx:
            ops += ["cp", "as"] + (["dump"] * 4 if dump else ["bake"] * 3 if bake else ["bake"])
        op = rng.choice(ops)
        if op == "av":
            nv += 1; V.append(nv); out.append("av")
        elif op == "avf":
            # a list vertex is one allocation: the first one fails; vectors may not allocate at all
            if rem:
                out.append("avf 1")
        elif op == "ae":
            s, t = rng.choice(V), rng.choice(V)
            ne += 1; E[ne] = (s, t); out.append(f"ae {s} {t}")
        elif op == "aef":
            s, t = rng.choice(V), rng.choice(V)
            # number of list allocations: edge + out (+ in | + reverse out unless loop)
            cnt = 2 + (1 if kind == "bi" else 0) + (1 if kind == "und" and s != t else 0)
            if rem:
                out.append(f"aef {s} {t} {rng.randint(1, cnt)}")
        elif op == "eq":
            out.append(f"eq {rng.choice(V)} {rng.choice(V)}")
        elif op == "rv":
            v = rng.choice(V)
            inc = [e for e, (s, t) in E.items() if s == v or t == v]
            if kind == "dir" and any(t == v and s != v for s, t in E.values()):
                continue
            out.append(f"rv {v}")
            if not inc:
                V.remove(v); idx = False
        elif op == "re":
            e = rng.choice(list(E)); del E[e]; out.append(f"re {e}"); idx = False
        elif op == "rb":
            s, t = (rng.choice(list(E.values())) if E and rng.random() < .7 else (rng.choice(V), rng.choice(V)))
            E = {e: x for e, x in E.items() if x != (s, t)}
            out.append(f"rb {s} {t}"); idx = False
        elif op == "cv":
            v = rng.choice(V)
            E = {e: x for e, x in E.items() if v not in x}
            out.append(f"cv {v}"); idx = False
        elif op == "ri":
            out.append("ri"); idx = True
        elif op in ("cp", "as", "bake", "dump"):
            out.append(op)
    if rem:
        out.append("ri")
    out.append("dump" if dump else "bake")
    return "\n".join(out) + "\n"
