#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, graphgen as gg, netgen as ng, storedgen as sg
from concurrent.futures import ThreadPoolExecutor
APP = [f"-I{mbv.REPO}/src/app/include", f"-I{mbv.REPO}/src/app/src"]


def run(c):
    ex = ThreadPoolExecutor(1)
    graphs = ex.submit(c.build, "graph", ["graph.cpp"], ["io/importer.cpp"], extra=["-fsanitize=address", "-DMM2V_STORE"], libs=("-lboost_serialization",))
    b = c.build("stored", ["stored_cart.cpp", "stored_geo.cpp", "stored_open.cpp", "stored.cpp", "app_options.cpp", "app_general.cpp"],
                repo_sources=ng.SRC + ["geometry/srs.cpp", "geometry/algorithm/reproject.cpp", "io/importer.cpp"],
                extra=["-fsanitize=address", *APP],
                libs=("-lboost_serialization", "-lboost_program_options", "-lboost_thread", "-lpthread"))
    c.say("driver built")
    k = 1 if not c.thorough else 12
    out = c.model_check("StoredMC", "StoredMC.cfg" if not c.thorough else "StoredMC_thorough.cfg", timeout=600,
                        require_actions=("Create", "Compress", "Build", "Save", "Close", "Open", "Load"), args=("-seed", str(c.seed)))
    cases = c.emitted(out)
    cases = c.rng.sample(cases, min(len(cases), 350 * k))
    res = c.decide("StoredTrace", b, [sg.everywhere(c.rng, e, e["kinds"]) for e in cases], name="networks of the model", timeout=400)
    c.decide("StoredTrace", b, [sg.history(c.rng) for _ in range(700 * k)], name="networks", timeout=600)
    c.decide("GraphTrace", graphs.result(), [gg.walk(c.rng, kind, 40, maxv=9, dump=True) for kind in gg.LISTK + gg.VECK for _ in range(60 * k)],
             name="graphs", timeout=300)
    if not c.violations:
        r = next(r for r in res if r and r[1] == "ok" and r[0][-1]["r"]["after"]["es"])

        def corrupt(evs):
            evs[-1]["r"]["after"]["es"].pop()
            return evs
        c.binding_demo("StoredTrace", r[0], corrupt)
    c.assumptions += ["coordinates are whole numbers; on the globe, queries of segments are compared before and after only",
                      "storing of unordered_flat_map, which the installed Boost lacks, is a stand-in with the layout of later versions"]


mbv.main("C17", run)
