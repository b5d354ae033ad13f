#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, netgen as ng, osmgen as og
LIBS = ("-lboost_serialization", "-lboost_thread", "-lpthread", "-lexpat", "-lz", "-lbz2", "-llz4")
SOURCES = ["io/importer.cpp", "geometry/srs.cpp", "geometry/algorithm/reproject.cpp"]


def run(c):
    b = c.build("osm", ["osm.cpp"], repo_sources=ng.SRC + SOURCES, extra=["-fsanitize=address"], libs=LIBS)
    c.say("driver built")
    k = 1 if not c.thorough else 12
    out = c.model_check("OsmMC", "OsmMC.cfg" if not c.thorough else "OsmMC_thorough.cfg", timeout=600, require_actions=("Take",), args=("-seed", str(c.seed)))
    cases = c.emitted(out)
    cases = c.rng.sample(cases, min(len(cases), 1200 * k))
    res = c.decide("OsmTrace", b, [og.script(c.rng, e["items"], e["cfg"]) for e in cases], name="files of the model", timeout=300)
    c.decide("OsmTrace", b, [og.history(c.rng) for _ in range(1500 * k)], name="OpenStreetMap files", timeout=600)
    c.decide("OsmTrace", b, ["".join(og.pattern(c.rng) for _ in range(10)) for _ in range(200 * k)], name="language of filters", timeout=300)
    if not c.violations:
        r = next(r for r in res if r and r[1] == "ok" and any(x.get("op") == "osm" and x["got"]["edges"] for x in r[0]))

        def corrupt(evs):
            for x in evs:
                if x.get("op") == "osm" and x["got"]["edges"]:
                    x["got"]["edges"].pop()
            return evs
        c.binding_demo("OsmTrace", r[0], corrupt)
    c.assumptions += ["coordinates are whole degrees and not transformed; nodes that are there have a location",
                      "files are read with the real libosmium (OPL and XML), no relations"]


mbv.main("C06", run)
