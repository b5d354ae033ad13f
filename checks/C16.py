#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, netgen as ng, tracksgen as tg
LIBS = ("-lboost_serialization", "-lboost_thread", "-lpthread")
SOURCES = ["io/importer.cpp", "io/csv_importer.cpp", "geometry/srs.cpp", "geometry/algorithm/reproject.cpp", "util/time_helper.cpp"]


def run(c):
    b = c.build("tracks", ["tracks.cpp"], repo_sources=ng.SRC + SOURCES, extra=["-fsanitize=address"], libs=LIBS)
    c.say("driver built")
    k = 1 if not c.thorough else 12
    out = c.model_check("TracksMC", "TracksMC.cfg" if not c.thorough else "TracksMC_thorough.cfg", timeout=600, require_actions=("Read", "End"))
    cases = c.emitted(out)
    scripts = ["\n".join(tg.csv(c.rng, e["rows"], e["g"])) + "\n" for e in cases]
    c.say(f"{len(scripts)} files of the model")
    res = c.decide("TracksTrace", b, scripts, name="files of the model", timeout=300)
    c.decide("TracksTrace", b, ["\n".join(tg.csv(c.rng)) + "\n" for _ in range(3000 * k)], name="delimited text", timeout=600)
    c.decide("TracksTrace", b, ["\n".join(tg.inp(c.rng)) + "\n" for _ in range(400 * k)], name="standard input", timeout=300)
    c.decide("TracksTrace", b, ["\n".join(tg.gpx(c.rng)) + "\n" for _ in range(500 * k)], name="GPX", timeout=300)
    c.decide("TracksTrace", b, ["\n".join(tg.edges(c.rng)) + "\n" for _ in range(600 * k)], name="lists of edges", timeout=300)
    if not c.violations:
        r = next(r for r in res if r and r[1] == "ok" and any(x.get("op") == "csv" and x["got"] for x in r[0]))

        def corrupt(evs):
            for x in evs:
                if x.get("op") == "csv" and x["got"]:
                    x["got"][0]["ls"][0][0] = [99, 99]
            return evs
        c.binding_demo("TracksTrace", r[0], corrupt)
    c.assumptions += ["the reader of delimited text and of GPX are stand-ins (/verif/stubs), the real ones are not installed",
                      "either all rows of a file have times or none; times are valid, after 1970, with at most milliseconds",
                      "grouped reading is judged for files whose rows are grouped by identifier, as its option says"]


mbv.main("C16", run)
