#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, netgen as ng, exportgen as eg, srstable
LIBS = ("-lboost_serialization", "-lboost_program_options", "-lboost_thread", "-lpthread", "-lexpat", "-lz", "-lbz2", "-llz4")
SOURCES = ["io/importer.cpp", "io/file_exporter.cpp", "geometry/srs.cpp", "geometry/algorithm/reproject.cpp"]
os.environ["ASAN_OPTIONS"] = "detect_leaks=0"


def run(c):
    if open(os.path.join(mbv.VERIF, "spec", "SrsTable.tla")).read() != srstable.text():
        raise mbv.CheckError("spec/SrsTable.tla is not what lib/srstable.py writes")
    app = os.path.join(mbv.REPO, "src", "app")
    b = c.build("prep", ["prep.cpp", "app_prepare.cpp", "app_network.cpp", "app_options.cpp", "app_general.cpp"],
                repo_sources=ng.SRC + SOURCES, opt="-O0", extra=["-fsanitize=address", f"-I{app}/include", f"-I{app}/src"], libs=LIBS)
    c.say("program built")
    k = 1 if not c.thorough else 12
    out = c.model_check("ExportMC", "ExportMC.cfg" if not c.thorough else "ExportMC_thorough.cfg", timeout=600, require_actions=("Write", "Skip"), args=("-seed", str(c.seed)))
    c.model_breaks("ExportMC", "ExportMC_careless.cfg", "not looking at the tags of opposite roads", args=("-seed", str(c.seed)))
    cases = c.emitted(out)
    cases = c.rng.sample(cases, min(len(cases), 600 * k))
    res = c.decide("ExportTrace", b, [eg.of_model(c.rng, e["items"]) for e in cases], name="networks of the model", timeout=400)
    c.decide("ExportTrace", b, [eg.history(c.rng) for _ in range(1400 * k)], name="networks prepared and exported", timeout=600 * k)
    if not c.violations:
        r = next(r for r in res if r and r[1] == "ok" and any(x.get("op") == "prepared" and x["osm"]["ws"] for x in r[0]))

        def corrupt(evs):
            for x in evs:
                if x.get("op") == "prepared" and x["osm"]["ws"]:
                    x["osm"]["ws"].pop()
            return evs
        c.binding_demo("ExportTrace", r[0], corrupt)
    c.assumptions += ["positions are those of two small worlds; systems EPSG 4326, 3857 and 25832; the input is in EPSG 4326",
                      "no two nodes lie at the same position (an exported file identifies nodes by their positions)",
                      "several kinds of processing at once are judged by what they have in common, each on its own exactly"]


mbv.main("C19", run)
