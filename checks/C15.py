#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mbv, netgen as ng, matchgen as mg, comparegen as cg
from concurrent.futures import ThreadPoolExecutor
os.environ["TSAN_OPTIONS"] = "halt_on_error=1"
LIBS = ("-lboost_serialization", "-lboost_thread", "-lpthread")
TSAN = ["-fsanitize=thread", "-g"]


def from_model(e):
    op = {"B": "B {0}", "P": "P {0}", "S": "S {0}", "F": "F {0} {1}", "X": "X", "J": "J"}
    return "\n".join([f"cfg {e['w']} {e['q']}"] + [op[o].format(k, int(k in e["fail"])) for o, k in e["seen"]]) + "\n"


def free(rng):
    w = rng.randint(1, 8)
    return (f"cfg {w} {rng.choice([1, 1, 2, 4, 2 * w, 16])} {int(rng.random() < .3)}\n"
            f"free {rng.choice([0, 1, 2, 3, 5, 20, 60])} {rng.choice([0, 1, 3, 20])} {rng.choice([0, 0, 1, 20])} {rng.choice([0, rng.randint(1, 10 ** 6)])}\n")


def run(c):
    with ThreadPoolExecutor(4) as ex:
        b = ex.submit(c.build, "coordinator", ["coordinator.cpp"], extra=TSAN, libs=LIBS)
        b2 = ex.submit(c.build, "coordinator-plain", ["coordinator.cpp"], libs=LIBS)
        m = ex.submit(c.build, "matchall", ["matchall.cpp"], repo_sources=ng.SRC + MATCHER, extra=TSAN, libs=LIBS)
        p = ex.submit(c.build, "compareall", ["compareall.cpp"], repo_sources=ng.SRC + cg.PROGRAM, extra=TSAN, libs=LIBS)
        b, b2, m, p = b.result(), b2.result(), m.result(), p.result()
    c.say("drivers built")
    k = 1 if not c.thorough else 10
    c.model_check("CoordinatorMC", "CoordinatorMC.cfg" if not c.thorough else "CoordinatorMC_thorough.cfg", timeout=600,
                  require_actions=("PIn", "PQueue", "PStop", "CPull", "CGive", "CLeave", "WStart", "WFinish", "PJoin", "CAsk", "CAgain", "CNone"))
    c.model_breaks("CoordinatorMC", "CoordinatorMC_lost.cfg", "asking for an empty queue first")
    out = c.model_check("CoordinatorGen", "CoordinatorGen.cfg" if not c.thorough else "CoordinatorGen_thorough.cfg", timeout=600,
                        args=("-seed", str(c.seed)))
    scripts = list(dict.fromkeys(from_model(e) for e in c.emitted(out)))
    c.say(f"{len(scripts)} schedules of the model")
    res = c.decide("CoordinatorTrace", b, scripts, name="schedules", timeout=300, once=True)
    c.decide("CoordinatorTrace", b, [free(c.rng) for _ in range(400 * k)], name="free runs", timeout=300, once=True)
    c.decide("CoordinatorTrace", b2, scripts + [free(c.rng) for _ in range(2000 * k)], name="schedules and free runs, not slowed down", timeout=300, once=True)
    c.decide("CoordinatorTrace", m, [mg.program_history(c.rng) for _ in range(400 * k)], name="matching programs", timeout=600, once=True)
    c.decide("CompareTrace", p, ["\n".join(cg.program(c.rng, int(c.rng.random() < .3))) + "\n" for _ in range(300 * k)], name="comparison programs", timeout=600, once=True)
    if not c.violations:
        r = next(r for r in res if r and r[1] == "ok" and any(x.get("op") == "done" for x in r[0]))

        def corrupt(evs):
            return [x for x in evs if x.get("op") != "done"]
        c.binding_demo("CoordinatorTrace", r[0], corrupt)
    c.assumptions += ["one producer, at least one worker, a queue of at least one task, as the programs use it; tasks are those queued before the stop",
                      "the model's schedules order what can be seen from outside; steps within the queue are scheduled by the machine (under ThreadSanitizer and without)"]


MATCHER = ["util/time_helper.cpp", "matching/matcher/match_task.cpp", "io/file_exporter.cpp"]
mbv.main("C15", run)
