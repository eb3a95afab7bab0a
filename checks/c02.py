"""C02: every event is delivered exactly once, with its own arguments."""
from lib import core, simkit

LEVEL = "model_checking"
BOUNDS = {
    "quick": "every program with at most 4 operations (in any handlers) over 3 delays, call and 5 kinds of cancel; "
             "at most 3 over bulk scheduling of 40 to 150 events and bulk cancelling in handlers 0, 1 and 30; at most 4 over events equal to each other "
             "(same handler, arguments and time); arguments in 16 kinds of iterable; the same under an event limit and a time limit; four runs of 140000 events "
             "(one pending at a time, all pending, restarted timers, bursts)",
    "thorough": "as quick, with at most 5 and 4 operations, and a million events",
}
ASSUMPTIONS = ["argument iterables are not modified between scheduling and delivery"]

SMALL = [simkit.op_schedule(1), simkit.op_schedule(0), simkit.op_call,
         simkit.op_schedule(0.5), simkit.op_cancel_nth(0), simkit.op_cancel_nth(1),
         simkit.op_cancel_nth(-1), simkit.op_cancel_current, simkit.op_cancel_due]
BULK = [simkit.op_bulk([1] * 48), simkit.op_bulk([0] * 40), simkit.op_bulk(list(range(64, 0, -1))),
        simkit.op_bulk([(i * 37 % 50) * 0.5 for i in range(150)]),
        simkit.op_cancel_every(1, 0), simkit.op_cancel_every(2, 0), simkit.op_cancel_every(3, 1),
        simkit.op_cancel_every(1, 20), simkit.op_cancel_foreign, simkit.op_cancel_nth(-1), simkit.op_cancel_nth(-40),
        simkit.op_cancel_due, simkit.op_schedule(1)]
TWINS = [simkit.op_twin(1), simkit.op_twin(0), simkit.op_twin(0.5), simkit.op_schedule(1),
         simkit.op_cancel_nth(0), simkit.op_cancel_nth(-1), simkit.op_cancel_nth(-2), simkit.op_cancel_due]
ALPHA = {"small": SMALL, "bulk": BULK, "twins": TWINS}
BODIES = {"small": None, "bulk": (0, 1, 30), "twins": None}


def run_case(case, rec, ch):
    ops = ALPHA[case["alphabet"]]
    toy = simkit.Toy(ch, rec, ops, case["max_ops"], handler_kinds=16, bodies=BODIES[case["alphabet"]])
    toy.on_body_end = simkit.op_cancel_foreign if case["alphabet"] != "bulk" else None
    stats, _, _ = toy.run(**case["limits"])
    if not case["limits"]:
        toy.check_all_delivered(stats)
    core.same(stats.num_events_processed, toy.handled, "number of delivered events")
    rec.traces += 1
    rec.outcome(" ".join(t for t in toy.trace if t.startswith("run")))
    if toy.used == case["max_ops"] and rec.traces % 97 == 0:
        rec.sample(toy.trace[:20])


def replay(case, rec):
    if case.get("long"):
        return simkit.long_run(case, rec)
    run_case(case, rec, core.Chooser(case["choices"]))


def run(rec):
    t = 1 if rec.thorough else 0
    plan = [("small", 4 + t, {}), ("small", 3, dict(max_num_events=2)), ("small", 3, dict(max_sim_time=0.75)),
            ("bulk", 2 + t, {}), ("twins", 4 + t, {})]
    for alphabet, max_ops, limits in plan:
        core.explore_all(run_case, lambda choices: dict(alphabet=alphabet, max_ops=max_ops, limits=limits,
                                                        choices=choices), rec, max_ops)
        if rec.violation:
            return
    core.run_cases(simkit.long_run, simkit.long_cases(rec), rec)
