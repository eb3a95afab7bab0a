"""C01: order and due times of events."""
from lib import core, simkit

LEVEL = "model_checking"
BOUNDS = {
    "quick": "every program with at most 4 operations (in any handlers) over 4 delays, call and cancel; at most 3 "
             "over 10 delays, call and cancel; at most 2 over bulk scheduling of 40 to 150 events in handlers 0, 1 "
             "and 30; 1 over bulk scheduling of 300 to 1200 events; "
             "four runs of 140000 events (one pending at a time, all pending, restarted timers, bursts)",
    "thorough": "as quick, with at most 5, 4, 3 and 2 operations, and a million events",
}
ASSUMPTIONS = ["delays are finite or infinite non-negative numbers; NaN is not scheduled"]

TINY = 2.0 ** -40
SMALL = [simkit.op_schedule(1), simkit.op_schedule(0), simkit.op_call,
         simkit.op_schedule(2), simkit.op_schedule(0.5), simkit.op_schedule(0.1),
         simkit.op_cancel_nth(0)]
MORE = SMALL + [simkit.op_schedule(1.0), simkit.op_schedule(0.30000000000000004), simkit.op_schedule(TINY),
                simkit.op_schedule(1e12), simkit.op_schedule(1e-9), simkit.op_schedule(float("inf"))]
BULK = [simkit.op_bulk([1] * 48), simkit.op_bulk([0] * 48), simkit.op_bulk(list(range(64, 0, -1))),
        simkit.op_bulk([(i * 37 % 50) * 0.5 for i in range(150)]), simkit.op_bulk([i * 0.1 for i in range(60)]),
        simkit.op_bulk([0.3, 0.1 + 0.2, 0.1, 0.2, 3 * 0.1] * 12),
        simkit.op_bulk([0.5, 0] * 40), simkit.op_bulk([1e9 + 0.25, 1e9, 1e-7, 0] * 10),
        simkit.op_cancel_every(3, 0), simkit.op_call, simkit.op_schedule(1), simkit.op_schedule(0.5),
        simkit.op_schedule(25)]
HUGE = [simkit.op_bulk([1] * 1200), simkit.op_bulk([(i * 7919 % 997) * 0.25 for i in range(1200)]),
        simkit.op_bulk([0] * 300)]
ALPHA = {"small": SMALL, "more": MORE, "bulk": BULK, "huge": HUGE}
BODIES = {"small": None, "more": None, "bulk": (0, 1, 30), "huge": (0, 1, 1100)}


def run_case(case, rec, ch):
    ops = ALPHA[case["alphabet"]]
    toy = simkit.Toy(ch, rec, ops, case["max_ops"], handler_kinds=6, bodies=BODIES[case["alphabet"]])
    stats, _, _ = toy.run()
    toy.check_all_delivered(stats)
    core.same(stats.sim_time, toy.ref.now, "final clock")
    rec.traces += 1
    rec.outcome(" ".join(t for t in toy.trace if t.startswith("run")))
    if toy.used == case["max_ops"] and rec.traces % 97 == 0:
        rec.sample(toy.trace[:20])


def replay(case, rec):
    if case.get("long"):
        return simkit.long_run(case, rec)
    run_case(case, rec, core.Chooser(case["choices"]))


def run(rec):
    plan = [("small", 4), ("more", 3), ("bulk", 2), ("huge", 1)]
    if rec.thorough:
        plan = [("small", 5), ("more", 4), ("bulk", 3), ("huge", 2)]
    for alphabet, max_ops in plan:
        core.explore_all(run_case, lambda choices: dict(alphabet=alphabet, max_ops=max_ops, choices=choices),
                         rec, max_ops)
        if rec.violation:
            return
    core.run_cases(simkit.long_run, simkit.long_cases(rec), rec)
