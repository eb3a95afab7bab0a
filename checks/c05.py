"""C05: invalid scheduling requests are rejected without any effect."""
from lib import core, simkit
from lib.core import Violation, expect, same

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all programs of at most 3 operations over 3 valid schedulings, a cancel and 26 invalid requests, in "
             "any handlers, compared step by step with a kernel that never saw the invalid requests; every invalid "
             "request on queues of 50 entries",
    "thorough": "the same with at most 4 operations",
}
ASSUMPTIONS = ["delay=None (not documented) and NaN are not requested"]


def _h(sim, *a):
    raise Violation("the handler of a rejected request was run")


class Uncallable:
    pass


BAD_HANDLERS = [("a number", 5), ("a string", "handler"), ("a tuple", (_h,)), ("an object", Uncallable()), ("zero", 0)]
BAD_ARGS = [("a number", 7), ("an object", Uncallable()), ("None", None), ("zero", 0)]
PAST = [-1, -1e-12, -5e-324, float("-inf"), -1e9]


def bad(name, request, wanted):
    """wanted: 'past', 'value', 'type' or a set of them (several defects)."""
    def op(toy, sim):
        from pysim.sim.simulator import SchedulingInPastError
        toy.trace.append("bad:" + name)
        try:
            got = request(sim)
        except SchedulingInPastError:
            kind = "past"
        except ValueError:
            kind = "value"
        except TypeError:
            kind = "type"
        else:
            raise Violation("%s was accepted (returned %r); history: %s" % (name, got, toy.trace))
        expect(kind in wanted, "%s raised the wrong error (%s); history: %s", name, kind, toy.trace)
        same(sim.time, toy.ref.now, "model time after %s" % name)
    op.name = name
    return op


BAD = [bad("schedule(%r)" % d, lambda sim, d=d: sim.schedule(d, _h), ("past",)) for d in PAST]
for d in (0, 1, 0.5):
    BAD.append(bad("schedule(%r, None)" % d, lambda sim, d=d: sim.schedule(d, None), ("value",)))
BAD.append(bad("call(None)", lambda sim: sim.call(None), ("value",)))
for n, h in BAD_HANDLERS:
    BAD.append(bad("schedule(1, %s)" % n, lambda sim, h=h: sim.schedule(1, h), ("type",)))
    BAD.append(bad("call(%s)" % n, lambda sim, h=h: sim.call(h), ("type",)))
for n, a in BAD_ARGS:
    BAD.append(bad("schedule(0, args=%s)" % n, lambda sim, a=a: sim.schedule(0, _h, a), ("type",)))
    BAD.append(bad("call(args=%s)" % n, lambda sim, a=a: sim.call(_h, a), ("type",)))
BAD.append(bad("schedule(-1, None)", lambda sim: sim.schedule(-1, None), ("past", "value")))
BAD.append(bad("schedule(-1, args=number)", lambda sim: sim.schedule(-1, _h, 5), ("past", "type")))
BAD.append(bad("schedule(1, None, number)", lambda sim: sim.schedule(1, None, 5), ("value", "type")))

OPS = [simkit.op_schedule(1), simkit.op_call, simkit.op_schedule(0.5), simkit.op_cancel_nth(0)] + BAD


def every_bad(toy, sim):
    for op in BAD:
        op(toy, sim)


BULK = [simkit.op_bulk([1] * 50), simkit.op_bulk([i % 7 * 0.5 for i in range(50)]), every_bad,
        simkit.op_cancel_every(2, 0), simkit.op_schedule(0)]
BODIES = {"small": None, "bulk": (0, 1, 20, 60)}


def run_case(case, rec, ch):
    ops = OPS if case["alphabet"] == "small" else BULK
    toy = simkit.Toy(ch, rec, ops, case["max_ops"], handler_kinds=6, bodies=BODIES[case["alphabet"]])
    stats, _, _ = toy.run()
    toy.check_all_delivered(stats)
    same(stats.exit_reason.name, "NO_MORE_EVENTS", "exit reason")
    same(stats.sim_time, toy.ref.now, "final clock")
    rec.traces += 1
    rec.outcome(" ".join(t for t in toy.trace if t.startswith(("run", "bad"))))
    if rec.traces % 997 == 1:
        rec.sample(toy.trace[:20])


def replay(case, rec):
    run_case(case, rec, core.Chooser(case["choices"]))


def run(rec):
    n = 4 if rec.thorough else 3
    for alphabet, k in (("small", n), ("bulk", n + 1)):
        core.explore_all(run_case, lambda choices: dict(alphabet=alphabet, max_ops=k, choices=choices), rec, k)
        if rec.violation:
            return
