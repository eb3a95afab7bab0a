"""C06: a run initialises once, finalises once and returns true results."""
import itertools

from lib import core, simkit
from lib.core import Violation, expect, same

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all programs of at most 3 operations (3 schedulings, cancel, stop, replace the context, raise) in any "
             "handlers x 6 initial contexts x 5 ways to pass arguments to the initializer x 7 finalizers x 4 limits; at most 4 operations for four of these combinations; "
             "eight runs of 65537 to 131072 events; every pair of runs with debug mode asked for, refused or not "
             "mentioned x 0 to 3 events x 2 ways to run",
    "thorough": "the same with at most 4 operations, and half a million events",
}
ASSUMPTIONS = []


class Ctx:
    pass


class FalsyCtx:
    def __bool__(self):
        return False


class Boom(Exception):
    pass


class StopBoom(StopAsyncIteration):
    pass


CONTEXTS = ["none", "dict", "empty", "object", "falsy", "zero"]
ARGS = ["default", "tuple", "list", "iterator", "dict"]
FINS = ["none", "value", "none-value", "falsy-object", "replaces", "schedules", "raises"]
LIMITS = [{}, dict(max_num_events=1), dict(max_sim_time=0.5), dict(max_num_events=0)]


def op_stop(toy, sim):
    toy.trace.append("stop")
    sim.stop("done")


def op_context(toy, sim):
    toy.ctx = [Ctx(), FalsyCtx(), {}, {"k": toy.used}][toy.used % 4]
    toy.trace.append("context := %s" % type(toy.ctx).__name__)
    sim.context = toy.ctx


def op_raise(toy, sim):
    toy.trace.append("raise")
    toy.boom = [Boom("model"), KeyError("k"), StopBoom("x")][toy.used % 3]
    raise toy.boom


OPS = [simkit.op_schedule(1), simkit.op_call, simkit.op_schedule(0.25), simkit.op_cancel_nth(0), op_stop, op_context,
       op_raise]


class ResultToy(simkit.Toy):
    def __init__(self, ch, rec, case):
        super().__init__(ch, rec, OPS, case["max_ops"], handler_kinds=6)
        self.case = case
        self.inits = self.fins = 0
        self.boom = None
        self.ctx = {"none": None, "dict": {"a": 1}, "empty": {}, "object": Ctx(), "falsy": FalsyCtx(),
                    "zero": 0}[case["ctx"]]
        self.last = None
        self.fin_value = None
        self.handlers = {}

    def make_handler(self, n, kind):
        h, a = super().make_handler(n, kind)
        self.handlers[n] = h
        return h, a

    def check_context(self, sim, when):
        if self.ctx is None and self.inits == 1 and self.handled == 0:
            expect(type(sim.context) is dict and not sim.context, "context %s: %r", when, sim.context)
            self.ctx = sim.context
        expect(sim.context is self.ctx, "context %s: %r, expected %r", when, sim.context, self.ctx)

    def init(self, sim, *args):
        self.inits += 1
        same(self.inits, 1, "calls of the initializer")
        same(self.handled, 0, "events handled before the initializer")
        same(args, {"default": (), "dict": ("x", "y")}.get(self.case["args"], (1, "two", None)),
             "arguments of the initializer")
        self.check_context(sim, "in the initializer")
        super().init(sim)
        self.check_context(sim, "at the end of the initializer")

    def handle(self, sim, n, *a):
        same(self.inits, 1, "calls of the initializer before the first event")
        same(self.fins, 0, "calls of the finalizer before the last event")
        self.check_context(sim, "in a handler")
        self.last = self.handlers[n]
        super().handle(sim, n, *a)

    def finalize(self, sim):
        self.fins += 1
        same(self.fins, 1, "calls of the finalizer")
        self.check_context(sim, "in the finalizer")
        same(sim.time, self.ref.now, "model time in the finalizer")
        kind = self.case["fin"]
        self.trace.append("finalizer")
        if kind == "value":
            self.fin_value = Ctx()
        elif kind == "falsy-object":
            self.fin_value = FalsyCtx()
        elif kind == "replaces":
            sim.context = self.ctx = Ctx()
            self.fin_value = 0
        elif kind == "schedules":
            sim.schedule(1, self.late)
            sim.call(self.late)
            self.fin_value = ()
        elif kind == "raises":
            self.boom = Boom("finalizer")
            raise self.boom
        return self.fin_value

    def late(self, *a):
        raise Violation("an event was handled after the finalizer")


class FalsyFinalizer:
    def __init__(self, toy):
        self.toy = toy

    def __len__(self):
        return 0

    def __call__(self, sim):
        return self.toy.finalize(sim)


def init_args(kind):
    return {"default": None, "tuple": (1, "two", None), "list": [1, "two", None], "iterator": iter((1, "two", None)),
            "dict": {"x": 1, "y": 2}}[kind]


def second_run(toy):
    """A later run without a context gets an empty dictionary of its own."""
    from pysim.sim.simulator import build_simulation, run_simulation
    if isinstance(toy.ctx, dict):
        toy.ctx["left by the first run"] = 1
    seen = []

    def init(sim):
        seen.append(sim.context)
        expect(type(sim.context) is dict and not sim.context, "context of a later run: %r", sim.context)
    _, ctx, _ = run_simulation(build_simulation("toy", init=init))
    expect(ctx is seen[0] and ctx is not toy.ctx, "the context of a later run is that of an earlier one")


def run_case(case, rec, ch):
    from pysim.sim.simulator import build_simulation, run_simulation
    toy = ResultToy(ch, rec, case)
    kw = dict(init=toy.init, **case["limits"])
    if case["args"] != "default":
        kw["init_args"] = init_args(case["args"])
    if case["ctx"] != "none":
        kw["context"] = toy.ctx
    if case["fin"] != "none":
        kw["fin"] = FalsyFinalizer(toy) if case["fin"] == "falsy-object" else toy.finalize
    it = build_simulation("toy", **kw)
    same(toy.inits, 0, "calls of the initializer before a result is requested")
    results, raised = [], None
    try:
        if case["via"] == "iterate":
            for r in it:
                results.append(r)
                expect(len(results) == 1, "more than one result")
        else:
            results = [run_simulation(it)]
    except Violation:
        raise
    except Exception as e:
        raised = e
    toy.finished = True
    rec.traces += 1
    same(toy.inits, 1, "calls of the initializer")
    rec.outcome(" ".join(toy.trace))
    if case["ctx"] == "none":
        second_run(toy)
    if toy.boom is not None:
        expect(raised is toy.boom, "the model raised %r, the caller got %r", toy.boom, raised)
        return
    if raised is not None:
        raise raised
    same(len(results), 1, "number of results")
    stats, ctx, fin = results[0]
    same(toy.fins, 0 if case["fin"] == "none" else 1, "calls of the finalizer")
    expect(ctx is toy.ctx, "context of the result: %r, expected %r", ctx, toy.ctx)
    expect(fin is toy.fin_value, "finalizer value of the result: %r, expected %r", fin, toy.fin_value)
    same(stats.num_events_processed, toy.handled, "number of handled events")
    same(stats.sim_time, toy.ref.now, "final clock")
    if toy.last is not None:
        expect(stats.last_handler is toy.last or stats.last_handler == toy.last,
               "last handler: %r, expected %r", stats.last_handler, toy.last)
    if rec.traces % 4999 == 1:
        rec.sample([case["ctx"], case["args"], case["fin"], toy.trace])
    if list(it):
        raise Violation("another result after the first")


def long_run(case, rec):
    """Results of runs of very many events."""
    from pysim.sim.simulator import build_simulation, run_simulation
    toy, ctx, made = simkit.Long(case, rec), Ctx(), []

    def fin(sim):
        made.append((toy.done, sim.time))
        return made
    stats, got, value = run_simulation(build_simulation("toy", init=toy.init, fin=fin, context=ctx, **case["limits"]))
    expect(got is ctx and value is made, "context %r and finalizer value %r", got, value)
    same(made, [(toy.done, toy.now)], "events and clock when the finalizer ran")
    same((stats.num_events_processed, stats.sim_time), (toy.done, toy.now), "number of events and final clock")
    same(toy.done, case["limits"].get("max_num_events", toy.done), "number of events")
    same(stats.last_handler, toy.handle, "last handler")
    rec.traces += 1
    rec.outcome((case["shape"], toy.done))


def debug_mode(case, rec):
    """A run asked to be in debug mode is, from the initializer to the finalizer, and no other run is."""
    import pysim.sim.simulator as module
    kernels, seen = [], []
    own = module.Kernel.__init__

    def made(self, *a, **kw):
        own(self, *a, **kw)
        kernels.append(self)

    def look(*_):
        seen.append(bool(kernels[-1].debug))

    def init(sim):
        look()
        for i in range(case["events"]):
            sim.schedule(i, look)
    module.Kernel.__init__ = made
    try:
        for wanted in case["runs"]:
            del seen[:]
            kw = {} if wanted is None else dict(debug=wanted)
            if case["via"] == "kernel":
                kernel = module.Kernel("toy")
                kernel.set_initializer(init)
                kernel.set_finalizer(look)
                it = kernel.build_runner(**kw)
            else:
                it = module.build_simulation("toy", init=init, fin=look, **kw)
            stats, _, _ = module.run_simulation(it)
            same(stats.num_events_processed, case["events"], "number of events")
            same(seen, [bool(wanted)] * (case["events"] + 2), "debug mode in the initializer, handlers and finalizer")
            rec.transitions += len(seen)
    finally:
        module.Kernel.__init__ = own
    rec.traces += 1
    rec.outcome(("debug", case["via"], case["events"], tuple(case["runs"])))


def replay(case, rec):
    if "runs" in case:
        return debug_mode(case, rec)
    if "shape" in case:
        return long_run(case, rec)
    run_case(case, rec, core.Chooser(case["choices"]))


def search(item, rec):
    ctx, args, fin, limits, via, n = item

    def make(choices):
        return dict(ctx=ctx, args=args, fin=fin, limits=limits, via=via, max_ops=n, choices=choices)
    core.explore(lambda ch, r: core.guarded(lambda c, r2: run_case(c, r2, ch), make(list(ch.prefix)), r), rec, n)


def run(rec):
    n = 4 if rec.thorough else 3
    items = []
    for i, (ctx, args, fin, limits) in enumerate(itertools.product(CONTEXTS, ARGS, FINS, LIMITS)):
        items.append((ctx, args, fin, limits, "iterate" if i % 2 else "run", n))
    # deeper programs for a few of them
    items += [(ctx, "tuple", fin, {}, "run", n + 1) for ctx in ("none", "falsy") for fin in ("value", "replaces")]
    core.parallel_work(search, items, rec)
    if rec.violation:
        return
    core.run_cases(debug_mode, [dict(via=via, events=n, runs=list(runs)) for via in ("builder", "kernel")
                                for n in range(4) for runs in itertools.product((None, False, True), repeat=2)], rec)
    n = 1 << 19 if rec.thorough else 1 << 17
    core.run_cases(long_run, [dict(shape=s, n=n, limits=limits) for s in simkit.SHAPES
                              for limits in ({}, dict(max_num_events=n // 2 + 1))], rec)
