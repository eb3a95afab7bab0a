"""C04: a run ends exactly when a stop condition holds and says which."""
import itertools

from lib import core, env, simkit
from lib.core import expect, same

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all programs of at most 4 operations (schedule 0.5, 1, call, stop x2, 1 s of real time, cancel) in any "
             "handlers, under 75 combinations of event, model-time and real-time limits; self-perpetuating chains "
             "under over 2000 combinations of limits up to 1000 events, and limits and steps of 1e-9 to 1e16; the three models, started by their own run_model, "
             "under 160 combinations of limits and costs each; limits reached after 40000 to 131073 events",
    "thorough": "the same with at most 5 operations, and half a million events",
}
ASSUMPTIONS = ["real time is read through the time module; it never equals a limit other than 0 exactly"]


def op_stop(msg):
    def op(toy, sim):
        toy.trace.append("stop(%s)" % msg)
        sim.stop(msg) if msg else sim.stop()
        toy.stopped.append(msg)
    return op


def op_tick(toy, sim):
    toy.trace.append("tick")
    toy.clock.now += 1.0


OPS = [simkit.op_schedule(1), simkit.op_schedule(0.5), simkit.op_call, op_stop("enough"), op_stop(""), op_tick,
       simkit.op_cancel_nth(0)]


class LimitToy(simkit.Toy):
    """Knows the limits: complains about any event handled too late, and at
    the end about any event not handled that should have been."""

    def __init__(self, ch, rec, ops, max_ops, limits, clock):
        super().__init__(ch, rec, ops, max_ops)
        self.limits, self.clock = limits, clock
        self.t0 = None

    def elapsed(self):
        return self.clock.now - self.t0

    def conditions(self):
        lim = self.limits
        out = set()
        if self.stopped:
            out.add("STOPPED")
        if lim.get("max_num_events") is not None and self.handled >= lim["max_num_events"]:
            out.add("REACHED_EVENTS_LIMIT")
        if lim.get("max_sim_time") is not None and self.ref.now > lim["max_sim_time"]:
            out.add("REACHED_SIM_TIME_LIMIT")
        if lim.get("max_real_time") is not None and self.elapsed() > lim["max_real_time"]:
            out.add("REACHED_REAL_TIME_LIMIT")
        if not self.ref.pending:
            out.add("NO_MORE_EVENTS")
        return out

    def init(self, sim, *a):
        self.t0 = self.clock.now
        super().init(sim, *a)

    def handle(self, sim, n, *a):
        held = self.conditions()
        expect(not held, "event #%r handled although %s held; history: %s", n, sorted(held), self.trace)
        super().handle(sim, n, *a)

    def check_end(self, stats):
        held = self.conditions()
        expect(held, "the run ended (%s) although no stop condition held; history: %s",
               stats.exit_reason, self.trace)
        expect(stats.exit_reason is not None, "no exit reason")
        name = stats.exit_reason.name
        expect(name in held, "exit reason %s, but only %s held; history: %s", name, sorted(held), self.trace)
        if self.stopped:
            expect(name != "NO_MORE_EVENTS", "a requested stop is reported as NO_MORE_EVENTS")
            expect(stats.stop_message in self.stopped, "stop message %r, requested %r",
                   stats.stop_message, self.stopped)
        else:
            expect(not stats.stop_message, "stop message %r without a stop", stats.stop_message)
        same(stats.num_events_processed, self.handled, "number of handled events")
        same(stats.sim_time, self.ref.now, "final clock")


class Chain(LimitToy):
    """Every handler schedules its successor(s), spends real time, and one of
    them may request a stop."""

    def __init__(self, rec, case, clock):
        super().__init__(core.Chooser(), rec, [], 0, case["limits"], clock)
        self.case = case

    def body(self, sim):
        c = self.case
        if self.handled == 0:
            for i in range(c["width"]):
                self.schedule(sim, c.get("first", c["delay"]))
            self.clock.now += max(0.0, c.get("spent", 0.0))
        else:
            self.schedule(sim, c["delay"])
        self.clock.now += c["cost"]
        if self.handled == c["stop_at"]:
            op_stop("stop")(self, sim)
        expect(self.handled < 5000, "the run does not end")
        self.trace = self.trace[-6:]


def build(toy, clock, limits):
    from pysim.sim.simulator import build_simulation, run_simulation
    sim = build_simulation("toy", init=toy.init, **limits)
    clock.now += 100.0      # what happens before the run does not count
    out = run_simulation(sim)
    toy.finished = True
    return out[0]


def run_case(case, rec, ch):
    with env.virtual_clock() as clock:
        if case["kind"] == "chain":
            toy = Chain(rec, case, clock)
        else:
            toy = LimitToy(ch, rec, OPS, case["max_ops"], case["limits"], clock)
        stats = build(toy, clock, case["limits"])
        toy.check_end(stats)
    rec.traces += 1
    rec.outcome((stats.exit_reason.name, toy.handled, toy.ref.now))
    if rec.traces % 997 == 1:
        rec.sample([case["limits"], toy.trace[-20:], stats.exit_reason.name])


def run_chain(case, rec):
    run_case(case, rec, None)


# ---- the models' own entry points ----------------------------------------
def entry(model, log=None):
    """Starts a small run under given limits."""
    from pysim.sim.logger import ModelLoggerConfig
    log = log or ModelLoggerConfig()
    if model == "pingpong":
        from pysim.models.pingpong import cli, objects
        cfg = objects.Config(interval=1.0, channel_delay=0.25, service_delay=0.5, loss_prob=0.0, max_pings=10)
        return lambda **k: cli.run_model(cfg, log, **k)
    if model == "tag_time":
        from pysim.models.tag_time import cli, objects
        cfg = objects.Config(probability=(1.0,) * 4, processing_time=(1.0, 0.5, 0.25, 2.0), max_transmisions=6, chunks_number=2,
                             scenario=3)
        return lambda **k: cli.run_model(cfg, log, **k)
    from lib import rfidsys
    from pysim.models.rfid import configurator
    settings = rfidsys.settings_of(dict(settings=dict(num_tags=1, q=0), gen=[0.001]))[0]
    return lambda **k: configurator.run_model(configurator.create_model(settings), log, **k)


def handled(model, limits, cost):
    """Model times of the events handled."""
    from pysim.sim import simulator
    S = simulator.Simulator
    times = []
    with env.virtual_clock() as clock:
        def wrapped(handler):
            if getattr(handler, "counted", False):
                return handler

            def run_handler(sim, *a, **k):
                times.append(float(sim.time))
                clock.now += cost
                return handler(sim, *a, **k)
            run_handler.counted = True
            return run_handler
        schedule, call = S.schedule, S.call
        S.schedule = lambda self, delay, handler, *a, **k: schedule(self, delay, wrapped(handler), *a, **k)
        S.call = lambda self, handler, *a, **k: call(self, wrapped(handler), *a, **k)
        n = [0]

        def integer(lo, hi):
            n[0] += 1
            return lo + n[0] % (hi - lo)
        try:
            with env.draws(env.Draws(unit=lambda: 0.5, integer=integer)):
                entry(model)(**{k: v for k, v in limits.items() if v is not None})
        finally:
            S.schedule, S.call = schedule, call
    return times


def run_entry(case, rec):
    whole = handled(case["model"], {}, case["cost"])
    expect(10 < len(whole) < 5000, "%d events in the whole run", len(whole))
    end = whole[-1]
    limits = dict(max_num_events=case["num"], max_sim_time=None if case["sim"] is None else case["sim"] * end,
                  max_real_time=case["real"] if not case["real"] else (int(case["real"] * len(whole)) + 0.5) * case["cost"])
    got = handled(case["model"], limits, case["cost"])
    ends = [len(whole)]
    if case["num"] is not None:
        ends.append(case["num"])
    if limits["max_sim_time"] is not None:
        ends += [i + 1 for i, t in enumerate(whole) if t > limits["max_sim_time"]][:1]
    if limits["max_real_time"] is not None:
        ends += [i + 1 for i in range(len(whole)) if (i + 1) * case["cost"] > limits["max_real_time"]][:1]
    same(got, whole[:min(ends)], "events handled by run_model of %s under %s" % (case["model"], limits))
    rec.traces += 1
    rec.transitions += len(got)
    rec.outcome((case["model"], len(got)))


def run_long(case, rec):
    """A limit reached after very many events."""
    toy = simkit.Long(case, rec)
    stats = toy.run(**{k: v for k, v in case["limits"].items() if v is not None})
    num, sim = case["limits"]["max_num_events"], case["limits"]["max_sim_time"]
    if num is not None:
        same((toy.done, stats.exit_reason.name), (num, "REACHED_EVENTS_LIMIT"), "events and exit reason under %s" % case)
    else:
        same(stats.exit_reason.name, "REACHED_SIM_TIME_LIMIT", "exit reason under %s" % case)
        expect(stats.sim_time > sim and toy.before <= sim, "the run ended at %r after %r under %s", stats.sim_time,
               toy.before, case)


def replay(case, rec):
    if case["kind"] == "long":
        return run_long(case, rec)
    if case["kind"] == "entry":
        return run_entry(case, rec)
    run_case(case, rec, core.Chooser(case.get("choices", [])))


def run(rec):
    n = 5 if rec.thorough else 4
    for num, sim, real in itertools.product((None, 0, 1, 2, 3), (None, 0, 0.5, 0.75, 1), (None, 0, 1.5)):
        limits = dict(max_num_events=num, max_sim_time=sim, max_real_time=real)
        core.explore_all(run_case, lambda choices: dict(kind="program", max_ops=n, limits=limits, choices=choices),
                         rec, n)
        if rec.violation:
            return
    cases = []
    for num, sim, real, stop, delay, width in itertools.product(
            (None, 1, 7, 33, 100, 1000), (None, 0, 3, 3.25, 49.5), (None, 0, 2.05, 9.95), (-1, 0, 5, 40),
            (0, 0.5, 1), (1, 3)):
        if num is None and stop < 0 and real is None and (sim is None or not delay):
            continue
        cases.append(dict(kind="chain", limits=dict(max_num_events=num, max_sim_time=sim, max_real_time=real),
                          stop_at=stop, delay=delay, width=width, cost=0.1))
    # limits and steps of every size: the run ends with the first event after the limit
    for sim in (1e-9, 1e-3, 1.0, 1e5, 1e9, 1e15, 2.0 ** 53):
        for k in (1, 3, 1000, 1 << 20, 1 << 30, 1 << 40, 1 << 50):
            if sim / k > 0 and sim + sim / k > sim:
                cases.append(dict(kind="chain", limits=dict(max_num_events=50, max_sim_time=sim, max_real_time=None),
                                  stop_at=-1, delay=sim / k, first=sim, width=1, cost=0.1))
    for real in (1e-6, 1.05, 1e4, 1e8):
        for k in (1, 3, 1000, 1 << 20):
            cases.append(dict(kind="chain", limits=dict(max_num_events=50, max_sim_time=None, max_real_time=real),
                              stop_at=-1, delay=1, width=1, cost=real / k, spent=real * (1 - 3.5 / k)))
    core.run_cases(run_chain, cases, rec)
    rec.extra["chains"] = len(cases)
    if rec.violation:
        return
    cases = [dict(kind="entry", model=m, num=num, sim=sim, real=real, cost=cost) for m in ("pingpong", "tag_time", "rfid")
             for cost in (2.0 ** -7, 2.0 ** -17) for num in (None, 1, 2, 7, 15) for sim in (None, 0.03, 0.4, 0.9) for real in (None, 0, 0.05, 0.3, 0.8)]
    core.run_cases(run_entry, cases, rec)
    if rec.violation:
        return
    n = 1 << 19 if rec.thorough else 1 << 17
    core.run_cases(run_long, [dict(kind="long", shape=s, n=2 * n, limits=dict(max_num_events=num, max_sim_time=sim))
                              for s in ("chain", "timers", "bursts")
                              for num, sim in ((n + 1, None), (n - 1, None), (40000, None), (None, 30000.25))
                              if not (s == "bursts" and sim)], rec)
