"""C07: simulations in one process do not influence each other."""
import itertools

from lib import core, iso, rfidsys

from . import c25

LEVEL = "model_checking"
BOUNDS = {
    "quick": "8 simulations (3 toy programs that schedule, cancel, stop, raise and use the context, 2 pingpong, 2 read-time, "
             "2 RFID and 2 RFID models made from the same settings); every order of building and running three of them; every "
             "simulation that differs from another in one of its parameters (79 RFID, 6 pingpong, 30 read-time), before and after it; each "
             "inside the initializer, the finalizer and every handler of each other (built before or there), three nested; "
             "two in threads with every schedule of at most 2 switches between events (toys: 3, three threads: 2), at most "
             "1 switch at every source line of kernel and models (toys, short pingpong and read-time runs; one pair at every "
             "bytecode), at most 1 switch at every function call (RFID); step-by-step journals compared with those of the same simulation "
             "alone in a fresh process",
    "thorough": "one more switch between events; at most 2 switches at every line of two pairs of toys, 1 at "
                "every bytecode of toys, pingpong and read-time runs and at every line of short RFID runs",
}
ASSUMPTIONS = ["log output is not part of the results (simulations of one name share a Python logger)",
               "switches inside one bytecode or inside the standard library do not occur"]
TECHNIQUE = ("stateless model checking of the real code: a controlled scheduler enumerates all interleavings of simulations "
             "(threads, nesting, build and run orders) up to a bound on switches, against the journal of each one alone")

PP = dict(interval=1.0, channel_delay=0.25, service_delay=0.5, loss_prob=0.4, max_pings=6)
TT = dict(probability=(0.6, 0.7, 0.5, 0.8), processing_time=(1.0, 0.5, 0.25, 2.0), max_transmisions=3, chunks_number=2)
RF = dict(settings=dict(num_tags=2, q=1), gen=[0.002])
SPECS = {
    "toy0": dict(kind="toy", variant=0), "toy1": dict(kind="toy", variant=1, limits=dict(max_num_events=9)),
    "toy2": dict(kind="toy", variant=2), "toy3": dict(kind="toy", variant=3, limits=dict(max_sim_time=1.5)),
    "pp0": dict(kind="pingpong", config=PP, seed=1),
    "pp1": dict(kind="pingpong", config=dict(PP, loss_prob=0.1, interval=0.75, max_pings=None), seed=2,
                limits=dict(max_sim_time=7.0)),
    "ppx": dict(kind="pingpong", config=dict(PP, max_pings=2), seed=3),
    "ppy": dict(kind="pingpong", config=dict(PP, max_pings=1, interval=2.0), seed=4),
    "tt1": dict(kind="tag_time", config=dict(TT, scenario=1), seed=5),
    "tt3": dict(kind="tag_time", config=dict(TT, scenario=3, max_transmisions=2), seed=6),
    "ttx": dict(kind="tag_time", config=dict(TT, scenario=3, max_transmisions=1, probability=(0.9,) * 4), seed=7),
    "tty": dict(kind="tag_time", config=dict(TT, scenario=3, max_transmisions=1, chunks_number=3, probability=(0.9,) * 4), seed=8),
    "rf0": dict(kind="rfid", cfg=RF, seed=9, limits=dict(max_num_events=60)),
    "rf1": dict(kind="rfid", cfg=dict(settings=dict(num_tags=3, q=2, encoding="M4", trext=True, dr="DR_643",
                                                    use_query_adjust=True, session="S1", target_strategy="switch",
                                                    rounds_per_target=1, trcal_rtcal_mul=2.9, tari=12.5e-6), gen=[0.001, 0.003]),
                seed=10, limits=dict(max_num_events=70)),
    "rfs": dict(kind="rfid", cfg=dict(settings=dict(num_tags=2, q=0)), share="s", seed=11, limits=dict(max_num_events=50)),
    "rft": dict(kind="rfid", cfg=dict(settings=dict(num_tags=2, q=0)), share="s", seed=12, limits=dict(max_num_events=40)),
    "rfx": dict(kind="rfid", cfg=dict(settings=dict(num_tags=1, q=0, initial_distance_to_reader=0.2), gen=[0.0001]), seed=13,
                limits=dict(max_num_events=14)),
    "rfy": dict(kind="rfid", cfg=dict(settings=dict(num_tags=1, q=1, initial_distance_to_reader=0.2, encoding="M2"),
                                      gen=[0.0001]), seed=14, limits=dict(max_num_events=14)),
    "rfl": dict(kind="rfid", cfg=dict(settings=dict(num_tags=6, q=2, use_query_adjust=True), gen=[0.0005]), seed=15,
                limits=dict(max_num_events=700)),
}
BASE = {}


def variants():
    """For each model a simulation and those that differ from it in one parameter."""
    rf = dict(num_tags=2, q=1, collect_power_statistics=True)
    for name, values in sorted(c25.VALUES.items()):
        if name in rf and name != "q":
            continue
        for i, v in enumerate(values[:2]):
            if v != rfidsys.FAST.get(name):
                yield "rf", "rf-%s-%d" % (name, i), dict(kind="rfid", powers=True, seed=21, limits=dict(max_num_events=60), cfg=dict(
                    settings=dict(rf, **{name: v}), gen=[0.002]))
    for name, values in sorted(c25.OVERRIDES.items()):
        if name == "tid_word_size":
            continue
        yield "rf", "rf+%s" % name, dict(kind="rfid", powers=True, seed=21, limits=dict(max_num_events=60), cfg=dict(
            settings=rf, gen=[0.002], kwargs={name: values[0]}))
    yield "rf", "rf", dict(kind="rfid", powers=True, seed=21, limits=dict(max_num_events=60), cfg=dict(settings=rf, gen=[0.002]))
    yield "pp", "pp", dict(kind="pingpong", config=PP, seed=22)
    for k, v in dict(interval=1.5, channel_delay=0.375, service_delay=0.75, loss_prob=0.7, max_pings=4).items():
        yield "pp", "pp-" + k, dict(kind="pingpong", config=dict(PP, **{k: v}), seed=22)
    for sc in (1, 2, 3):
        tt = dict(TT, scenario=sc)
        yield "tt", "tt%d" % sc + "v", dict(kind="tag_time", config=tt, seed=23)
        for i in range(4):
            yield "tt", "tt%d-p%d" % (sc, i), dict(kind="tag_time", seed=23, config=dict(
                tt, probability=tuple(0.35 if j == i else p for j, p in enumerate(tt["probability"]))))
            yield "tt", "tt%d-t%d" % (sc, i), dict(kind="tag_time", seed=23, config=dict(
                tt, processing_time=tuple(3.0 if j == i else p for j, p in enumerate(tt["processing_time"]))))
        yield "tt", "tt%d-chunks" % sc, dict(kind="tag_time", seed=23, config=dict(tt, chunks_number=4))


FAMILIES = {}
for _f, _n, _s in variants():
    SPECS[_n] = _s
    FAMILIES.setdefault(_f, []).append(_n)


def baselines():
    for name, spec in SPECS.items():
        if name not in BASE:
            BASE[name] = iso.baseline(spec)


def begin(case):
    if not BASE:
        baselines()
    iso.patch()
    iso._settings.clear()
    return [iso.Prog(SPECS[n]) for n in case["progs"]]


def check(case, progs, rec, what):
    if len(case["progs"]) != len(progs):
        raise core.Violation("harness")
    for n, p in zip(case["progs"], progs):
        iso.compare(p, BASE[n], "%s (%s)" % (what, n))
        rec.transitions += p.events
    rec.traces += 1


def orders(case, rec, ch=None):
    """Building and running in some order."""
    progs = begin(case)
    for op, i in case["ops"]:
        getattr(progs[i], op)()
    check(case, progs, rec, "order %s" % " ".join("%s(%s)" % (o, case["progs"][i]) for o, i in case["ops"]))
    rec.state(("order", case["progs"], case["ops"]))
    rec.outcome(("order", case["progs"], case["ops"]))


def nested(case, rec, ch=None):
    """Each program runs inside a handler of the one before."""
    progs = begin(case)
    for i, at in enumerate(case["at"]):
        inner = progs[i + 1]
        if case["early"]:
            inner.build()
            progs[i].inside[at] = inner.run
        else:
            progs[i].inside[at] = inner.whole
    progs[0].whole()
    if any(not p.journal or (len(p.journal) == 1 and p.it is not None and p.sim is None) for p in progs):
        return      # the outer simulation has no such event
    check(case, progs, rec, "one inside event %r of the other" % case["at"])
    rec.state(("nested", case["progs"], case["at"], case["early"]))
    rec.outcome(("nested", case["progs"], case["at"], case["early"]))


def threads(case, rec, ch):
    progs = begin(case)
    b = iso.Baton(progs, ch, case["grain"], iso.repo_prefix(), case["bound"])
    if case["grain"] != "event":
        # caches may change how often functions are called, not the results
        ch.lenient = True
    b.run()
    while len(ch.choices) < len(ch.prefix) and ch.lenient:
        ch.choices.append(0)
        ch.points.append(1)
    rec.extra["switch points"] += b.points
    switches = [i for i, c in enumerate(ch.choices) if c]
    check(case, progs, rec, "threads, switches at %s points %r" % (case["grain"], switches))
    rec.state(("threads", case["progs"], case["grain"], switches, [ch.choices[i] for i in switches]))
    rec.outcome(("threads", case["progs"], case["grain"], switches))
    if rec.traces % 4000 == 1:
        rec.sample(dict(simulations=case["progs"], grain=case["grain"], switches=switches, points=b.points))


def one(case, rec, ch):
    dict(orders=orders, nested=nested, threads=threads)[case["mode"]](case, rec, ch)


def replay(case, rec):
    one(case, rec, core.Chooser(case.get("choices", [])))


def build_orders(n):
    ops = [("build", i) for i in range(n)] + [("run", i) for i in range(n)]
    return [o for o in itertools.permutations(ops)
            if all(o.index(("build", i)) < o.index(("run", i)) for i in range(n))]


def run(rec):
    t = rec.thorough
    baselines()
    for n in SPECS:
        rec.extra["steps of the simulations alone"] += len(BASE[n])
    plain = []
    main = ["toy0", "toy1", "toy2", "toy3", "pp0", "pp1", "tt1", "tt3", "rf0", "rf1", "rfs", "rft"]
    for kind, names in sorted(FAMILIES.items()):
        # simulations that differ in one parameter
        for a, b in itertools.product(names, repeat=2) if t or kind != "rf" else \
                [x for n in names for x in (("rf", n), (n, "rf"))]:
            for o in build_orders(2)[::3 if kind == "rf" and not t else 1]:
                plain.append(dict(mode="orders", progs=[a, b], ops=o))
    for n in SPECS:
        # repetition
        plain.append(dict(mode="orders", progs=[n] * 4, ops=[(o, i) for i in range(4) for o in ("build", "run")]))
    for a, b in itertools.product(main, repeat=2):
        for o in build_orders(2):
            plain.append(dict(mode="orders", progs=[a, b], ops=o))
    for tri in (["toy0", "toy1", "toy2"], ["toy0", "toy0", "toy3"], ["rf0", "rf1", "rf0"], ["rfs", "rft", "rf1"],
                ["pp0", "tt3", "rf0"], ["pp0", "pp1", "pp0"], ["tt1", "tt3", "tt1"], ["toy2", "rf1", "pp1"],
                ["rfx", "rfl", "rfx"]):
        for o in build_orders(3):
            plain.append(dict(mode="orders", progs=tri, ops=o))
    inner = main if t else ["toy0", "toy2", "pp0", "tt3", "rf0", "rfs"]
    for a in main:
        last = sum(1 for x in BASE[a] if x[0] == "event")
        for b in inner:
            spots = list(range(-1, last + 1))
            if not t and b[0] != a[0]:
                spots = spots[:8] + spots[8::9]
            for at in spots:
                plain.append(dict(mode="nested", progs=[a, b], at=[at], early=bool(at % 2)))
        for at in itertools.product((0, 1, 3), (0, 2, 5)):
            plain.append(dict(mode="nested", progs=[a, "toy0", a], at=list(at), early=at[0] == 1))
    core.run_cases(lambda c, r: one(c, r, None), plain, rec)
    if rec.violation:
        return
    plan = []
    toys = ["toy0", "toy1", "toy2", "toy3"]
    for a, b in itertools.product(toys, repeat=2):
        plan.append((dict(progs=[a, b], grain="event"), 3 if t else 2))
        if t or (a == "toy3" or b == "toy3" or a == b == "toy0"):
            plan.append((dict(progs=[a, b], grain="line"), 1))
        if t or (a, b) == ("toy3", "toy0"):
            plan.append((dict(progs=[a, b], grain="opcode"), 1))
    plan.append((dict(progs=["toy0", "toy1"], grain="event"), 3))
    plan.append((dict(progs=["toy0", "toy2", "toy3"], grain="event"), 2))
    for a, b in (("pp0", "pp1"), ("pp1", "pp0"), ("pp0", "pp0"), ("tt1", "tt3"), ("tt3", "tt1"), ("tt3", "tt3"), ("pp0", "tt3"),
                 ("toy0", "pp1"), ("tt1", "toy1")):
        plan.append((dict(progs=[a, b], grain="event"), 2 if t else 1))
    for a, b in (("ppx", "ppy"), ("ppx", "ppx"), ("ttx", "tty"), ("ttx", "ttx"), ("tty", "ppx")):
        plan.append((dict(progs=[a, b], grain="event"), 3 if t else 2))
        if t or a != b:
            plan.append((dict(progs=[a, b], grain="opcode" if t else "line"), 1))
    for a, b in (("rf0", "rf1"), ("rf1", "rf0"), ("rf0", "rf0"), ("rf1", "rf1"), ("rfs", "rft"), ("rf1", "toy0")):
        plan.append((dict(progs=[a, b], grain="event"), 2 if t else 1))
    for a, b in (("rfx", "rfy"), ("rfx", "rfx")):
        plan.append((dict(progs=[a, b], grain="event"), 2))
        if t or a != b:
            plan.append((dict(progs=[a, b], grain="line" if t else "call"), 1))
    if t:
        plan.append((dict(progs=["toy0", "toy3"], grain="line"), 2))
        plan.append((dict(progs=["toy1", "toy0"], grain="line"), 2))

    def run_of(p, bound):
        def go(ch, r):
            core.guarded(lambda c, r2: one(c, r2, ch), dict(p, mode="threads", bound=bound, choices=list(ch.prefix)), r)
        return go

    def first(item, r):
        r.nodes = core.children(run_of(*item), ([], [], 0), r, item[1])
    found = core.parallel_nodes(first, plan, rec)
    if rec.violation:
        return
    items = []
    for (p, bound), nodes in zip(plan, found):
        parts = max(1, len(nodes) // (20 if bound > 1 else 100))
        items.append([(p, bound, nodes[i::parts]) for i in range(parts)])
    order = [g[i] for i in range(max(map(len, items))) for g in items if i < len(g)]
    core.parallel_work(lambda it, r: core.explore_from(run_of(it[0], it[1]), it[2], r, it[1]), order, rec)
