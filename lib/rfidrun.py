"""Exploration of RFID configurations under one property's monitor."""
from . import core, rfidmon, rfidsys


def play(case, rec, ch, monitor):
    m = getattr(rfidmon, monitor)()
    h = rfidsys.System(case["cfg"], ch, [m])
    h.run()
    if hasattr(m, "afterwards"):
        m.afterwards(h, rec)
    rec.traces += 1
    rec.transitions += h.events
    rec.outcome((case["cfg"], h.n_exchanges, h.now, [
        (r.num_rounds_attained, [(x.round_index, x.read_tid) for x in r.inventory_history])
        for r in h.model.statistics.tags_history]))
    rec.state((h.n_exchanges, h.now, case["cfg"], ch.choices))
    rec.extra["exchanges"] += h.n_exchanges
    if rec.traces % 2000 == 1:
        rec.sample(dict(cfg=case["cfg"], choices=ch.choices, exchanges=h.n_exchanges, end=float(h.now)))
    return h, m


def replay(case, rec, monitor):
    play(case, rec, core.Chooser(case["choices"]), monitor)


def explore_cfgs(cfgs, rec, monitor, bound, limit=None):
    """Every run of every configuration with at most `bound` deviations from
    the default choices."""
    def run_of(cfg):
        def run(ch, r2):
            core.guarded(lambda c, r3: play(c, r3, ch, monitor), dict(cfg=cfg, choices=list(ch.prefix)), r2)
        return run

    def first(cfg, r):
        r.nodes = core.children(run_of(cfg), ([], [], 0), r, bound)

    def rest(item, r):
        cfg, nodes = item
        core.explore_from(run_of(cfg), nodes, r, bound, limit)
    cfgs = list(cfgs)
    found = core.parallel_nodes(first, cfgs, rec)
    if rec.violation:
        return
    items = []
    for cfg, nodes in zip(cfgs, found):
        parts = max(1, min(len(nodes), 24 if bound is None or bound > 1 else len(nodes) // 20 + 1))
        items.append([(cfg, nodes[i::parts]) for i in range(parts) if nodes[i::parts]])
    # taken in turn, so that a run that is cut short has seen all of them
    order = [g[i] for i in range(max(map(len, items), default=0)) for g in items if i < len(g)]
    core.parallel_work(rest, order, rec)


# Realistic scales: the settings of the model where not stated, several
# seconds of model time, many tags, thousands of exchanges.
ROAD = dict(speed=30 / 3.6, initial_distance_to_reader=10.0, travel_distance=20.0, update_interval=0.01,
            reader_power_on_duration=2.0, reader_power_off_duration=0.1, reader_antenna_z=5.0, encoding="M2", q=2, trext=True)


def road_runs(thorough):
    out = []
    for i, (tags, gap, extra) in enumerate((
            (12, 0.31, dict()), (9, 0.12, dict(encoding="M4", q=3, session="S1", target_strategy="switch", rounds_per_target=2)),
            (20, 0.05, dict(q=5, encoding="FM0", speed=20.0)), (6, 0.7, dict(use_query_adjust=True, adjust_delta=0.35, q=4)),
            (8, 0.2, dict(reader_switch_power=False, session="S2", speed=15.0, read_tid_bank=False)),
            (14, 0.09, dict(reader_power_on_duration=0.25, reader_power_off_duration=0.05, session="S3", target_strategy="switch",
                            rounds_per_target=3)))):
        for j in range(6 if thorough else 1):
            s = dict(ROAD, num_tags=tags + 3 * j, **{k: v for k, v in extra.items() if k not in ROAD})
            s.update(extra)
            if j:
                s.update(encoding=("FM0", "M2", "M4", "M8")[(i + j) % 4], trext=j % 2 == 0, q=(s["q"] + j) % 6)
            out.append(dict(settings=s, gen=[gap, gap / 3, 2 * gap], slots="mixed", lossy=(0, 5, 3)[(i + j) % 3], cap=200000))
            if (i + j) % 6 == 0:        # tags whose memories differ in length
                out[-1]["extras"] = [0, 3, 40]
    return out + scale_runs(thorough)


def scale_runs(thorough):
    """A tag that is read over a thousand times, and over a thousand tags."""
    k = 4 if thorough else 1
    parked = dict(ROAD, speed=0.22 / k, initial_distance_to_reader=0.5, travel_distance=1.0, q=0, encoding="FM0", trext=False,
                  update_interval=0.002, tid_word_size=2, target_strategy="switch", rounds_per_target=1, num_tags=1,
                  reader_switch_power=False)
    passing = dict(ROAD, speed=100.0, initial_distance_to_reader=0.5, travel_distance=1.0, q=1, encoding="FM0", trext=False,
                   update_interval=0.004, tid_word_size=4, num_tags=1100 * k, reader_power_on_duration=0.05,
                   reader_power_off_duration=0.002)
    return [dict(settings=parked, gen=[0.01], cap=200000, slots="mixed"),
            dict(settings=passing, gen=[0.005, 0.004], cap=200000, slots="mixed")]
