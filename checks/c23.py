"""C23: read statistics against what happened on the air."""
import itertools

from lib import rfidrun

LEVEL = "model_checking"
BOUNDS = {
    "quick": "whole RFID runs on the real kernel, every run with at most one deviating draw (slot or reception) of 64 "
             "configurations: 1 to 4 tags, Q 0..3, sessions, target strategies, data reading on and off, adaptive Q, 1 "
             "to 3 antennas, power cycles shorter than a reading; 100 in which tags leave at every phase of their "
             "reading; 15 with tags out of power and 18 that end with tags still there; 6 configurations with two deviating draws; "
             "without deviations, 8 runs of realistic scale (road traffic with 6 to 20 tags, 9000 to 35000 exchanges each; a tag read over 1000 times; 1100 tags)",
    "thorough": "two deviating draws in all of them, three in four, 300 phases of leaving; 38 runs of realistic scale",
}
ASSUMPTIONS = ["a tag took part in a round if it is in the arbitrate or reply state after the Query (its state machine: "
               "C16)"]


def configs():
    out = []
    ants = ([], [dict(pos=[5.0, 0.3, 3.0])], [dict(pos=[5.0, 0.3, 3.0]), dict(pos=[5.0, -0.3, 3.5], gain=7.0)])
    for i, (q, sess, strat) in enumerate(itertools.product((0, 1, 2, 3), ("S0", "S1", "S2", "S3"), ("const", "switch"))):
        s = dict(q=q, session=sess, target_strategy=strat, rounds_per_target=1 + i % 3, num_tags=1 + i % 4,
                 update_interval=(0.003, 0.0011, 0.005)[i % 3], use_query_adjust=i % 5 == 0, adjust_delta=0.6,
                 read_tid_bank=i % 4 != 1, tid_word_size=(4, 6, 1)[i % 3],
                 reader_power_on_duration=(0.006, 0.0031, 0.0019, 0.01)[i // 2 % 4],
                 reader_power_off_duration=(0.0004, 0.001)[i // 3 % 2], travel_distance=(2.0, 1.4)[i % 2],
                 reader_antenna_switching_interval=(0.0011, 0.0023, 0.0007)[i % 3],
                 reader_switch_power=i % 7 != 0)
        if i % 7 == 0:
            s["target_strategy"] = "const"
        out.append(dict(settings=s, gen=[(0.001, 0.004, 0.0)[i // 4 % 3]], antennas=ants[i % 3],
                        slots=("spread", "zero", "spread", "one")[i // 3 % 4]))
        if i % 2:
            out.append(dict(settings=dict(s, num_tags=2, encoding=("M2", "FM0")[i % 4 // 2], trext=bool(i % 3)),
                            gen=[0.0], antennas=ants[i // 3 % 3]))
    for t in (0.0005, 0.0008, 0.0011, 0.0014, 0.0017, 0.002, 0.0024, 0.003):     # power cycles cut readings short
        for q in (0, 1):
            out.append(dict(settings=dict(q=q, num_tags=2, reader_power_on_duration=t, reader_power_off_duration=0.0002,
                                          update_interval=0.0004, session="S%d" % (q + 1)), gen=[0.001]))
    return out


def partial():
    """Tags that are not (always) powered, and runs that end with tags still in the model."""
    out = []
    for i, (sens, q) in enumerate(itertools.product((50.0, -5.0, -7.0, -9.0, -11.0), (0, 1, 2))):
        out.append(dict(settings=dict(tag_sensitivity=sens, q=q, num_tags=1 + i % 3, travel_distance=6.0,
                                      initial_distance_to_reader=3.0, update_interval=0.0011,
                                      reader_power_on_duration=0.009), gen=[0.001]))
    for i in range(18):
        out.append(dict(settings=dict(q=i % 3, num_tags=6, target_strategy=("switch", "const")[i % 2],
                                      session=("S0", "S2")[i // 2 % 2]), gen=[0.005, 0.0, 0.002],
                        limits=dict(max_sim_time=0.021 + 0.0013 * i)))
    return out


def leaving(thorough):
    out = []
    for i in range(150 if thorough else 50):
        for q, sess in ((0, "S0"), (1, "S2")):
            out.append(dict(settings=dict(num_tags=3, q=q, session=sess, travel_distance=0.1 * (0.7 + 0.117 * i),
                                          initial_distance_to_reader=0.3, update_interval=0.0003,
                                          reader_power_on_duration=0.011), gen=[0.0006]))
    return out


def deep():
    return [dict(settings=dict(q=q, num_tags=n, travel_distance=1.0, update_interval=0.001, session=s), gen=[0.001],
                 slots=slots) for q, n, s, slots in ((0, 1, "S0", "spread"), (1, 2, "S1", "spread"), (1, 2, "S0", "zero"),
                                                     (2, 2, "S2", "spread"), (0, 2, "S3", "zero"), (1, 3, "S1", "one"))]


def replay(case, rec):
    rfidrun.replay(case, rec, "ReadStatistics")


def run(rec):
    t = rec.thorough
    for cfgs, bound in ((rfidrun.road_runs(t), 0), (configs(), 2 if t else 1), (partial(), 2 if t else 1), (leaving(t), 1), (deep(), 3 if t else 2)):
        rfidrun.explore_cfgs(cfgs, rec, "ReadStatistics", bound)
        if rec.violation:
            return
