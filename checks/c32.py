"""C32: an inventory, end to end."""
import itertools

from lib import rfidrun

LEVEL = "model_checking"
BOUNDS = {
    "quick": "whole RFID runs on the real kernel next to the reference reader and one reference tag per tag, joined by "
             "what the channel let through: 192 configurations (1 to 4 tags, Q 0..3, sessions, strategies, persistence "
             "around the off time, sensitivity inside the field, data reading, antennas, tags coming and going), every "
             "run with at most one deviating draw (slot or reception); 60 phases of switching off or leaving; 60 in which Q is adjusted and every second or third reply is lost; all runs "
             "of the first 17 to 36 events in 10 configurations, every slot and reception draw free; "
             "without deviations, 8 runs of realistic scale (road traffic with 6 to 20 tags, 9000 to 35000 exchanges each; a tag read over 1000 times; 1100 tags)",
    "thorough": "two deviating draws in all; 4 more events; 38 runs of realistic scale",
}
ASSUMPTIONS = ["the power a tag receives is what the medium computed (C26, C31), a reply is received as the channel "
               "decided (C21)", "RN16 values are drawn distinct but for 0 and 0xFFFF",
               "with adaptive Q only the tags are compared (the reader's commands: C19)"]


def configs():
    out = []
    ants = ([], [dict(pos=[5.0, 0.3, 3.0])], [dict(pos=[4.0, -0.4, 5.0], gain=3.0), dict(pos=[5.0, 0.4, 3.0])])
    for i, (q, sess, strat) in enumerate(itertools.product((0, 1, 2, 3), ("S0", "S1", "S2", "S3"), ("const", "switch"))):
        for j in range(6):
            n = i + 5 * j
            off = (0.0004, 0.001, 0.002)[n % 3]
            s = dict(q=q, session=sess, target_strategy=strat, rounds_per_target=1 + n % 3, num_tags=1 + (i + j) % 4,
                     update_interval=(0.003, 0.0011, 0.0007)[n % 3], read_tid_bank=j != 1, tid_word_size=(4, 2, 7)[n % 3],
                     reader_power_on_duration=(0.006, 0.0031, 0.0101, 0.0019)[n % 4], reader_power_off_duration=off,
                     s1_persistence=(0.0007, 2.0)[n % 2], s2_persistence=(2.0, 0.0015)[n // 2 % 2],
                     s3_persistence=(0.0003, 0.0012, 5.0)[n % 3], travel_distance=(2.0, 1.2)[j % 2],
                     reader_switch_power=j != 2 or strat == "switch", tag_sensitivity=(-18.0, -9.0, -30.0)[(i + j) % 3],
                     reader_antenna_switching_interval=(0.0011, 0.0023)[n % 2],
                     encoding=("FM0", "M2", "M4")[n % 3], trext=bool(n % 2), dr=("DR_8", "DR_643")[n // 3 % 2],
                     tari=(6.25e-6, 12.5e-6)[j == 4], target=("A", "B")[n % 7 == 0])
            if j == 3:
                s.update(use_query_adjust=True, adjust_delta=(0.5, 0.9)[i % 2])
            if j == 5:
                s.update(sel=("ALL", "NOT_SEL")[i % 2])
            out.append(dict(settings=s, gen=[(0.001, 0.0004, 0.0, 0.003)[(i + j) % 4]], antennas=ants[n % 3],
                            slots=("spread", "zero", "last", "one")[n // 3 % 4]))
    return out


def raised():
    """Q changes within a round while replies are lost."""
    out = []
    for i, (q, n, lossy, delta) in enumerate(itertools.product((0, 1, 2, 3, 4), (1, 2, 3), (2, 3), (0.5, 1.0))):
        out.append(dict(settings=dict(q=q, num_tags=n, use_query_adjust=True, adjust_delta=delta, session="S%d" % (i % 4),
                                      target_strategy=("const", "switch")[i % 2], reader_power_on_duration=(0.05, 0.011)[i % 2],
                                      encoding=("FM0", "M2")[i // 2 % 2], tid_word_size=2, travel_distance=3.0,
                                      initial_distance_to_reader=1.5),
                        gen=[0.0002], lossy=lossy, slots=("one", "zero", "mixed", "last")[i % 4], limits=dict(max_num_events=400)))
    return out


def phases():
    out = []
    for i in range(60):
        out.append(dict(settings=dict(num_tags=3, q=i % 3, session="S%d" % (i % 4), reader_power_on_duration=0.0011 + 0.000071 * i,
                                      reader_power_off_duration=0.0003, travel_distance=0.2 + 0.0117 * i,
                                      s2_persistence=0.0002, initial_distance_to_reader=0.3, update_interval=0.0004),
                        gen=[0.0006]))
    return out


def full(more):
    out = []
    for i, (q, n, sess, strat, cmds) in enumerate((
            (0, 1, "S0", "const", 32), (0, 1, "S1", "switch", 32), (1, 1, "S2", "switch", 24), (1, 2, "S0", "const", 18),
            (1, 2, "S1", "switch", 22), (2, 1, "S0", "switch", 28), (2, 2, "S3", "const", 16), (2, 2, "S2", "switch", 18),
            (1, 3, "S1", "const", 13), (3, 1, "S0", "const", 28))):
        out.append(dict(settings=dict(q=q, num_tags=n, session=sess, target_strategy=strat, speed=1.0, travel_distance=1.0,
                                      initial_distance_to_reader=0.5, update_interval=1.0, tid_word_size=1,
                                      reader_power_on_duration=(0.5, 0.004)[i % 3 == 1]),
                        gen=[0.0001], slots="spread", limits=dict(max_num_events=cmds + n + 3 + more)))
    return out


def replay(case, rec):
    rfidrun.replay(case, rec, "Inventory")


def run(rec):
    t = rec.thorough
    for cfgs, bound in ((rfidrun.road_runs(t), 0), (configs(), 2 if t else 1), (phases(), 2 if t else 1), (raised(), 1), (full(4 if t else 0), 99)):
        rfidrun.explore_cfgs(cfgs, rec, "Inventory", bound)
        if rec.violation:
            return
