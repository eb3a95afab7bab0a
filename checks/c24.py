"""C24: the reader's power cycle."""
import itertools

from lib import rfidrun

LEVEL = "model_checking"
BOUNDS = {
    "quick": "whole RFID runs on the real kernel, every run with at most one deviating draw (slot or reception): 48 "
             "combinations of periodic / always-on power, on and off durations, 1 to 4 antennas, switching intervals, "
             "first antenna or not, power override, encodings, adaptive Q; 16 with 5 to 18 antennas; 120 on-durations that cut an exchange at "
             "every phase; 5 configurations with two deviating draws; "
             "without deviations, 8 runs of realistic scale (road traffic with 6 to 20 tags, 9000 to 35000 exchanges each; a tag read over 1000 times; 1100 tags)",
    "thorough": "two deviating draws in all 48, three in 5, 400 on-durations; 38 runs of realistic scale",
}
ASSUMPTIONS = ["the order of a switch-off and an exchange that end at the same instant is that of the event queue"]


def configs():
    out = []
    ants = ([], [dict(pos=[5.0, 0.3, 3.0])], [dict(pos=[5.0, 0.3, 3.0]), dict(pos=[5.0, -0.3, 3.5], gain=7.0)],
            [dict(pos=[5.0, 0.1 * j, 3.0]) for j in range(3)])
    for i, (on, off, n) in enumerate(itertools.product((0.006, 0.0023, 0.0041, 0.012), (0.001, 0.0001, 0.005),
                                                       (0, 1, 2, 3))):
        s = dict(reader_power_on_duration=on, reader_power_off_duration=off, q=i % 3, num_tags=1 + i % 3,
                 reader_switch_power=i % 6 != 5, reader_antenna_switching_interval=(0.0013, 0.0007, 0.0031, 0.0041)[i % 4],
                 reader_always_start_with_first_antenna=bool(i // 3 % 2), encoding=("FM0", "FM0", "M2")[i % 3],
                 use_query_adjust=i % 4 == 1, adjust_delta=0.7, update_interval=(0.003, 0.0009)[i % 2],
                 target_strategy=("const", "switch")[i // 4 % 2], reader_power=(31.5, 28.0)[i % 2],
                 session="S%d" % (i // 2 % 4))
        out.append(dict(settings=s, kwargs=dict(power=27.0) if i % 5 == 0 else {}, gen=[(0.001, 0.004)[i % 2]],
                        antennas=ants[n], slots=("spread", "zero")[i // 5 % 2]))
    return out


def many():
    """Many antennas, visited several times within one interval of power."""
    out = []
    for n, first, on in itertools.product((4, 5, 8, 17), (False, True), (0.012, 0.004)):
        out.append(dict(settings=dict(reader_power_on_duration=on, reader_power_off_duration=0.0005, num_tags=1, q=1,
                                      reader_antenna_switching_interval=0.0003,
                                      reader_always_start_with_first_antenna=first, travel_distance=3.0),
                        gen=[0.001], antennas=[dict(pos=[5.0, 0.02 * j, 3.0]) for j in range(n)]))
    return out


def cut(thorough):
    """The reader is switched off at every phase of an exchange."""
    n = 200 if thorough else 60
    out = []
    for i in range(n):
        for q, ant in ((0, []), (1, [dict(pos=[5.0, 0.3, 3.0])])):
            out.append(dict(settings=dict(q=q, reader_power_on_duration=0.00005 + 0.0042 * i / n, num_tags=2,
                                          reader_power_off_duration=(0.0002, 0.0004, 0.00005)[i % 3],
                                          update_interval=0.0005, travel_distance=1.2,
                                          reader_antenna_switching_interval=0.0009,
                                          reader_always_start_with_first_antenna=bool(i % 2)),
                            gen=[0.001], antennas=ant))
    return out


def replay(case, rec):
    rfidrun.replay(case, rec, "PowerCycle")


def run(rec):
    t = rec.thorough
    cfgs = configs()
    for c, bound in ((rfidrun.road_runs(t), 0), (many(), 1), (cfgs, 2 if t else 1), (cut(t), 1), (cfgs[:3] + cfgs[7:9], 3 if t else 2)):
        rfidrun.explore_cfgs(c, rec, "PowerCycle", bound)
        if rec.violation:
            return
