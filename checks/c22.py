"""C22: identities and lives of the tags, end of the run."""
import itertools

from lib import rfidrun

LEVEL = "model_checking"
BOUNDS = {
    "quick": "whole RFID runs on the real kernel, every run with at most one deviating draw: 60 configurations "
             "(generation intervals, 0 to 4 tags, generators that go on beyond that number, speeds, distances, update intervals, offsets, EPC of 24 to 256 bits, "
             "TID of 1 to 31 words, power cycles) and 160 in which tags leave at every phase of their reading, 21 with tags "
             "that stay for seconds to weeks and a reader that is almost always off; 29 "
             "configurations with 30 to 700 tags, every event limit from 1 to 220 and 60 model-time limits without "
             "deviations; "
             "without deviations, 8 runs of realistic scale (road traffic with 6 to 20 tags, 9000 to 35000 exchanges each; a tag read over 1000 times; 1100 tags)",
    "thorough": "two deviations in a third of the configurations, 320 phases of leaving, up to 5000 tags, event limits "
                "up to 600; 38 runs of realistic scale",
}
ASSUMPTIONS = ["EPC lengths are whole bytes, as in Gen2", "identities of other lengths than the configured ones do not "
               "occur for lengths below the fixed prefix of 16 bits"]
QUIET = dict(reader_power_on_duration=0.5, reader_power_off_duration=0.1)


def configs():
    out = []
    gens = ([0.004], [0.0], [0.001, 0.0, 0.011], [0.03], [0.003], [0.02, 0.0, 0.0])
    speeds = (100.0, 10.0, 333.0, 55.5, 1000.0, 28.0)
    for i, (gen, n) in enumerate(itertools.product(gens, (1, 2, 3, 4))):
        v = speeds[i % 6]
        out.append(dict(settings=dict(num_tags=n, speed=v, travel_distance=v * (0.02, 0.013, 0.031)[i % 3],
                                      initial_distance_to_reader=v * 0.01, q=i % 3,
                                      update_interval=(0.003, 0.0007, 0.02, 0.05)[i % 4],
                                      epc_bitlen=(96, 24, 128, 256, 64)[i % 5], tid_word_size=(4, 1, 2, 31, 6)[i % 5],
                                      reader_power_on_duration=(0.006, 0.0023, 1.0)[i % 3]),
                        gen=gen, slots=("zero", "spread")[i % 4 == 3]))
    for t in (0.001, 0.0017, 0.0031, 0.0052, 0.0088):          # tags leave while they are being read
        for q in (0, 1):
            out.append(dict(settings=dict(num_tags=3, q=q, travel_distance=100.0 * t, update_interval=0.0005),
                            gen=[0.0006]))
    for k in (dict(num_tags=4), dict(speed=40.0), dict(tid_word_size=9), dict(tag_offset=2.0, reader_offset=1.0)):
        out.append(dict(settings={}, kwargs=k))
    for gen, n, most in itertools.product(([0.004], [0.0005], [0.0, 0.003]), (1, 2, 3), (-1, 5)):
        # the run ends while other tags are still there
        out.append(dict(settings=dict(num_tags=n, q=n % 2, travel_distance=(1.0, 0.5)[n % 2]), gen=gen, generated=most))
    for q in (0, 1):                                           # no tags at all
        out.append(dict(settings=dict(num_tags=0, q=q), gen=[0.001], limits=dict(max_sim_time=0.02)))
    for ant in (dict(tag_antenna_x=7.0, tag_antenna_z=0.5), dict(initial_distance_to_reader=-1.0)):
        out.append(dict(settings=ant))
    return out


def long_runs(thorough):
    out = []
    for n, epc, words in ((300, 96, 4), (40, 24, 1), (256, 24, 2), (300, 32, 2), (700, 128, 8)) + (
            ((5000, 96, 4), (4000, 32, 2)) if thorough else ()):
        out.append(dict(settings=dict(num_tags=n, epc_bitlen=epc, tid_word_size=words, update_interval=0.004,
                                      travel_distance=1.0, reader_switch_power=True, q=2, reader_power_on_duration=0.002,
                                      reader_power_off_duration=0.05), gen=[0.004], slots="spread", cap=400000))
    for m in range(24):
        out.append(dict(settings=dict(num_tags=30, speed=5.0 + 17 * m, travel_distance=1.0 + 0.3 * m, q=m % 4,
                                      update_interval=0.001 * (m + 1), use_query_adjust=bool(m % 2),
                                      session="S%d" % (m % 4), reader_power_on_duration=0.01, epc_bitlen=96,
                                      reader_power_off_duration=0.004 * (m % 5 + 1)),
                        gen=[0.002 * (m % 7), 0.003, 0.0], slots="spread", cap=400000))
    return out


def slow(thorough):
    """Lives of seconds to weeks, intervals of the same order: the reader is almost always off."""
    out = []
    for i, life in enumerate((9.0, 70.0, 601.0, 3700.0, 5000.0, 90000.0, 1.1e6)):
        for q, n in ((0, 1), (1, 3), (0, 4)) + (((2, 6), (1, 9)) if thorough else ()):
            out.append(dict(settings=dict(num_tags=n, q=q, speed=20.0 / life, travel_distance=20.0, reader_switch_power=True,
                                          initial_distance_to_reader=10.0, update_interval=life / (7.0, 31.0, 12.5)[i % 3],
                                          reader_power_on_duration=0.003, reader_power_off_duration=life / (17.3, 9.1)[n % 2]),
                            gen=([life * 0.4, life * 1.7], [life / 3], [life * 2, 0.0, life * 0.9])[(i + n) % 3]))
    return out


def limited(thorough):
    base = dict(num_tags=4, q=1)
    out = [dict(settings=base, gen=[0.003, 0.0], limits=dict(max_num_events=n))
           for n in range(1, 601 if thorough else 221, 1)]
    out += [dict(settings=base, gen=[0.003, 0.0], limits=dict(max_sim_time=0.0005 * i)) for i in range(1, 61)]
    return out


def leaving(thorough):
    """A tag leaves at every phase of its reading."""
    out = []
    for i in range(160 if thorough else 80):
        for q, m in ((0, "FM0"), (1, "M2")):
            out.append(dict(settings=dict(num_tags=3, q=q, encoding=m, travel_distance=0.1 * (0.7 + 0.0731 * i),
                                          initial_distance_to_reader=0.3, update_interval=0.0003,
                                          reader_power_on_duration=0.011),
                            gen=[0.0006]))
    return out


def replay(case, rec):
    rfidrun.replay(case, rec, "Life")


def run(rec):
    t = rec.thorough
    cfgs = configs()
    for c, bound in ((rfidrun.road_runs(t), 0), (long_runs(t), 0), (limited(t), 0), (leaving(t), 1), (slow(t), 1), (cfgs, 1), (cfgs[::3] if t else [], 2)):
        rfidrun.explore_cfgs(c, rec, "Life", bound)
        if rec.violation:
            return
