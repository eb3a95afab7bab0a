"""C31: power records describe the moment they were taken at."""
import itertools

from lib import rfidrun

LEVEL = "model_checking"
BOUNDS = {
    "quick": "whole RFID runs on the real kernel, every run with at most one deviating draw (slot or reception): 96 "
             "combinations of power cycle, antennas, speed, update interval, Doppler, reflection, modulation losses, "
             "BER distribution, adaptive Q, collecting or not; 60 on-durations that cut an exchange at every phase; each "
             "run once more with the collection switched the other way; "
             "without deviations, 8 runs of realistic scale (road traffic with 6 to 20 tags, 9000 to 35000 exchanges each; a tag read over 1000 times; 1100 tags)",
    "thorough": "two deviating draws in all; 38 runs of realistic scale",
}
ASSUMPTIONS = ["path losses, SNR and BER are those of the medium at that moment (decided by C26)",
               "at two updates of the same instant one record is enough"]


def configs():
    out = []
    ants = ([], [dict(pos=[5.0, 0.3, 3.0])], [dict(pos=[4.0, 0.1 * j, 3.0 + j]) for j in range(2)])
    for i, (speed, upd, n, switch) in enumerate(itertools.product((100.0, 10.0), (0.003, 0.0009), (0, 1, 2),
                                                                  (True, False))):
        for k in range(4):
            j = 4 * i + k
            s = dict(speed=speed, update_interval=upd if speed == 100.0 else upd * 10, q=j % 3, num_tags=1 + j % 3,
                     collect_power_statistics=j % 8 != 7, reader_switch_power=switch,
                     travel_distance=2.0 if speed == 100.0 else 0.3,
                     reader_power_on_duration=(0.006, 0.0023, 0.013)[j % 3], reader_power_off_duration=(0.001, 0.004)[j % 2],
                     reader_antenna_switching_interval=(0.0013, 0.0031)[j % 2],
                     reader_always_start_with_first_antenna=bool(j // 2 % 2), encoding=("FM0", "M2", "M8")[j % 3],
                     use_query_adjust=j % 4 == 1, adjust_delta=0.7, use_doppler=bool(j // 3 % 2),
                     ground_reflection_type=("reflection", "const")[j // 2 % 2],
                     ber_distribution=("rayleigh", "awgn")[j // 5 % 2], reader_power=(31.5, 20.0, 3.0)[j // 3 % 3],
                     tag_sensitivity=(-18.0, -30.0)[j // 4 % 2], reader_noise=(-80.0, -60.0)[j % 2],
                     session="S%d" % (j // 2 % 4), target_strategy=("const", "switch")[j // 4 % 2], trext=bool(j % 2))
            c = dict(settings=s, gen=[(0.001, 0.004)[j % 2]], antennas=ants[n], slots=("spread", "zero")[j // 5 % 2])
            if k == 1:
                c["losses"] = [-5.0, -40.0]
            if k == 2:
                c["kwargs"] = dict(power=27.0)
            if k == 3 and i % 2:
                c["limits"] = dict(max_sim_time=0.0081)
            out.append(c)
    return out


def cut(n):
    return [dict(settings=dict(q=i % 2, reader_power_on_duration=0.00005 + 0.0042 * i / n, num_tags=2,
                               collect_power_statistics=True, reader_power_off_duration=(0.0002, 0.0004, 0.00005)[i % 3],
                               update_interval=0.0005, travel_distance=1.2,
                               reader_antenna_switching_interval=0.0009), gen=[0.001],
                 antennas=[[], [dict(pos=[5.0, 0.3, 3.0])]][i % 2]) for i in range(n)]


def replay(case, rec):
    rfidrun.replay(case, rec, "PowerRecords")


def roads(t):
    """The runs of realistic scale, most of them with records."""
    return [dict(c, settings=dict(c["settings"], collect_power_statistics=i % 6 != 4))
            for i, c in enumerate(rfidrun.road_runs(t))]


def run(rec):
    t = rec.thorough
    for cfgs, bound in ((roads(t), 0), (configs(), 2 if t else 1), (cut(60), 2 if t else 1)):
        rfidrun.explore_cfgs(cfgs, rec, "PowerRecords", bound)
        if rec.violation:
            return
