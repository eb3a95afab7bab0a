"""C20: exchanges last as long as their frames and the link timings require."""
import itertools

from lib import gen2, rfidrun

LEVEL = "model_checking"
BOUNDS = {
    "quick": "whole RFID runs on the real kernel: 64 link configurations (4 encodings x 2 DR x 4 temperature / TRext "
             "combinations, Tari, RTcal and TRcal varied with them) and 8 more (data reading off, long banks, adaptive "
             "Q, short power cycles, 3 tags colliding, EPC lengths), every run with at most one deviating draw; scripted "
             "replies (0, 1 or 2 to any command) for 16 link configurations, every combination in the first "
             "18 events (5 to 9 commands); "
             "without deviations, 8 runs of realistic scale (road traffic with 6 to 20 tags, 9000 to 35000 exchanges each; a tag read over 1000 times; 1100 tags)",
    "thorough": "256 link configurations, two deviating draws; scripted combinations in the first 21 events (6 to 10 commands); 38 runs of realistic scale",
}
ASSUMPTIONS = ["frame durations and link timings themselves are computed by the oracle of C14 and C15"]


def link_settings(thorough):
    """Link configurations whose TRcal is in the table of tolerances."""
    out = []
    taris = (6.25e-6, 12.5e-6, 18.75e-6, 25.0e-6)
    timings = [(t, rt, tr) for tr in (2.5, 1.2, 2.0, 3.0, 1.5) for rt in (3.0, 2.5, 2.75) for t in taris]
    for i, (m, dr, temp, trext) in enumerate(itertools.product(("FM0", "M2", "M4", "M8"), ("DR_8", "DR_643"),
                                                               ("NOMINAL", "EXTENDED"), (False, True))):
        usable = [x for x in timings if gen2.link(1, x[0] * x[1], x[0] * x[1] * x[2], dr, temp == "EXTENDED")
                  and 17.3e-6 <= x[0] * x[1] * x[2] <= (220e-6 if dr == "DR_643" else 199e-6)]
        for j in range(8 if thorough else 2):
            tari, rt, tr = usable[(i * 11 + j * 7) % len(usable)]
            k = i + j
            out.append(dict(encoding=m, dr=dr, temp=temp, trext=trext, tari=tari, rtcal_tari_mul=rt, trcal_rtcal_mul=tr,
                            delim=(12.5e-6, 13.0e-6)[k % 2], session="S%d" % (k % 4),
                            tid_word_size=(1, 4, 8, 31)[k % 4]))
    return out


def slow(s):
    """Power-cycle lengths that fit the link."""
    t = s["tari"] / 6.25e-6 * (1, 2, 4, 8)[("FM0", "M2", "M4", "M8").index(s["encoding"])]
    t = min(t, 10)
    return dict(reader_power_on_duration=0.008 * t, reader_power_off_duration=0.001, update_interval=0.003 * t ** .5,
                speed=100.0 / t, travel_distance=2.0)


def configs(thorough):
    out = []
    for i, s in enumerate(link_settings(thorough)):
        out.append(dict(settings=dict(s, **slow(s)), gen=[0.002], slots=("spread", "zero")[i % 4 == 3]))
    out.append(dict(settings=dict(read_tid_bank=False, q=2)))
    out.append(dict(settings=dict(tid_word_size=0, q=0)))
    out.append(dict(settings=dict(use_query_adjust=True, q=1, adjust_delta=1.0), slots="zero"))
    out.append(dict(settings=dict(reader_power_on_duration=0.0013, reader_power_off_duration=0.0004)))
    out.append(dict(settings=dict(reader_power_on_duration=0.0002, reader_power_off_duration=0.0001, update_interval=0.0004)))
    out.append(dict(settings=dict(num_tags=3, q=0), gen=[0.001]))
    out.append(dict(settings=dict(num_tags=3, q=1, epc_bitlen=256, tid_word_size=31), gen=[0.001]))
    out.append(dict(settings=dict(reader_switch_power=False, q=3, target_strategy="switch", rounds_per_target=2)))
    out.append(dict(settings=dict(epc_bitlen=32, q=1), kwargs=dict(encoding="M2", tari=12.5e-6, tid_word_size=6)))
    return out


def scripted(thorough):
    out = []
    for i, s in enumerate(link_settings(False)[::2]):
        out.append(dict(settings=dict(s, speed=0.1, travel_distance=1.0, reader_power_on_duration=1.0,
                                      update_interval=0.0005, q=i % 3, use_query_adjust=bool(i % 2),
                                      adjust_delta=0.6, read_tid_bank=i % 5 != 4),
                        gen=[(0.0001, 0.0)[i // 2 % 2]], script=True, informed=i // 2 % 2 == 1, reception=["got"],
                        longer=[(0,), (0, 20), (20, 0)][i % 3], limits=dict(max_num_events=21 if thorough else 18)))
    return out


def replay(case, rec):
    rfidrun.replay(case, rec, "Timing")


def run(rec):
    t = rec.thorough
    for cfgs, bound in ((scripted(t), 99), (rfidrun.road_runs(t), 0), (configs(t), 2 if t else 1)):
        rfidrun.explore_cfgs(cfgs, rec, "Timing", bound)
        if rec.violation:
            return
