"""C21: which replies are decoded."""
import itertools

from lib import rfidrun

LEVEL = "model_checking"
BOUNDS = {
    "quick": "whole RFID runs on the real kernel. (a) 0, 1 or 2 replies to every command, every combination in the "
             "first 16 events (5 to 9 commands), with reception draws just below and just above the probability; (b) 45 configurations (4 "
             "encodings, 2 DR, 2 BER distributions, noise, power, EPC and data lengths, EPC collisions, tags of different memory, sensitive "
             "tags), real tags, draws just below / above (1-BER)^bits, every run with at most one deviating draw, 4 "
             "of them with two; (c) tags that leave or lose power in the middle of an exchange; "
             "without deviations, 8 runs of realistic scale (road traffic with 6 to 20 tags, 9000 to 35000 exchanges each; a tag read over 1000 times; 1100 tags)",
    "thorough": "18 events instead of 16; two deviating draws everywhere, three in four configurations; 38 runs of realistic scale",
}
ASSUMPTIONS = ["the BER of a reply is what the medium reports at the end of the exchange (its physics: C26)"]
EXACT = ["below", "above"]


def scripted(thorough):
    out = []
    for i, (m, trext, q) in enumerate(itertools.product(("FM0", "M2", "M4", "M8"), (False, True), (0, 2))):
        out.append(dict(settings=dict(encoding=m, trext=trext, speed=0.1, travel_distance=1.0, q=q,
                                      reader_power_on_duration=1.0, update_interval=0.0005,
                                      use_query_adjust=i % 3 == 0, adjust_delta=0.6, read_tid_bank=i % 4 != 3,
                                      tid_word_size=(1, 4, 8, 31)[i % 4], reader_noise=(-80.0, -70.0)[i % 2]),
                        gen=[(0.0001, 0.0)[i // 2 % 2]], script=True, informed=i // 2 % 2 == 1, reception=EXACT,
                        longer=[(0,), (0, 20), (20, 0)][i % 3], losses=[(-12.0,), (-12.0, -45.0), (-40.0, -6.0)][i % 3],
                        limits=dict(max_num_events=18 if thorough else 16)))
    return out


def configs():
    out = []
    for i, (m, dr, trext) in enumerate(itertools.product(("FM0", "M2", "M4", "M8"), ("DR_8", "DR_643"), (False, True))):
        f = {"FM0": 1, "M2": 2, "M4": 4, "M8": 8}[m]
        for j in range(2):
            out.append(dict(settings=dict(
                encoding=m, dr=dr, trext=trext, q=(0, 1, 2)[(i + j) % 3], reader_power_on_duration=0.006 * f,
                speed=100.0 / f, update_interval=0.003 * f ** .5, tid_word_size=(1, 4, 6, 31)[(i + j) % 4],
                epc_bitlen=(96, 128, 32, 256)[(i // 2 + j) % 4], reader_noise=(-80.0, -66.0, -72.0)[(i + 2 * j) % 3],
                session="S%d" % (i % 4), reader_power=(31.5, 25.0)[j]),
                gen=[0.002], reception=EXACT, slots=("spread", "spread", "zero")[(i + j) % 3]))
    for d in ("awgn", "rayleigh"):
        out.append(dict(settings=dict(ber_distribution=d, reader_noise=-70.0, q=1), reception=EXACT))
        out.append(dict(settings=dict(ber_distribution=d, reader_noise=-62.0, q=0, num_tags=3), gen=[0.002],
                        reception=EXACT, slots="zero"))
    out.append(dict(settings=dict(num_tags=3, q=2, use_query_adjust=True, adjust_delta=0.7), gen=[0.001], slots="zero",
                    reception=EXACT))
    out.append(dict(settings=dict(num_tags=4, q=3, session="S2", target_strategy="switch"), gen=[0.001],
                    reception=EXACT))
    out.append(dict(settings=dict(num_tags=2, q=1, travel_distance=0.5), gen=[0.0017], reception=EXACT))
    out.append(dict(settings=dict(num_tags=3, q=1, speed=300.0, travel_distance=0.9, reader_switch_power=False),
                    gen=[0.0013], reception=EXACT))
    out.append(dict(settings=dict(reader_power_on_duration=0.0021, reader_power_off_duration=0.0003, q=0,
                                  update_interval=0.0007), reception=EXACT))
    out.append(dict(settings=dict(q=1, reader_noise=-40.0), reception=EXACT))
    out.append(dict(settings=dict(q=0, num_tags=3), gen=[0.001], losses=[-12.0, -45.0, -3.0], slots="zero",
                    reception=EXACT))
    out.append(dict(settings=dict(q=1, num_tags=3), gen=[0.001], losses=[-36.0, -6.0], slots="zero", reception=EXACT))
    for i, extras in enumerate(([0, 20], [30, 0], [0, 2, 10])):
        out.append(dict(settings=dict(q=(1, 0, 2)[i], num_tags=3, tid_word_size=31, travel_distance=4.0, reader_noise=-72.0,
                                      reader_power_on_duration=(0.02, 0.009, 0.05)[i]), gen=[0.006], extras=extras,
                        reception=EXACT))
    return out


def replay(case, rec):
    rfidrun.replay(case, rec, "Decoding")


def run(rec):
    t = rec.thorough
    cfgs = configs()
    for c, bound in ((scripted(t), 99), (rfidrun.road_runs(t), 0), (cfgs, 2 if t else 1), (cfgs[:2] + cfgs[-9:-7], 3 if t else 2)):
        rfidrun.explore_cfgs(c, rec, "Decoding", bound)
        if rec.violation:
            return
