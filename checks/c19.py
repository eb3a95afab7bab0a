"""C19: adaptive Q."""
from lib import rfidrun

LEVEL = "model_checking"
BOUNDS = {
    "quick": "whole RFID runs on the real kernel. (a) scripted slots: every sequence of outcomes (silent, one reply "
             "decoded, one reply lost, collision) of up to 5 slots for 25 combinations of Q, floating Q and step; "
             "(b) climbs to 15 and falls to 0 from every Q with 14 steps 0.1 to 2.0, and from 5 of them with one "
             "different outcome; "
             "(c) real tags: 17 configurations, every run with at most one deviating draw (slot or reception), 4 of "
             "them with two; "
             "without deviations, 8 runs of realistic scale (road traffic with 6 to 20 tags, 9000 to 35000 exchanges each; a tag read over 1000 times; 1100 tags)",
    "thorough": "sequences of up to 7 slots, climbs and falls with two different outcomes, real tags with two "
                "deviating draws (three in small configurations); 38 runs of realistic scale",
}
ASSUMPTIONS = ["the cases the property leaves open follow the code: one lost reply counts as silence, the slot opened "
               "by a QueryAdjust itself does not change the floating Q, and a change of more than one is not sent"]
SCRIPT = dict(speed=1.0, travel_distance=2.0, reader_power_on_duration=1.0, update_interval=0.0005,
              use_query_adjust=True)


def scripted(events, default=0, reception=("got", "lost"), **settings):
    kwargs = settings.pop("kwargs", {})
    return dict(settings=dict(SCRIPT, **settings), gen=[0.0], script="outcomes", informed=True, default=default, kwargs=kwargs,
                limits=dict(max_num_events=events), reception=list(reception))


def sequences(thorough):
    n = 19 if thorough else 15
    out = []
    for q, d in ((0, 0.1), (0, 0.5), (0, 0.6), (0, 1.0), (1, 0.3), (1, 0.5), (1, 0.7), (1, 1.5), (2, 0.3), (2, 0.6),
                 (2, 1.0), (2, 0.0), (0, 0.0), (14, 0.3), (14, 0.6), (15, 0.5), (15, 1.0), (15, 0.1)):
        out.append(scripted(n, q=q, adjust_delta=d))
    out.append(scripted(n, q=2, adjust_delta=0.3, q_fp=2.4))
    out.append(scripted(n, q=3, adjust_delta=0.25, q_fp=2.6, session="S2"))
    out.append(scripted(n, q=2, adjust_delta=0.8, q_fp=5.0))
    out.append(scripted(n, q=4, adjust_delta=1.0, q_fp=1.5, session="S1"))
    out.append(scripted(n, q=2, adjust_delta=1.1))
    out.append(scripted(n, q=2, adjust_delta=0.1, kwargs=dict(delta=0.9), session="S3"))
    out.append(scripted(n, q=2, adjust_delta=0.6, use_query_adjust=False))
    out.append(scripted(n, q=2, adjust_delta=0.6, kwargs=dict(useadjust=False)))
    out.append(scripted(n, q=2, adjust_delta=0.6, use_query_adjust=False, kwargs=dict(useadjust=True), session="S1"))
    return out


def long_runs():
    """(configurations explored with deviations, long ones without)"""
    out, plain = [], []
    for d in (0.3, 0.5, 1.0, 1.5):
        for q in (0, 1, 7, 13, 15):
            for default in (0, 2):
                out.append(scripted(30 if d <= 0.3 else 22, default=default, reception=["got"], q=q, adjust_delta=d,
                                    session="S%d" % (q % 4)))
    for d in (0.1, 0.2, 0.3, 0.35, 0.4, 0.5, 0.51, 0.6, 0.75, 0.9, 1.0, 1.1, 1.5, 2.0):
        for q in range(16):
            for default in (0, 2):
                plain.append(scripted(150, default=default, reception=["got"], q=q, adjust_delta=d))
    return out, plain


def real_tags():
    base = dict(use_query_adjust=True, adjust_delta=0.6, reader_power_on_duration=0.02)
    out = []
    for slots in ("spread", "zero", "one", "last"):
        for s in (dict(q=1), dict(q=2, adjust_delta=0.3, session="S1"), dict(q=0, adjust_delta=1.0, num_tags=3)):
            out.append(dict(settings=dict(base, **s), gen=[0.0005], slots=slots))
    out.append(dict(settings=dict(base, q=3, session="S3", num_tags=3, target_strategy="switch"), gen=[0.0003]))
    out.append(dict(settings=dict(base, q=15, adjust_delta=0.5), gen=[0.0005]))
    out.append(dict(settings=dict(base, q=14, adjust_delta=1.0, num_tags=3), gen=[0.0005], slots="zero"))
    out.append(dict(settings=dict(base, q=2, adjust_delta=1.0, use_query_adjust=False), gen=[0.0005], slots="zero"))
    out.append(dict(settings=dict(base, q=2, reader_power_on_duration=0.004, reader_power_off_duration=0.001),
                    gen=[0.0005], slots="zero"))
    return out


def replay(case, rec):
    rfidrun.replay(case, rec, "Adaptation")


def run(rec):
    t = rec.thorough
    deviated, plain = long_runs()
    for cfgs, bound in ((sequences(t), 99), (deviated, 2 if t else 1), (plain, 0), (rfidrun.road_runs(t), 0), (real_tags(), 2 if t else 1),
                        (real_tags()[:4], 3 if t else 2)):
        rfidrun.explore_cfgs(cfgs, rec, "Adaptation", bound)
        if rec.violation:
            return
