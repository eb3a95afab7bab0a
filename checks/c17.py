"""C17: losing power resets a tag except for flags within their persistence."""
import itertools
import math

from lib import core
from lib.core import same
from lib.tagkit import PERSIST, SENS, SESSIONS, TagUnderTest

LEVEL = "model_checking"
BOUNDS = {
    "quick": "a tag next to the reference tag: all sequences of length <= 4 of power changes (9 steps in time up to "
             "and around each persistence time x none / below / at / above sensitivity) and full reads, then probes "
             "by every command; every protocol state x every outage length x every flag setting; repeated and "
             "split outages; four other sensitivities (0 dBm included); all reachable states of commands and power changes to depth 6",
    "thorough": "sequences of length <= 5, reachable states to depth 8, three other settings of the persistence times",
}
ASSUMPTIONS = ["time differences are exactly representable, so 'at' the persistence time is exact"]
LEVELS = (None, math.nextafter(SENS, -99), SENS, math.nextafter(SENS, 99), -3.0)
GAPS = (0.0, 0.25, 1.0, 2.0, math.nextafter(2.0, 9), 3.0, math.nextafter(3.0, 9), 5.0)


def flip(session, flag):
    return [("query", session, flag, "ALL", 0, 1), ("ack", "right"), ("qrep", session)]


def play(case, rec):
    """case: dict(persist, steps): ('p', dt, level) | ('flip', session) |
    ('c', event, slot) | ('probe',)"""
    t = TagUnderTest()
    pers = dict(zip(("S1", "S2", "S3"), case.get("persist") or (PERSIST[s] for s in ("S1", "S2", "S3"))))
    t.ref.persist = pers
    if "sens" in case:
        t.tag.sensitivity = t.ref.sens = case["sens"]
    t.tag.s1_persistence, t.tag.s2_persistence, t.tag.s3_persistence = pers["S1"], pers["S2"], pers["S3"]
    for step in case["steps"]:
        rec.transitions += 1
        if step[0] == "p":
            t.power(t.time + step[1], step[2])
            same(t.tag.power, None if t.ref.state == "OFF" else step[2], "power of the tag after %s" % (step,))
        elif step[0] == "t":
            t.time += step[1]
        elif step[0] == "flip":
            for ev in flip(step[1], t.ref.flags[step[1]]):
                t.step(ev)
        elif step[0] == "c":
            t.step(tuple(step[1]), step[2])
        else:
            for ev, slot in PROBE:
                t.step(ev, slot)
    rec.traces += 1
    rec.state(t.ref.key())
    return t


# commands that must stay unanswered by a tag that belongs to no round, then queries that show its flags
PROBE = ([(("qrep", s), 0) for s in SESSIONS] + [(("qadj", s, d), 0) for s in SESSIONS for d in (-1, 0, 1)] +
         [(("ack", "right"), 0), (("ack", "stale"), 0), (("reqrn", "right"), 0), (("read", "right", "TID", 0, 1), 0)] +
         [(("query", s, f, "ALL", 1, 0), 0) for s in SESSIONS for f in "BA"])


def replay(case, rec):
    play(case, rec)


def sequences(first, rec):
    evs, n, persist = first[1:]
    for tail in itertools.product(evs, repeat=n - 1):
        steps = [("p", 0.0, -3.0)] + [first[0]] + list(tail) + [("probe",)]
        core.guarded(play, dict(steps=steps, persist=persist), rec)
        if rec.violation:
            return


def search(item, rec):
    first, evs, depth = item
    seen = set()
    todo = [[("p", 0.0, -3.0), first]]
    for _ in range(depth):
        nxt = []
        for path in todo:
            t = core.guarded(play, dict(steps=path), rec)
            if rec.violation:
                return
            off = t.time - t.ref.off_at if t.ref.state == "OFF" else None
            k = (t.ref.key(), off, path[-1][0])
            rec.state(k)
            if k in seen:
                continue
            seen.add(k)
            nxt += [path + [ev] for ev in evs]
        todo = nxt
    for path in todo:
        core.guarded(play, dict(steps=path), rec)
        if rec.violation:
            return
    rec.sample(dict(first=first, states=len(seen)))


def run(rec):
    gaps = GAPS
    evs = [("p", g, None) for g in gaps] + [("p", g, lv) for g in (0.25, 1.0, 2.0) for lv in LEVELS[1:4]] + \
          [("p", 0.25, -3.0), ("p", 1.0, -3.0), ("flip", "S0"), ("flip", "S1"), ("flip", "S2"), ("flip", "S3")]
    n = 5 if rec.thorough else 4
    items = [(ev, evs, k, None) for k in range(1, n) for ev in evs]
    small = [e for e in evs if e[0] == "flip" and e[1] in ("S0", "S2") or e[0] == "p" and (
        e[1] in (0.25, 2.0, 3.0, math.nextafter(2.0, 9)) and e[2] in (None, SENS, -3.0))]
    items += [(ev, small, n, None) for ev in small]
    if rec.thorough:
        for persist in ((0.0, 0.5, 4.0), (4.0, 1.0, 0.0), (2.0, 2.0, 2.0)):
            items += [(ev, evs, 3, persist) for ev in evs]
    core.parallel_work(sequences, items, rec)
    if rec.violation:
        return
    # every protocol state, every flag setting, every outage around every persistence time
    q = ("query", "S1", "A", "ALL", 1, 2)
    states = {"READY": [], "ARBITRATE": [(q, 1)], "REPLY": [(q, 0)], "ACKNOWLEDGED": [(q, 0), (("ack", "right"), 0)],
              "SECURED": [(q, 0), (("ack", "right"), 0), (("reqrn", "right"), 0)],
              "LOST": [(q, 0), (("ack", "wrong"), 0)],
              "READ": [(q, 0), (("ack", "right"), 0), (("reqrn", "right"), 0), (("read", "right", "TID", 0, 2), 0)]}
    cases = []
    persists = [(1.0, 3.0, 2.0), (3.0, 2.0, 1.0), (2.0, 1.0, 3.0), (2.0, 2.0, 2.0), (0.0, 1.0, 1000.0)]
    for persist in persists:
        outs = sorted({x for p in persist for x in (p, math.nextafter(p, 9e9), math.nextafter(p, -1)) if x >= 0} |
                      {0.0, 0.5, 8.0, 5000.0})
        for setup in states.values():
            for flags in itertools.chain(itertools.product((0, 1), repeat=4)):
                for out in outs:
                    for lv in (None, math.nextafter(SENS, -99)):
                        base = [("p", 0.0, -3.0)] + [("flip", s) for s, f in zip(SESSIONS, flags) if f and s != "S1"]
                        # (S1 is flipped twice or not at all, so that the state can be set up in it)
                        base += [("flip", "S1"), ("flip", "S1")] if flags[1] else []
                        base += [("c", ev, slot) for ev, slot in setup]
                        cases.append(dict(persist=persist, steps=base + [
                            ("p", 4.0, lv), ("probe",), ("p", out, math.nextafter(SENS, 99)), ("probe",)]))
            # an outage that ends at or below the sensitivity is not over; a dip to the sensitivity is none
            for lv in LEVELS:
                for lv2 in LEVELS:
                    base = [("p", 0.0, -3.0)] + [("flip", s) for s in ("S0", "S2", "S3")] + \
                        [("c", ev, slot) for ev, slot in setup]
                    cases.append(dict(persist=persist, steps=base + [
                        ("p", 2.0, lv), ("p", 0.5, lv2), ("p", 1.5, None), ("p", 1.0, lv2), ("p", 1.0, -3.0), ("probe",)]))
                    cases.append(dict(persist=persist, steps=base + [("p", 2.0, lv), ("p", 0.0, lv2), ("probe",)]))
        # flags of S1 that are B when the power goes
        for out in outs:
            for again in outs[:4]:
                cases.append(dict(persist=persist, steps=[("p", 0.0, -3.0)] + [("flip", s) for s in SESSIONS] + [
                    ("p", 1.0, None), ("p", out, -3.0), ("p", 0.0, None), ("p", again, -3.0), ("probe",)]))
    # never powered at all, or late
    for lv in LEVELS:
        for t in (0.0, 1.0, 50.0):
            cases.append(dict(steps=[("probe",), ("p", t, lv), ("probe",), ("p", 1.0, lv), ("probe",)]))
    # other sensitivities
    for sens in (0.0, -0.5, 2.0, -120.0):
        levels = (None, math.nextafter(sens, -999), sens, math.nextafter(sens, 999), sens - 1, sens + 1)
        on = ("p", 0.0, sens + 5)
        for setup in states.values():
            base = [on] + [("flip", s) for s in ("S0", "S2", "S3")] + [("c", ev, slot) for ev, slot in setup]
            for lv, lv2, gap in itertools.product(levels, levels, (0.0, 1.0, 2.5)):
                cases.append(dict(sens=sens, steps=base + [("p", 1.0, lv), ("probe",), ("p", gap, lv2), ("probe",)]))
        for lv in levels:
            cases.append(dict(sens=sens, steps=[("probe",), ("p", 0.0, lv), ("probe",), ("p", 1.0, lv), ("probe",)]))
    core.run_cases(play, cases, rec)
    if rec.violation:
        return
    q2 = ("query", "S2", "A", "ALL", 1, 0)
    sevs = [("p", 0.25, None), ("p", 3.0, -3.0), ("p", math.nextafter(3.0, 9), -3.0), ("p", 0.25, SENS),
            ("c", q, 0), ("c", q, 1), ("c", q2, 0), ("c", ("ack", "right"), 0), ("c", ("reqrn", "right"), 0),
            ("c", ("qrep", "S1"), 0), ("c", ("qrep", "S2"), 0), ("c", ("qadj", "S1", 1), 0)]
    core.parallel_work(search, [(ev, sevs, 7 if rec.thorough else 5) for ev in sevs], rec)
