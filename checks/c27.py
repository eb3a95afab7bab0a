"""C27: the read-time simulation walks its scenario exactly."""
import itertools

from lib import core, readtime
from lib.core import close, expect, same

LEVEL = "model_checking"
BOUNDS = {
    "quick": "real event simulation on the real kernel next to the chain the text describes: scenarios 1, 2 and 3 (1 to "
             "5 fragments, own and shared parameters), 0 to 4 reads, every sequence of outcomes of up to 9 draws (then "
             "successes), draws just below / above each state's own probability; probabilities 0 and 1; runs of 100 "
             "reads; up to 300 fragments; event and time limits",
    "thorough": "every sequence of up to 13 outcomes",
}
ASSUMPTIONS = ["a draw equal to the probability itself does not occur"]
P = [0.31, 0.62, 0.17, 0.83, 0.44, 0.71, 0.23, 0.57]
T = [1.0, 0.10, 0.013, 0.0007, 0.00051, 0.00037, 0.00029, 0.00023]


def configs():
    out = []
    for scenario in (1, 2, 3):
        for chunks in ((1, 2, 3, 5) if scenario == 3 else (1, 4)):
            n = 3 + chunks if scenario == 3 else 4
            for reads in (1, 2, 3):
                out.append(dict(scenario=scenario, chunks=chunks, reads=reads, p=P[:n], t=T[:n]))
            if scenario == 3:
                out.append(dict(scenario=scenario, chunks=chunks, reads=2, p=P[:4], t=T[:4]))
    for scenario in (1, 2, 3):
        for bits in itertools.product((0.4, 1.0), repeat=4):
            out.append(dict(scenario=scenario, chunks=2, reads=2, p=list(bits), t=[3.0, 1.0, 0.25, 0.0625]))
        out.append(dict(scenario=scenario, chunks=2, reads=2, p=P[:4], t=[0.0, 0.5, 0.0, 2.0]))
        out.append(dict(scenario=scenario, chunks=3, reads=4, p=[0.999, 0.001, 0.5, 0.25], t=[2.0, 2.0, 2.0, 2.0]))
    return out


def play(case, rec, ch, depth):
    cfg = case["cfg"]
    stats, w, ctx = readtime.event_simulation(cfg, ch, depth, case.get("limits"))
    n = cfg["reads"]
    what = "visits %r" % w.path[:40]
    if not case.get("limits"):
        same(w.done, n, what + ": complete reads")
        same(w.state, 0, what + ": state at the end")
        close(stats.sim_time, w.time, what + ": duration of %d reads" % n)
        same(stats.exit_reason.name, "STOPPED", "exit reason")
    else:
        expect(w.done <= n, "%s: %d reads are complete", what, w.done)
    rec.traces += 1
    rec.transitions += w.n
    for s in {(tuple(w.path[:i])[-3:], x) for i, x in enumerate(w.path[:60])}:
        rec.state((cfg["scenario"], cfg["chunks"], s))
    rec.outcome((cfg["scenario"], cfg["chunks"], cfg["reads"], w.path))
    if rec.traces % 3000 == 1:
        rec.sample(dict(cfg=cfg, visits=w.path[:12], time=w.time))


def replay(case, rec):
    play(case, rec, core.Chooser(case["choices"]), case["depth"])


def run(rec):
    depth = 13 if rec.thorough else 9

    def tree(cfg, r):
        def one(ch, r2):
            core.guarded(lambda c, r3: play(c, r3, ch, depth), dict(cfg=cfg, choices=list(ch.prefix), depth=depth), r2)
        core.explore(one, r, 99)
    core.parallel_work(tree, configs(), rec)
    if rec.violation:
        return
    # directed: nothing ever succeeds, no reads, many reads, limits
    cases = []
    for scenario in (1, 2, 3):
        for i in range(4):
            p = [1.0] * 4
            p[i] = 0.0
            cases.append(dict(cfg=dict(scenario=scenario, chunks=2, reads=2, p=p, t=T[:4]), limits=dict(max_num_events=40)))
        cases.append(dict(cfg=dict(scenario=scenario, chunks=3, reads=0, p=P[:4], t=T[:4])))
        for k in range(2, 12):
            # every k-th outcome fails, in long runs
            cases.append(dict(cfg=dict(scenario=scenario, chunks=k // 2, reads=100, p=P[:4], t=T[:4]), every=k))
        for e in range(1, 60):
            cases.append(dict(cfg=dict(scenario=scenario, chunks=2, reads=5, p=P[:4], t=T[:4]),
                              limits=dict(max_num_events=e), every=3))
        for e in range(1, 40):
            cases.append(dict(cfg=dict(scenario=scenario, chunks=2, reads=5, p=P[:4], t=T[:4]),
                              limits=dict(max_sim_time=0.2 * e), every=2))
        for n in (16, 17, 31, 33, 64, 70, 128, 130, 256, 300):
            for k in (0, 3, 7):
                cases.append(dict(cfg=dict(scenario=scenario, chunks=n, reads=3, p=P[:4], t=T[:4]), every=k))
    for c in cases:
        k = c.get("every")
        c["choices"] = [int(i % k == k - 1) for i in range(4000)] if k else []
        c["depth"] = 4000 if k else 0
    core.run_cases(lambda c, r: play(c, r, _Lenient(c["choices"]), c["depth"]), cases, rec)


class _Lenient(core.Chooser):
    """Choices beyond those a run asks for do not matter."""

    def choose(self, n, label=None):
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.points.append(n)
        self.choices.append(c)
        return c
