"""C11: ping-pong results report the true averages and loss rate."""
import itertools

from lib import core, env
from lib.core import close, expect, same

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all loss patterns of 1 to 10 pings x 6 delay settings x 2 loss probabilities, through run_model and "
             "through the command line function",
    "thorough": "all loss patterns of 1 to 14 pings",
}
ASSUMPTIONS = ["no result value is asserted for a run that sends no ping at all (only that a result is produced)"]
SETTINGS = [(10.0, 2.0, 1.0), (1.0, 0.0, 0.0), (0.1, 0.2, 0.3), (3.0, 7.0, 1000.0), (0.0, 5.0, 2.0), (1e-3, 1e3, 1.0)]


def execute(case, rec):
    from pysim.models.pingpong import cli
    from pysim.models.pingpong.objects import Config
    from pysim.sim.logger import ModelLoggerConfig
    interval, ch, svc = case["setting"]
    lost = case["lost"]
    n = [0]

    def unit():
        n[0] += 1
        p = case["loss_prob"]
        near = (1e-9, 2 ** -50, 1.0)[case["near"]]
        return max(0.0, p - near) if lost[n[0] - 1] else min(p + near, 1 - 2 ** -53)
    kw = dict(interval=interval, channel_delay=ch, service_delay=svc, loss_prob=case["loss_prob"],
              max_pings=len(lost))
    with env.draws(env.Draws(unit=unit, integer=lambda lo, hi: {"low": lo, "high": hi}.get(case["first"], (lo + hi) // 3))):
        if case["via"] == "run_model":
            res = cli.run_model(Config(**kw), ModelLoggerConfig())
        else:
            res = cli.create_config(kw)
    rec.traces += 1
    rec.transitions += n[0]
    expect(res is not None, "no result")
    rec.outcome((case["setting"], res.avg_interval, res.avg_delay, res.miss_rate))
    if not lost:
        return
    same(n[0], len(lost), "pings decided")
    rec.state((case["setting"], sum(lost), len(lost)))
    close(res.miss_rate, sum(lost) / len(lost), "miss rate of the pattern %s" % lost)
    close(res.avg_delay, ch, "average transmission delay of %s" % lost)
    close(res.avg_interval, interval, "average ping interval of %s" % lost)
    if rec.traces % 500 == 1:
        rec.sample([case, str(res)])


def replay(case, rec):
    execute(case, rec)


def run(rec):
    top = 14 if rec.thorough else 10
    cases = []
    for n in range(top + 1):
        for lost in itertools.product((0, 1), repeat=n):
            for i, setting in enumerate(SETTINGS):
                cases.append(dict(setting=setting, lost=list(lost), loss_prob=(0.1, 0.5)[(i + sum(lost)) % 2],
                                  via=("run_model", "cli")[i % 2]))
            if all(lost) and lost:
                cases.append(dict(setting=SETTINGS[0], lost=list(lost), loss_prob=1.0, via="cli"))
            if not any(lost):
                cases.append(dict(setting=SETTINGS[0], lost=list(lost), loss_prob=0.0, via="cli"))
    for lost in itertools.product((0, 1), repeat=4):
        cases.append(dict(setting=SETTINGS[2], lost=list(lost) * 300, loss_prob=0.1, via="cli"))
    for i, case in enumerate(cases):
        case["near"], case["first"] = (i // 3) % 3, ("low", "high", "mid")[(i // 9) % 3]
    core.run_cases(execute, cases, rec)
