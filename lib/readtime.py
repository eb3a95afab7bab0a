"""The read-time process (tag_time) as the text describes it."""
from . import core, env
from .core import Violation, close, expect, same


class Chain:
    """States Arbitrate, Reply, Acknowledged, Secured 1..n; then done."""

    def __init__(self, scenario, probs, times, chunks):
        self.n = 3 + (chunks if scenario == 3 else 1)
        self.scenario = scenario
        self.p = [probs[i] if i < len(probs) else probs[3] for i in range(self.n)]
        self.t = [times[i] if i < len(times) else times[3] for i in range(self.n)]

    def step(self, s, success):
        """Next state; self.n is the end of a read."""
        if success:
            return s + 1
        return 0 if self.scenario == 1 else s


def expected_time(scenario, p, t):
    """Exact expected time to absorption (fractions), solving the linear
    equations of the chain by elimination."""
    from fractions import Fraction as F
    n = len(p)
    p, t = [F(x) for x in p], [F(x) for x in t]
    if scenario == 1:
        # E_i = t_i + p_i E_{i+1} + (1-p_i) E_0: E_i = a_i + b_i E_0
        a, b = F(0), F(0)
        for i in reversed(range(n)):
            a, b = t[i] + p[i] * a, p[i] * b + (1 - p[i])
        return a / (1 - b)
    # each state: mean number of visits 1/p
    total = F(0)
    for i in range(n):
        total += t[i] / p[i]
    return total


def draw(p, success, low_success=True):
    """A draw that only just succeeds or fails with probability p."""
    if low_success:
        u = p * (1 - 1e-9) if success else p * (1 + 1e-9) + 1e-300
    else:
        q = 1 - p
        u = q * (1 + 1e-9) + 1e-300 if success else q * (1 - 1e-9)
    return min(max(u, 0.0), 1 - 2.0 ** -53)


class Walk:
    """Decides every draw of a run; follows the reference chain."""

    def __init__(self, chain, chooser, reads, depth, low_success=True):
        self.c, self.ch, self.reads, self.depth = chain, chooser, reads, depth
        self.low = low_success
        self.state, self.done, self.time, self.n = 0, 0, 0.0, 0
        self.path = []
        self.clock = None       # function returning the model clock

    def unit(self):
        c = self.c
        if self.done >= self.reads:
            raise Violation("an outcome was decided after %d reads were complete" % self.reads)
        p = c.p[self.state]
        alts = [True, False]
        if p >= 1:
            alts = [True]
        elif p <= 0:
            alts = [False]
        if self.n < self.depth and len(alts) > 1:
            ok = alts[self.ch.choose(2, "outcome")]
        else:
            ok = alts[0]
        if self.clock is not None:
            close(self.clock(), self.time, "clock when outcome %d is decided (visits so far: %r)" % (self.n, self.path),
                  rel=1e-9, abs_=1e-9)
        self.n += 1
        self.path.append((self.state, ok))
        self.time += c.t[self.state]
        self.state = c.step(self.state, ok)
        if self.state == c.n:
            self.state = 0
            self.done += 1
        if p >= 1:      # certain: whatever is drawn
            return (0.0, 1 - 2.0 ** -53)[self.n % 2]
        return draw(p, ok, self.low)


def event_simulation(cfg, chooser, depth, limits=None, reads=None):
    """One run of the event simulation; returns (result, walk)."""
    from pysim.models.tag_time import handlers, objects
    from pysim.sim import simulator
    chain = Chain(cfg["scenario"], cfg["p"], cfg["t"], cfg["chunks"])
    w = Walk(chain, chooser, cfg["reads"] if reads is None else reads, depth)
    box = {}

    def init(sim, config):
        box["sim"] = sim
        return handlers.initialize(sim, config)
    w.clock = lambda: box["sim"].time
    config = objects.Config(probability=tuple(cfg["p"]), processing_time=tuple(cfg["t"]),
                            max_transmisions=cfg["reads"], chunks_number=cfg["chunks"], scenario=cfg["scenario"])
    with env.draws(env.Draws(unit=w.unit, integer=lambda lo, hi: lo)):
        stats, ctx, _ = simulator.run_simulation(simulator.build_simulation(
            "Monte-Carlo-simulation", init=init, init_args=(config,), fin=handlers.finalize, **(limits or {})))
    return stats, w, ctx


__all__ = ["Chain", "Walk", "event_simulation", "expected_time", "draw", "core", "expect", "same"]
